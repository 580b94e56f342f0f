"""Reference values of the enhancement integrals, by numerical quadrature of their definitions.

E1-type kernels: for a slab, photons emitted isotropically at one depth and absorbed at another one, the optical
distance in between being t, contribute 0.5 * E1(t).
"""
import math

import numpy as np
from scipy import special

_g, _w = np.polynomial.legendre.leggauss(16)
_g = (_g + 1) / 2
_w = _w / 2
# panels of [0, 1] refined towards 0 (logarithmic singularity, fast decay) and, less, towards 1
_edges = np.array([0.0] + [10.0 ** (-12 + 0.75 * i) for i in range(15)] + [0.2, 0.3])
_edges = np.concatenate([_edges, [0.45, 0.6], 1 - np.array([10.0 ** (-0.5 - 0.75 * i) for i in range(10)]), [1.0]])
_edges = np.unique(_edges)
_x = np.concatenate([a + (b - a) * _g for a, b in zip(_edges[:-1], _edges[1:])])
_wx = np.concatenate([(b - a) * _w for a, b in zip(_edges[:-1], _edges[1:])])


def e1(x):
    return special.exp1(x)


def D(x):
    """exp(x) E1(x), principal value for negative arguments"""
    if x > 0:
        return float(special.exp1(x) * math.exp(x)) if x < 200 else _asym(x)
    if x < -200:
        return _asym(x)
    return -math.exp(x) * float(special.expi(-x))


def _asym(x):
    s, t = 0.0, 1.0
    for k in range(1, 30):
        s += t
        t *= -k / x
        if abs(t) < 1e-17:
            break
    return s / x


def X(p, q, d1, d2, m1, m2, b):
    """integral over both layers of exp(q x) exp(-p y) E1(m1 x + b + m2 y)"""
    x, y = d1 * _x, d2 * _x
    a = m1 * x[:, None] + b + m2 * y[None, :]
    return float((d1 * _wx * np.exp(q * x)) @ special.exp1(a) @ (d2 * _wx * np.exp(-p * y)))


def caseb(p, q, d1, d2, m1, m2, b):
    """exp(-p d2) X(-p, -q, ...), p and q positive, without overflow"""
    x, y = d1 * _x, d2 * _x
    # y measured from the boundary towards layer 1; the beam enters at the other side
    yy = d2 - y
    a = m1 * x[:, None] + b + m2 * yy[None, :]
    return float((d1 * _wx * np.exp(-q * x)) @ special.exp1(a) @ (d2 * _wx * np.exp(-p * y)))


def L(mu1, mu2, muj, d):
    """integral over x, and t < d - x, of exp(-(mu1 + mu2) x) exp(-mu1 t) E1(muj t)"""
    if math.isinf(d):
        return math.log1p(mu1 / muj) / (mu1 * (mu1 + mu2))
    x = d * _x
    T = (d - x)[:, None]
    t = T * _x[None, :]
    inner = (T * _wx[None, :] * np.exp(-mu1 * t) * special.exp1(muj * t)).sum(axis=1)
    return float((d * _wx * np.exp(-(mu1 + mu2) * x) * inner).sum())


def L_closed(mu1, mu2, muj, d):
    """the same, closed form (de Boer eq. 6)"""
    v = D((muj - mu2) * d) / (mu2 * (mu1 + mu2)) - D(muj * d) / (mu1 * mu2) + D((muj + mu1) * d) / (mu1 * (mu1 + mu2))
    v *= math.exp(-(mu1 + muj) * d)
    v += math.log1p(mu1 / muj) / (mu1 * (mu1 + mu2))
    return v + math.exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2)) * math.log(abs(mu2 - muj) / muj)


def Vterms(p, q, d1, d2, m1, m2, b):
    """V as a list of (factor, argument of D) and the exponent in front; X is a combination of four of them"""
    T = m1 * d1 + b + m2 * d2
    s = p * m1 + q * m2
    ex = (q - m1) * d1 - (p + m2) * d2 - b
    return ex, [(m2 / (p * s), (1 + p / m2) * T), (m1 / (q * s), (1 - q / m1) * T), (-1 / (p * q), T)]


def V00(p, q, m1, m2):
    """limit of V for no thickness at all"""
    s = p * m1 + q * m2
    return -(m2 / p * math.log(abs(1 + p / m2)) + m1 / q * math.log(abs(1 - q / m1))) / s


def X_closed(p, q, d1, d2, m1, m2, b, scale=0.0):
    """X * exp(scale) and the sum of the absolute values of the terms it is made of, each times the accuracy of D"""
    v, err = 0.0, 0.0
    for sg, x1, x2 in ((1, d1, d2), (-1, d1, 0.0), (-1, 0.0, d2), (1, 0.0, 0.0)):
        if b == 0 and x1 == 0 and x2 == 0:
            t = V00(p, q, m1, m2) * math.exp(scale)
            v += sg * t
            err += 1e-15 * abs(t)
            continue
        ex, terms = Vterms(p, q, x1, x2, m1, m2, b)
        f = math.exp(ex + scale) if ex + scale > -740 else 0.0
        for a, arg in terms:
            d = D(arg)
            v += sg * f * a * d
            err += f * abs(a) * epsD(arg, d)
    return v, err


def epsD(x, d):
    """absolute accuracy of the approximations used for D: AS 5.1.53 (2e-7 for E1) below one, 1e-7 above"""
    if x <= 0:
        return 1e-11 * abs(d) + 1e-14
    return 2.6e-7 * math.exp(x) if x <= 1 else 2.5e-7 * d


def L_closed_err(mu1, mu2, muj, d):
    e = (epsD((muj - mu2) * d, D((muj - mu2) * d)) / (mu2 * (mu1 + mu2)) + epsD(muj * d, D(muj * d)) / (mu1 * mu2) +
         epsD((muj + mu1) * d, D((muj + mu1) * d)) / (mu1 * (mu1 + mu2))) * math.exp(-(mu1 + muj) * d)
    return e + 1e-14 * abs(math.log(abs(mu2 - muj) / muj)) / (mu2 * (mu1 + mu2))
