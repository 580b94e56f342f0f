"""C17 special functions agree with their integral definitions"""
import math

from hypothesis import strategies as st
from scipy import special

from .. import gen, integrals as I
from ..harness import Test, check, eq, fail, rejects

EULER = 0.57721566490153286


def near(a, b, tol, what):
    check(math.isfinite(a) and abs(a - b) <= tol, lambda: "%s: got %r, expected %r (tolerance %.2g)" % (what, a, b, tol))


def py():
    import fisx
    return fisx._fisx.PyMath() if hasattr(fisx, "_fisx") else fisx.Math()


# ---------------------------------------------------------------- exponential integrals
def positive():
    return st.one_of(gen.logfl(1e-12, 1.0, 9), gen.logfl(1.0, 690., 9), gen.fl(0.0, 3.0, 9).map(lambda x: x or 1e-9),
                     st.sampled_from([1.0, math.nextafter(1.0, 0), math.nextafter(1.0, 2), 0.999999, 1.000001, 0.5, 2.0, 1e-300]))


def args():
    return st.one_of(positive(), positive(), gen.logfl(1e-9, 690., 9).map(lambda x: -x), gen.fl(0.01, 50., 7).map(lambda x: -x),
                     st.sampled_from([-1.0, -2.0, -0.5, -5.0, -10.0, -20.0, -40., -39.999, -40.001, -0.3725074]))


def exact_e1(x):
    return float(special.exp1(x)) if x > 0 else -float(special.expi(-x))


def tol_e1(x):
    v = exact_e1(x)
    if x > 1:
        return 2.5e-7 * v + 1e-320
    if x > 0:
        return 2.6e-7 + 1e-15 * v
    return 1e-11 * abs(v) + 1e-12


def run_e1(c):
    import vfx_ext
    M, P = vfx_ext.CMath, py()
    x, n = c["x"], c["n"]
    v = exact_e1(x)
    g = M.E1(x)
    near(g, v, tol_e1(x), "E1(%r)" % x)
    eq(P.E1(x), g, "E1(%r) (Python)" % x, rel=1e-15)
    # E_n by the recurrence; errors of E1 are amplified by x^(n-1)/(n-1)!
    # (where the recurrence loses all the digits there is nothing to be compared)
    want, tol = v, tol_e1(x)
    ex = math.exp(-x)
    for k in range(1, n):
        want = (ex - x * want) / k
        tol = (abs(x) * tol + 1e-14 * (ex + abs(x * want))) / k
    if n > 1 and x > 0:
        want = float(special.expn(n, x))
    near(M.En(n, x), want, tol + 1e-13 * abs(want), "En(%d, %r)" % (n, x))
    eq(P.En(n, x), M.En(n, x), "En (Python)", rel=1e-15)
    a, b = M.En(n, x), M.En(n + 1, x)
    near(n * b + x * a, ex, 1e-12 * (ex + abs(x * a)) + 1e-300, "recurrence of En(%d, %r)" % (n, x))
    if n > 1:
        eq(M.En(n, 0.0), 1.0 / (n - 1), "En(%d, 0)" % n, rel=1e-14)
    else:
        check(rejects(M.E1, 0.0), "E1(0) accepted")
        check(rejects(M.En, 0, x), "En(0, x) accepted")
    if x > 0:
        d = I.D(x)
        near(M.deBoerD(x), d, I.epsD(x, d) + 1e-14 * d, "D(%r)" % x)
        eq(P.deBoerD(x), M.deBoerD(x), "D (Python)", rel=1e-15)
        if x <= 1:
            near(M.AS_5_1_53(x), v + math.log(x), 2.6e-7, "AS 5.1.53(%r)" % x)
            if x < 1:
                check(rejects(M.AS_5_1_56, x), "AS 5.1.56 accepted %r" % x)
        else:
            near(M.AS_5_1_56(x), x * d, 2.1e-8 * 5, "AS 5.1.56(%r)" % x)
            check(rejects(M.AS_5_1_53, x), "AS 5.1.53 accepted %r" % x)
    return ["nt", "neg" if x < 0 else "small" if x <= 1 else "large"]


def run_d(c):
    """D over the whole line, up to large arguments"""
    import vfx_ext
    x = c["x"]
    d = I.D(x)
    near(vfx_ext.CMath.deBoerD(x), d, I.epsD(x, d), "D(%r)" % x)
    if x > 0:
        g = vfx_ext.CMath.deBoerD(x)
        lo, hi = 0.5 * math.log1p(2 / x), math.log1p(1 / x)
        check(lo * (1 - 1e-6) <= g <= hi * (1 + 1e-6), "D(%r)=%r outside its bounds %r %r" % (x, g, lo, hi))
    return ["nt", "neg" if x < 0 else "pos"]


def run_erf(c):
    import vfx_ext
    M, P = vfx_ext.CMath, py()
    x = c["x"]
    a, b = M.erf(x), M.erfc(x)
    # fractional accuracy of the approximation 1.2e-7
    near(b, math.erfc(x), 1.3e-7 * math.erfc(x) + 1e-315, "erfc(%r)" % x)
    near(a, math.erf(x), 1.3e-7, "erf(%r)" % x)
    near(a + b, 1.0, 1e-14, "erf + erfc at %r" % x)
    if x:
        near(M.erf(-x), -a, 1e-14, "erf(-x) at %r" % x)
    eq(P.erf(x), a, "erf (Python)", rel=1e-15)
    eq(P.erfc(x), b, "erfc (Python)", rel=1e-15)
    e, noise, fano, q = c["f"]
    eq(M.getFWHM(e, noise, fano, q), math.sqrt(noise ** 2 + e * fano * 2.3548 ** 2 * q), "FWHM")
    return ["nt"]


# ---------------------------------------------------------------- enhancement integrals
def ratio():
    return gen.logfl(1e-3, 1e3)


def close_to(draw, x):
    return x * (1 + draw(st.sampled_from([0.0, 0.0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3])))


@st.composite
def l_cases(draw):
    mu1, mu2, muj = [draw(gen.logfl(0.1, 1e4)) for _ in range(3)]
    k = draw(st.integers(0, 9))
    if k == 0:
        mu2 = close_to(draw, muj)
    elif k == 1:
        mu1 = close_to(draw, muj)
    elif k == 2:
        mu1 = close_to(draw, mu2)
    # optical thickness (mu1 + mu2) * d
    t = draw(st.one_of(gen.logfl(1e-4, 1e4), gen.logfl(0.01, 10.), gen.logfl(0.01, 10.), gen.logfl(5., 30.),
                       st.sampled_from([0.0099, 0.0101, 9.9, 10.1])))
    rho = draw(st.sampled_from([1.0, 2.33, 0.001, 19.3]))
    return {"mu": [mu1, mu2, muj], "t": t, "rho": rho, "quad": draw(st.integers(0, 9)) == 0}


def run_l(c):
    import vfx_ext
    mu1, mu2, muj = c["mu"]
    rho = c["rho"]
    z = c["t"] / (mu1 + mu2) / rho
    d = z * rho
    t = (mu1 + mu2) * d
    got = vfx_ext.CMath.deBoerL0(mu1, mu2, muj, rho, z)
    eq(py().deBoerL0(mu1, mu2, muj, rho, z), got, "L0 (Python)", rel=1e-15)
    what = "L0(mu1=%r, mu2=%r, muj=%r) of %r g/cm2" % (mu1, mu2, muj, d)
    labels = []
    thick = I.L(mu1, mu2, muj, math.inf)
    if t < 0.01:
        # stated cut-off: very thin, enhancement neglected
        eq(got, 0.0, what + " (thin)")
        return ["thin"]
    check(0.0 <= got <= thick * (1 + 1e-4), "%s: %r outside 0, %r" % (what, got, thick))
    if mu2 == muj:
        want = math.exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2)) * (-EULER - math.log(muj * d)) + thick + math.exp(-(mu1 + muj) * d) * (
            I.D((muj + mu1) * d) / (mu1 * (mu1 + mu2)) - I.D(muj * d) / (mu1 * mu2))
        labels.append("equal")
        err = math.exp(-(mu1 + muj) * d) * (I.epsD((muj + mu1) * d, I.D((muj + mu1) * d)) / (mu1 * (mu1 + mu2)) +
                                            I.epsD(muj * d, I.D(muj * d)) / (mu1 * mu2))
    else:
        want = I.L_closed(mu1, mu2, muj, d)
        err = I.L_closed_err(mu1, mu2, muj, d)
    tol = 1.5 * err + 1e-9 * thick
    if t > 10:
        # thick target limit
        # (the neglected terms are at least exp(-10) times smaller than the factors they have)
        tol += 1e-6 * thick + 4.6e-5 * (
            (abs(I.D((muj - mu2) * d)) + abs(math.log(abs(mu2 - muj) / muj)) if mu2 != muj else abs(EULER + math.log(muj * d))) / (mu2 * (mu1 + mu2)) +
            I.D(muj * d) / (mu1 * mu2) + I.D((muj + mu1) * d) / (mu1 * (mu1 + mu2)))
        labels.append("thick")
    near(got, want, tol, what)
    if c["quad"] and mu1 / mu2 < 1e3 and mu2 / mu1 < 1e3:
        near(got, I.L(mu1, mu2, muj, d), tol + 1e-6 * want, what + " by quadrature")
        labels.append("quadrature")
    if tol < 0.01 * want:
        labels.append("nt")
    return labels


@st.composite
def x_cases(draw):
    p, q, m1, m2 = [draw(gen.logfl(0.1, 1e4)) for _ in range(4)]
    sign = draw(st.sampled_from([1, -1]))
    k = draw(st.integers(0, 11))
    if k == 0:
        q = close_to(draw, m1)
    elif k == 1:
        p = close_to(draw, m2)
    elif k == 2:
        m1 = m2
    d1 = draw(gen.logfl(1e-3, 7.0)) / q if sign > 0 else draw(st.one_of(gen.logfl(1e-3, 10.), gen.logfl(1e-2, 500.))) / q
    d2 = draw(st.one_of(gen.logfl(1e-3, 10.), gen.logfl(1e-2, 90. if sign < 0 else 500.))) / p
    b = draw(st.one_of(st.just(0.0), st.just(0.0), gen.logfl(1e-3, 20.)))
    return {"a": [sign * p, sign * q, d1, d2, m1, m2, b], "quad": draw(st.integers(0, 14)) == 0}


def run_x(c):
    import vfx_ext
    M = vfx_ext.CMath
    p, q, d1, d2, m1, m2, b = a = c["a"]
    what = "X%r" % (tuple(a),)
    # to be multiplied by the attenuation of the beam in the upper layer when that is the exciting one,
    # of the fluorescence in the upper layer when it is the excited one
    f = math.exp(p * d2) if p < 0 else math.exp(-q * d1)
    labels = []
    s = p * m1 + q * m2
    singular = abs(1 - q / m1) < 1e-11 or abs(1 + p / m2) < 1e-11
    got = M.deBoerX(p, q, d1, d2, m1, m2, b) * f
    eq(py().deBoerX(p, q, d1, d2, m1, m2, b) * f, got, "X (Python)", rel=1e-15)
    if singular:
        # the terms diverge, not the integral: take it from both sides
        want = err = 0.0
        for e in (3e-5, -3e-5):
            pp, qq = p, q
            if abs(1 - q / m1) < 1e-11:
                qq = q * (1 + e)
            if abs(1 + p / m2) < 1e-11:
                pp = p * (1 + e)
            w, er = I.X_closed(pp, qq, d1, d2, m1, m2, b)
            want += 0.5 * w * f
            err = max(err, er * f)
        err += 1e-6 * want
        labels.append("singular")
    else:
        want, err = I.X_closed(p, q, d1, d2, m1, m2, b)
        want, err = want * f, err * f
    tol = 1.5 * err + 1e-9 * abs(want)
    near(got, want, tol, what)
    check(got >= -tol, "%s: negative %r" % (what, got))
    if b > 0 and not singular:
        # the terms of the combination, one by one
        parts = [M.deBoerV(p, q, x1, x2, m1, m2, b) for x1, x2 in ((d1, d2), (d1, 0.0), (0.0, d2), (0.0, 0.0))]
        near((parts[0] - parts[1] - parts[2] + parts[3]) * f, got, 1e-12 * sum(abs(x) for x in parts) * f + 1e-300, what + " from V")
    # the same integral with the layers exchanged
    sw = M.deBoerX(-q, -p, d2, d1, m2, m1, b) * f
    near(sw, want, tol, what + " with the layers exchanged")
    if c["quad"] and d1 * max(m1, abs(q)) < 200 and d2 * max(m2, abs(p)) < 200:
        ref = I.X(p, q, d1, d2, m1, m2, b) * f
        near(got, ref, tol + 1e-6 * ref, what + " by quadrature")
        labels.append("quadrature")
    if tol < 0.01 * abs(want):
        labels.append("nt")
    return labels


TESTS = [Test("E1", st.fixed_dictionaries({"x": args(), "n": st.integers(1, 10)}), run_e1, 6000, rule="E1, En, D and their building blocks against scipy; all non-trivial"),
         Test("D", st.fixed_dictionaries({"x": st.one_of(gen.logfl(1e-9, 1e7, 9), gen.logfl(1e-9, 1e7, 9).map(lambda x: -x), gen.fl(0.0, 60., 8).map(lambda x: -x or 1.))}),
              run_d, 6000, rule="D over the whole line"),
         Test("erf", st.fixed_dictionaries({"x": st.one_of(gen.fl(-6., 6., 9), gen.logfl(1e-12, 26., 9), gen.logfl(1e-12, 26., 9).map(lambda x: -x), st.just(0.0)),
                                            "f": st.tuples(gen.logfl(0.01, 100.), gen.logfl(1e-3, 1.), gen.fl(0.05, 0.3), gen.logfl(1e-4, 1e-1))}), run_erf, 4000,
              rule="error functions and FWHM against the standard library"),
         Test("L0", l_cases(), run_l, 6000, rule="intralayer integral against closed form and quadrature; non-trivial: accuracy of the approximations better than 1 %"),
         Test("X", x_cases(), run_x, 5000, rule="interlayer integral, same")]
