"""Reference model of XRF set-ups and of the intensities they give.

A set-up is a JSON-able dictionary:
  beam      [[energy, weight], ...]
  filters, attenuators, sample : lists of layers {"comp": {el: amount}, "name": str, "kind": ..., "rho", "t", "f"}
  ufilters, uatt               : lists of tables [[energies], [transmissions]]
  ref                          : reference layer
  geo                          : [alpha in, alpha out, scattering angle]
  det                          : None or {"layer": layer or None, "diameter", "distance", "it"}
"""
import math

from . import integrals as I
from .checks.c12 import escape_model
from .checks.c15 import value as table_value
from .model import normalise

KIND = ("element", "material", "named")


# ------------------------------------------------------------------ the library side
def build_layer(cls, l, vfx_ext):
    x = cls(l["name"] if l["kind"] != "material" else "", l["rho"], l["t"], l.get("f", 1.0))
    if l["kind"] == "material":
        m = vfx_ext.CMaterial("mat", 1.0, 1.0, "")
        m.setComposition(l["comp"])
        x.setMaterial(m)
    return x


def register(lib, s, vfx_ext):
    for l in all_layers(s):
        if l["kind"] == "named":
            m = vfx_ext.CMaterial(l["name"], 1.0, 1.0, "")
            m.setComposition(l["comp"])
            lib.addMaterial(m, 0)


def all_layers(s):
    r = list(s.get("filters", [])) + list(s["sample"]) + list(s.get("attenuators", []))
    if s.get("det") and s["det"].get("layer"):
        r.append(s["det"]["layer"])
    return r


def build_detector(d, vfx_ext):
    if d.get("layer"):
        det = build_layer(vfx_ext.CDetector, d["layer"], vfx_ext)
    else:
        det = vfx_ext.CDetector("", 0.0, 0.0)
    if d.get("diameter"):
        det.setDiameter(d["diameter"])
    if d.get("distance"):
        det.setDistance(d["distance"])
    if d.get("it") is not None:
        det.setMinimumEscapePeakIntensity(d["it"])
    return det


def build_table(t, vfx_ext):
    x = vfx_ext.CTable()
    x.setLists(t[0], t[1])
    return x


def steps(s, vfx_ext):
    """name -> function(xrf) for every part of the set-up"""
    L = lambda l: build_layer(vfx_ext.CLayer, l, vfx_ext)
    r = {"beam": lambda x: x.setBeam([e for e, _ in s["beam"]], [w for _, w in s["beam"]]),
         "filters": lambda x: x.setBeamFilters([L(l) for l in s.get("filters", [])]),
         "ufilters": lambda x: x.setUserBeamFilters([build_table(t, vfx_ext) for t in s.get("ufilters", [])]),
         "sample": lambda x: x.setSample([L(l) for l in s["sample"]], s.get("ref", 0)),
         "attenuators": lambda x: x.setAttenuators([L(l) for l in s.get("attenuators", [])]),
         "uatt": lambda x: x.setUserAttenuators([build_table(t, vfx_ext) for t in s.get("uatt", [])]),
         "geo": lambda x: x.setGeometry(*s["geo"])}
    if s.get("det"):
        r["det"] = lambda x: x.setDetector(build_detector(s["det"], vfx_ext))
    return r


def build(s, vfx_ext, order=None):
    x = vfx_ext.CXRF()
    st = steps(s, vfx_ext)
    for k in (order or sorted(st)):
        st[k](x)
    return x


# ------------------------------------------------------------------ the model
def sind(a):
    return math.sin(math.radians(a))


def rays(beam):
    """energies in increasing order, with normalised weights"""
    t = sum(w for _, w in beam)
    return [(e, w / t) for e, w in sorted((e, w) for e, w in beam)]


def family_match(family, line):
    if family == "Ka":
        return line.startswith("KL")
    if family == "Kb":
        return line.startswith("K") and not line.startswith("KL")
    return line.startswith(family)


class Model:
    def __init__(self, s, lib):
        self.s, self.lib = s, lib
        self.sample = s["sample"]
        self.comp = [normalise(l["comp"]) for l in self.sample]
        self.sin_in, self.sin_out = sind(s["geo"][0]), sind(s["geo"][1])
        self._mu = {}
        self._fac = {}
        self._esc = {}

    def mu(self, i, e):
        k = (i, e)
        v = self._mu.get(k)
        if v is None:
            v = self._mu[k] = self.lib.mu(self.comp[i], e)
        return v["total"]

    def coherent(self, i, e):
        self.mu(i, e)
        return self._mu[i, e]["coherent"]

    def factors(self, el, e):
        k = (el, e)
        v = self._fac.get(k)
        if v is None:
            v = self._fac[k] = self.lib.factors(el, e)
        return v

    def transmission(self, l, e, angle=90.):
        x = self.lib.mu_total(l["comp"], e) * l["rho"] * l["t"] / (abs(sind(angle)) if angle != 90. else 1.0)
        f = l.get("f", 1.0)
        return (1 - f) + f * math.exp(-x)

    def weights(self):
        out = []
        for e, w in rays(self.s["beam"]):
            for l in self.s.get("filters", []):
                w *= self.transmission(l, e)
            for t in self.s.get("ufilters", []):
                w *= table_value(t[0], t[1], e)[0]
            out.append((e, w))
        return out

    def rt(self, i):
        return self.sample[i]["rho"] * self.sample[i]["t"]

    def above(self, i, e):
        """transmission of the beam down to layer i"""
        return math.exp(-sum(self.mu(j, e) * self.rt(j) / self.sin_in for j in range(i)))

    def threshold(self, el, family):
        b = self.lib.el(el).binding
        if family[0] == "K":
            return b.get("K", 0.0)
        for s in (["L3", "L2", "L1"] if family[0] == "L" else ["M5", "M4", "M3", "M2", "M1"]):
            if b.get(s, 0.0) > 0:
                return b[s]
        return 0.0

    def geometric(self, i):
        d = self.s.get("det")
        if not d or not d.get("diameter"):
            return 1.0
        ref, x = self.s.get("ref", 0), d.get("distance") or 10.0
        if i >= ref:
            x += sum(self.sample[j]["t"] for j in range(ref, i)) / self.sin_out
        else:
            x -= sum(self.sample[j]["t"] for j in range(i, ref)) / self.sin_out
        return 0.5 * (1 - x / math.hypot(x, d["diameter"] / 2))

    def efficiency(self, i, e, geo=1):
        v = 1.0
        for j in range(i):
            v *= self.transmission(self.sample[j], e, self.s["geo"][1])
        for l in self.s.get("attenuators", []):
            v *= self.transmission(l, e)
        for t in self.s.get("uatt", []):
            v *= table_value(t[0], t[1], e)[0]
        if geo:
            v *= self.geometric(i)
        d = self.s.get("det")
        if d and d.get("layer"):
            v *= 1.0 - self.transmission(d["layer"], e)
        return v

    def escape(self, e):
        """{label: (energy, raw ratio, ratio, accuracy)}"""
        d = self.s.get("det")
        if not d or not d.get("layer"):
            return {}, 0.0
        if e not in self._esc:
            self._esc[e] = escape_model(self.lib, d["layer"]["comp"], e)
        return self._esc[e], (d["it"] if d.get("it") is not None else 1e-7)

    def lines(self, el, family, i, mf=0):
        """lines of that layer excited by some ray -> {line: {energy, mu, primary, rays: [(energy, weight, exc. rate)]}}"""
        out = {}
        m = self.comp[i].get(el, 0.0)
        k = m if mf else 1.0
        if k == 0.0:
            return out
        thr = self.threshold(el, family)
        for e, w in self.weights():
            if thr > e:
                continue
            for line, d in self.factors(el, e).items():
                if not family_match(family, line) or not d["factor"] * w > 0:
                    continue
                r = out.setdefault(line, {"energy": d["energy"], "threshold": thr, "mu": self.mu(i, d["energy"]),
                                          "massFraction": m, "primary": 0.0, "rays": []})
                chi = self.mu(i, e) / self.sin_in + r["mu"] / self.sin_out
                x = chi * self.rt(i)
                p = w * d["rate"] * self.above(i, e) * -math.expm1(-x) / chi / self.sin_in * k
                r["primary"] += p
                expo = sum(self.mu(j, e) * self.rt(j) / self.sin_in for j in range(i))
                r["tol"] = r.get("tol", 0.0) + p * 1e-10 * (1 + expo - math.log(max(w, 1e-300)))
                r["rays"].append((e, w, p))
        return out

    # -------------------------------------------------------------- secondary
    def sources(self, j, e, w, limit=0.0):
        """name, energy, rate per unit of path of everything layer j emits because of a ray -> and whether sure"""
        out = []
        above = self.above(j, e)
        for el in sorted(self.comp[j]):
            model = self.lib.el(el)
            fams = [s for s in model.excited_shells(e) if s in model.shells and model.shells[s].const["omega"] > 0]
            for line, d in self.factors(el, e).items():
                n = sum(1 for s in fams if line.startswith(s))
                if n == 0 or d["rate"] <= 0:
                    continue
                sure = True
                if limit > 0:
                    if d["rate"] < limit * (1 - 1e-9):
                        continue
                    sure = d["rate"] > limit * (1 + 1e-9)
                out.append(("%s %s" % (el, line), d["energy"], n * d["rate"] * self.comp[j][el] * w * above, sure))
        out.append(("coherent scattering", e, w * above * self.coherent(j, e), True))
        return out

    def secondary(self, el, family, i, mf=0, limit=0.0):
        """{line: {contribution: [value, tolerance, may be absent]}}"""
        k = self.comp[i].get(el, 0.0) if mf else 1.0
        prim = self.lines(el, family, i, mf)
        out = {line: {} for line in prim}
        thr = self.threshold(el, family)
        d1 = self.rt(i)
        for e, w in self.weights():
            if thr > e:
                continue
            lines = {l: d for l, d in prim.items() if any(x[0] == e for x in d["rays"])}
            if not lines:
                continue
            for j in range(len(self.sample)):
                ratio = self.above(j, e) / self.above(i, e) if self.above(i, e) > 0 else math.inf
                maybe_j = False
                if j != i:
                    if ratio < 1e-4 * (1 - 1e-6):
                        continue
                    maybe_j = ratio < 1e-4 * (1 + 1e-6)
                for name, es, rate, sure in self.sources(j, e, w, limit):
                    if thr > es:
                        continue
                    fac = self.factors(el, es)
                    for line, d in lines.items():
                        if line not in fac or (j != i and fac[line]["rate"] < 1e-30):
                            continue
                        v, tol, zero = self.pair(i, j, e, es, d["mu"], d1)
                        f = k * 0.5 / self.sin_in * fac[line]["rate"] * rate
                        c = out[line].setdefault("%s %02d" % (name, j), [0.0, 0.0, True])
                        c[0] += v * f
                        c[1] += tol * f
                        if maybe_j or not sure or zero:
                            # at a cut-off: either the value or nothing
                            c[1] += v * f
                        else:
                            c[2] = False
        return out

    def pair(self, i, j, e, es, mu_i, d1):
        """integral, its tolerance, and whether it is exactly at a cut-off"""
        ml, mo = self.mu(i, e) / self.sin_in, mu_i / self.sin_out
        if i == j:
            mj = self.mu(i, es)
            v1, t1, z1 = intra(ml, mo, mj, d1)
            v2, t2, z2 = intra(mo, ml, mj, d1)
            return v1 + v2, t1 + t2, z1 or z2
        d2 = self.rt(j)
        m1, m2 = self.mu(i, es), self.mu(j, es)
        lo, hi = min(i, j), max(i, j)
        b = sum(self.mu(n, es) * self.rt(n) for n in range(lo + 1, hi))
        P = self.mu(j, e) / self.sin_in
        if j > i:
            att = math.exp(-mo * d1)
            if att < 0.001 * (1 - 1e-9):
                return 0.0, 0.0, True
            v, t = inter(P, mo, d1, d2, m1, m2, b, -mo * d1)
            return v, t, att < 0.001 * (1 + 1e-9)
        v, t = inter(-P, -mo, d1, d2, m1, m2, b, -P * d2)
        return v, t, False


def intra(mu1, mu2, muj, d):
    t = (mu1 + mu2) * d
    if t < 0.01 * (1 - 1e-9):
        return 0.0, 0.0, True
    zero = t < 0.01 * (1 + 1e-9)
    if mu2 == muj:
        mu2 *= 1 + 1e-9
    elif abs(mu2 / muj - 1) < 2e-5:
        # (work-arounds that move it slightly are allowed)
        v, tol, z = intra(mu1, muj * (1 + 3e-5), muj, d)
        return v, tol + 2e-4 * v, zero
    v = I.L_closed(mu1, mu2, muj, d)
    tol = 1.5 * I.L_closed_err(mu1, mu2, muj, d) + 1e-9 * I.L(mu1, mu2, muj, math.inf)
    if t > 10 and (mu1 + muj) * d > 10:
        thick = I.L(mu1, mu2, muj, math.inf)
        tol += 1e-6 * thick + abs(v - thick) * 1.5
    if mu2 != 0 and abs(mu2 / muj - 1) < 1e-3:
        tol += 1e-4 * v
    return v, tol, zero


def inter(p, q, d1, d2, m1, m2, b, scale):
    if abs(1 - q / m1) < 1e-9 or abs(1 + p / m2) < 1e-9:
        v = tol = 0.0
        for k in (1e-7, -1e-7):
            a, b_ = I.X_closed(p * (1 + k) if abs(1 + p / m2) < 1e-9 else p, q * (1 + k) if abs(1 - q / m1) < 1e-9 else q,
                               d1, d2, m1, m2, b, scale)
            v, tol = v + 0.5 * a, tol + 0.75 * b_
        return v, tol + 1e-6 * abs(v)
    v, err = I.X_closed(p, q, d1, d2, m1, m2, b, scale)
    return v, 1.5 * err + 1e-9 * abs(v)
