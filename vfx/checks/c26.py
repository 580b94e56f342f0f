"""C26 Python objects accept every documented argument form alike

Every operation of the distributed bindings is called with a random spelling of the same arguments (list, tuple, arrays of
several layouts, generators of scalars; text or bytes; positional or by keyword; optional arguments given with their
documented default or left out) and compared with the C++ library called through bindings of our own.
"""
import collections

import numpy as np
from hypothesis import strategies as st

from .. import gen, universe, xrfgen
from ..harness import Test, check, eq, fail
from ..xrfmodel import build, build_detector, build_layer, register
from ..universe import SUBSHELLS

REL = 1e-12


# ------------------------------------------------------------------ spellings
class Forms(object):
    """turns plain values into one of their spellings, taken from a list of numbers (part of the case)"""
    def __init__(self, picks, labels):
        self.picks, self.i, self.labels = picks or [0], 0, labels

    def pick(self, n, what=None):
        k = self.picks[self.i % len(self.picks)] % n
        self.i += 1
        if k and what:
            self.labels.add(what)
        return k

    def name(self, s):
        k = self.pick(4)
        if k == 1:
            self.labels.add("bytes")
            return s.encode("utf-8")
        if k == 2:
            return np.str_(s)
        return s

    def names(self, v):
        k = self.pick(5)
        if k == 1:
            return tuple(v)
        if k == 2:
            self.labels.add("bytes")
            return [x.encode("utf-8") for x in v]
        if k == 3 and v:
            self.labels.add("array")
            return np.array(v)
        if k == 4:
            return [self.name(x) for x in v]
        return list(v)

    def floats(self, v):
        k = self.pick(8)
        if k == 1:
            return tuple(v)
        if k == 2:
            self.labels.add("array")
            return np.array(v, dtype=np.float64)
        if k == 3:
            self.labels.add("array")
            a = np.full(2 * len(v) + 1, -7.0)
            a[1::2] = v
            return a[1::2]
        if k == 4:
            self.labels.add("array")
            return np.array(v[::-1], dtype=np.float64)[::-1]
        if k == 5:
            return [self.num(x) for x in v]
        if k == 6:
            self.labels.add("array")
            return np.array(v, dtype=object)
        if k == 7 and all(x == int(x) and abs(x) < 2 ** 31 for x in v):
            self.labels.add("integers")
            return np.array([int(x) for x in v], dtype=[np.int64, np.int32][self.pick(2)]) if v else []
        return list(v)

    def num(self, x):
        k = self.pick(4)
        if k == 1:
            return np.float64(x)
        if k == 2 and x == int(x):
            self.labels.add("integers")
            return int(x)
        if k == 3 and float(np.float32(x)) == x:
            return np.float32(x)
        return float(x)

    def mapping(self, d):
        k = self.pick(4)
        if k == 1:
            self.labels.add("bytes")
            return {a.encode(): b for a, b in d.items()}
        if k == 2:
            return collections.OrderedDict((self.name(a), self.num(b)) for a, b in reversed(list(d.items())))
        if k == 3:
            return {self.name(a): self.num(b) for a, b in d.items()}
        return dict(d)

    def call(self, f, args, opts=()):
        """opts: (keyword, value, default) of the optional arguments, in order; they can be left out when they are the default"""
        self.i += 1
        kw = {}
        args = list(args)
        positional = True
        how = self.pick(3)
        for name, value, default in opts:
            if (value is default or (type(value) is type(default) and value == default)) and self.pick(2):
                self.labels.add("default")
                positional = False
                continue
            if how == 1:
                positional = False
            if positional:
                args.append(value)
            else:
                self.labels.add("keyword")
                kw[name] = value
        return f(*args, **kw)


def text(x, what):
    """all the names in an answer are text"""
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(k, bytes):
                fail("%s: the key %r is not text" % (what, k))
            text(v, what)
    elif isinstance(x, bytes):
        fail("%s: %r is not text" % (what, x))
    elif isinstance(x, (list, tuple)):
        for v in x:
            text(v, what)


def alike(f, g, what):
    """the answer of f is that of g, an error included"""
    try:
        want = g()
    except Exception as e:
        try:
            got = f()
        except Exception:
            return
        fail("%s: got %r, the C++ library raises %r" % (what, got, e))
    same(f(), want, what)


def same(got, want, what):
    text(got, what)
    eq(got, want, what, rel=REL)


# ------------------------------------------------------------------ the library
OPS = ["basic", "composition", "mu", "mudict", "mudefault", "factors", "families", "binding", "escape", "constants", "lines", "initial", "cascade", "xlines", "files", "epdl"]

picks = st.lists(st.integers(0, 119), min_size=3, max_size=14)


@st.composite
def lib_cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(OPS))
        o = {"op": op, "f": draw(picks), "z": draw(gen.element(uid)) if draw(st.booleans()) else z}
        o["e"] = draw(st.lists(st.one_of(gen.energies(uid, o["z"], lo=0.01, hi=500.), st.integers(1, 60).map(float)), min_size=1, max_size=4))
        if op in ("mudict", "escape", "composition", "families"):
            o["comp"] = draw(gen.composition(uid, 1, 3))
        o["scalar"] = draw(st.integers(0, 1))
        o["w"] = draw(st.lists(gen.fl(0.01, 2.0, 3), min_size=len(o["e"]), max_size=len(o["e"])))
        o["k"] = draw(st.integers(0, 7))
        if op in ("cascade", "xlines"):
            o["d"] = draw(st.dictionaries(st.sampled_from(SUBSHELLS[:9]), gen.fl(0.0, 2.0, 3), min_size=1, max_size=4))
        ops.append(o)
    return {"uid": uid, "ops": ops}


def run_lib(c):
    import fisx
    import vfx_ext
    labels = set()
    u = universe.get(c["uid"])
    lib, py = gen.lib(c["uid"]), gen.pylib(c["uid"])
    for o in c["ops"]:
        F = Forms(o["f"], labels)
        n, op, es, k = gen.sym(o["z"]), o["op"], o["e"], o["k"]
        what = "%s of %s" % (op, n)
        e0 = es[0]
        sub = SUBSHELLS[k]
        if op == "basic":
            for a in ("getAtomicMass", "getAtomicNumber", "getDensity", "getLongName", "getColumn", "getRow"):
                same(getattr(py, a)(F.name(n)), getattr(lib, a)(n), "%s(%s)" % (a, n))
            same(py.getElementNames(), lib.getElementNames(), "element names")
        elif op == "composition":
            names = sorted(o["comp"])
            f = "(" + "".join("%s%d" % (x, i + 1) for i, x in enumerate(names)) + ")2"
            same(py.getComposition(F.name(f)), lib.getComposition(f), "composition of " + f)
            same(py.getComposition(F.name("Unknown thing")), {}, "composition of nothing")
        elif op == "mu":
            f = py.getMassAttenuationCoefficients if k % 2 else py.getElementMassAttenuationCoefficients
            for x, y in ((F.num(e0), es[:1]), (F.floats(es), es)):
                same(F.call(f, [F.name(n)], [("energy", x, None)]) if F.pick(2) else f(F.name(n), x), lib.getMuV(n, y), "%s at %r" % (what, y))
        elif op == "mudefault":
            f = py.getMassAttenuationCoefficients if k % 2 else py.getElementMassAttenuationCoefficients
            same(F.call(f, [F.name(n)], [("energy", None, None)]), lib.getMuTable(n), "%s, no energy" % what)
        elif op == "mudict":
            want = lib.getMuDictV(o["comp"], es)
            same(py.getMassAttenuationCoefficients(F.mapping(o["comp"]), F.floats(es)), want, "mu of %r" % (o["comp"],))
            same(py.getMassAttenuationCoefficients(F.mapping(o["comp"]), F.num(e0)), lib.getMuDictV(o["comp"], [e0]), "mu of %r at one energy" % (o["comp"],))
        elif op == "factors":
            one = py.getExcitationFactors(F.name(n), F.num(e0))
            same(one, lib.getFactors(n, e0, 1.0), "%s at one energy" % what)
            same(F.call(py.getExcitationFactors, [F.name(n), F.num(e0)], [("weight", F.num(o["w"][0]), None)]), lib.getFactors(n, e0, o["w"][0]), "%s at one energy, weight" % what)
            same(F.call(py.getExcitationFactors, [F.name(n), F.floats(es)], [("weight", F.floats(o["w"]), None)]),
                 [lib.getFactors(n, e, w) for e, w in zip(es, o["w"])], "%s, list" % what)
            same(F.call(py.getExcitationFactors, [F.name(n), F.floats(es)], [("weight", None, None)]), [lib.getFactors(n, e, 1.0) for e in es], "%s, list without weights" % what)
        elif op == "families":
            names = sorted(o["comp"])
            same(py.getPeakFamilies(F.name(n), F.num(e0)), lib.getPeakFamilies(n, e0), what)
            same(py.getPeakFamilies(F.names(names), F.num(e0)), lib.getPeakFamiliesV(names, e0), "families of %r" % names)
            same(py.getPeakFamilies(F.name("".join(names)), F.num(e0)), lib.getPeakFamilies("".join(names), e0), "families of formula %r" % names)
        elif op == "binding":
            same(py.getBindingEnergies(F.name(n)), lib.getBindingEnergies(n), what)
        elif op == "escape":
            th, it, al, t = [0.010, 0.5][k % 2], [1e-7, 1e-3][k // 2 % 2], [90., 40.][k // 4 % 2], [0.0, 0.05][k % 2]
            same(F.call(py.getEscape, [F.mapping(o["comp"]), F.num(e0)], [("energyThreshold", th, 0.010), ("intensityThreshold", it, 1e-7), ("nThreshold", 4, 4), ("alphaIn", al, 90.), ("thickness", t, 0.0)]),
                 lib.getEscape(o["comp"], e0, th, it, 4, al, t), "%s of %r at %r" % (op, o["comp"], e0))
        elif op == "constants":
            for f in ("getShellConstants", "getRadiativeTransitions", "getNonradiativeTransitions"):
                same(getattr(py, f)(F.name(n), F.name(sub)), getattr(lib, f)(n, sub), "%s(%s, %s)" % (f, n, sub))
        elif op == "lines":
            e = [e0, 1000.][k % 2]
            same(F.call(py.getEmittedXRayLines, [F.name(n)], [("energy", e, 1000.)]), lib.getEmittedXRayLines(n, e), "%s at %r" % (what, e))
        elif op == "initial":
            same(py.getInitialPhotoelectricVacancyDistribution(F.name(n), F.num(e0)), lib.getInitial(n, e0), "%s at %r" % (what, e0))
        elif op == "cascade":
            d = {a: b for a, b in o["d"].items() if lib.getBindingEnergies(n).get(a, 0.0) > 0 and lib.getShellConstants(n, a)}
            if not d:
                continue
            same(py.getCascadeModifiedVacancyDistribution(F.name(n), F.mapping(d)), lib.getCascade(n, d), "%s of %r" % (what, d))
        elif op == "xlines":
            d = {a: b for a, b in o["d"].items() if lib.getBindingEnergies(n).get(a, 0.0) > 0 and lib.getShellConstants(n, a)}
            if not d:
                continue
            ca, fy = k % 2, k // 2 % 2
            same(F.call(py.getXRayLinesFromVacancyDistribution, [F.name(n), F.mapping(d)], [("cascade", ca, 1), ("useFluorescenceYield", fy, 1)]), lib.getLines(n, d, ca, fy), "%s of %r" % (what, d))
        elif op == "files":
            for f in ("getShellConstantsFile", "getShellRadiativeTransitionsFile", "getShellNonradiativeTransitionsFile"):
                same(getattr(py, f)(F.name("KLM"[k % 3])), getattr(lib, f)("KLM"[k % 3]), f)
        else:
            q = fisx.EPDL97(F.name(u.dir))
            z = o["z"]
            ref = vfx_ext.CEPDL97(u.dir)
            try:
                b = ref.getBindingEnergies(z)
            except Exception:
                continue
            if k % 2:
                b = {a: x for a, x in lib.getBindingEnergies(n).items() if x > 0}
                q.setBindingEnergies(z, F.mapping(b))
                ref.setBindingEnergies(z, b)
            alike(lambda: q.getBindingEnergies(z), lambda: ref.getBindingEnergies(z), "EPDL97 binding energies")
            alike(lambda: q.getMassAttenuationCoefficients(z, F.floats(es)), lambda: ref.getMuV(z, es), "EPDL97 mu at %r" % es)
            alike(lambda: q.getMassAttenuationCoefficients(z, F.num(e0)), lambda: ref.getMuV(z, [e0]), "EPDL97 mu at %r" % e0)
            same(F.call(q.getMassAttenuationCoefficients, [z], [("energy", None, None)]), ref.getMuTable(z), "EPDL97 mu")
            alike(lambda: q.getPhotoelectricWeights(z, F.floats(es)), lambda: ref.getWeightsV(z, es), "EPDL97 weights at %r" % es)
            alike(lambda: q.getPhotoelectricWeights(z, F.num(e0)), lambda: ref.getWeightsV(z, [e0]), "EPDL97 weights at %r" % e0)
        labels.add(op)
    if labels & {"bytes", "array", "integers", "keyword", "default"}:
        labels.add("nt")
    return labels


# ------------------------------------------------------------------ objects of their own
@st.composite
def obj_cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid, minz=5))
    n = draw(st.integers(2, 5))
    es = sorted(set(draw(st.lists(st.one_of(gen.logfl(0.1, 100., 5), st.integers(1, 90).map(float)), min_size=2, max_size=6))))
    if len(es) < 2:
        es.append(es[0] * 2)
    col = lambda lo, hi: draw(st.lists(gen.logfl(lo, hi, 4), min_size=len(es), max_size=len(es)))
    return {"uid": uid, "z": z, "f": draw(picks), "op": draw(st.sampled_from(["Element", "Element", "Shell", "Material", "Layer", "Detector", "Table", "Beam", "lib"])),
            "e": es, "mu": [col(1e-2, 1e3), col(1e-3, 10.), col(1e-3, 10.), col(1e-4, 1.)],
            "comp": draw(gen.composition(uid, 1, 4)), "w": draw(st.lists(gen.fl(0.01, 1.0, 3), min_size=n, max_size=n)),
            "q": draw(st.lists(st.one_of(gen.logfl(0.05, 200., 5), st.sampled_from(es)), min_size=1, max_size=4)),
            "shell": draw(st.sampled_from(SUBSHELLS[:4])), "rho": draw(st.sampled_from([1.0, 2.5, 7.0])), "t": draw(st.sampled_from([1.0, 1e-3, 0.5])), "fun": draw(st.sampled_from([1.0, 1.0, 0.5])),
            "a": draw(st.sampled_from([90., 45., 30.])), "k": draw(st.integers(0, 15)), "name": draw(st.sampled_from(["Thing", "M 1", "\u00b5x", "a\u4e00"]))}


def run_obj(c):
    import fisx
    import vfx_ext
    labels = set()
    F = Forms(c["f"], labels)
    lib, py = gen.lib(c["uid"]), gen.pylib(c["uid"])
    n, es, q, op, comp, k = gen.sym(c["z"]), c["e"], c["q"], c["op"], c["comp"], c["k"]
    labels.add(op)
    what = op
    if op in ("Element", "lib"):
        b = lib.getBindingEnergies(n)
        if op == "Element":
            p, x = F.call(fisx.Element, [F.name(n)], [("z", c["z"], 0)]), vfx_ext.CElement(n, c["z"])
            same(p.getAtomicNumber(), c["z"], "atomic number")
            p.setBindingEnergies(F.mapping(b))
            x.setBindingEnergies(b)
            same(p.getBindingEnergies(), x.getBindingEnergies(), "binding energies of an element")
            p.setMassAttenuationCoefficients(F.floats(es), *[F.floats(v) for v in c["mu"]])
            x.setMu(es, *c["mu"])
            same(F.call(p.getMassAttenuationCoefficients, [], [("energy", None, None)]), x.getMuTable(), "table of an element")
            alike(lambda: p.getMassAttenuationCoefficients(F.floats(q)), lambda: x.getMuV(q), "mu of an element at %r" % q)
            alike(lambda: p.getMassAttenuationCoefficients(F.num(q[0])), lambda: x.getMuV(q[:1]), "mu of an element at %r" % q[0])
            for sub in SUBSHELLS[:9]:
                if b.get(sub, 0) <= 0:
                    continue
                co, ra, no = lib.getShellConstants(n, sub), lib.getRadiativeTransitions(n, sub), lib.getNonradiativeTransitions(n, sub)
                if co:
                    p.setShellConstants(F.name(sub), F.mapping(co))
                    x.setShellConstants(sub, co)
                    same(p.getShellConstants(F.name(sub)), x.getShellConstants(sub), "constants of %s" % sub)
                for d, f in ((ra, "RadiativeTransitions"), (no, "NonradiativeTransitions")):
                    ls = sorted(a for a in d if "TOTAL" not in a.upper())
                    if ls:
                        getattr(p, "set" + f)(F.name(sub), F.names(ls), F.floats([d[a] for a in ls]))
                        getattr(x, "set%sV" % f)(sub, ls, [d[a] for a in ls])
                        same(getattr(p, "get" + f)(F.name(sub)), getattr(x, "get" + f)(sub), "%s of %s" % (f, sub))
            d = {a: w for a, w in zip([s for s in SUBSHELLS[:9] if b.get(s, 0) > 0], c["w"])}
            same(p.getXRayLinesFromVacancyDistribution(F.mapping(d)), x.getLines(d), "lines of %r" % d)
        else:
            p, x = gen.fresh_pylib(c["uid"]), gen.fresh_lib(c["uid"])
            p.setMassAttenuationCoefficients(F.name(n), F.floats(es), *[F.floats(v) for v in c["mu"]])
            x.setMu(n, es, *c["mu"])
            # steep tables extrapolate to infinity away from their energies: stay within them
            q = [min(max(a, es[0]), es[-1]) for a in q]
            same(p.getMassAttenuationCoefficients(F.name(n), F.floats(q)), x.getMuV(n, q), "mu of %s after setting its table" % n)
            for f in ("fillCache", "updateCache"):
                getattr(p, f)(F.name(n), F.floats(q))
                getattr(x, f)(n, q)
                same(p.getCacheSize(F.name(n)), x.getCacheSize(n), "cache size after %s" % f)
            F.call(p.setCacheEnabled, [F.name(n)], [("flag", k % 2, 1)])
            same(p.isCacheEnabled(F.name(n)), k % 2, "cache flag")
            F.call(p.setEscapeCacheEnabled, [], [("flag", k % 2, 1)])
            same(p.isEscapeCacheEnabled(), k % 2, "escape cache flag")
            F.call(p.setElementCascadeCacheEnabled, [F.name(n)], [("flag", k % 2, 1)])
            p.emptyElementCascadeCache(F.name(n))
            p.clearCache(F.name(n))
            same(p.getCacheSize(F.name(n)), 0, "cache size when cleared")
            F.call(p.updateEscapeCache, [F.mapping(comp), F.floats(q)], [("energyThreshold", 0.01, 0.01), ("intensityThreshold", 1e-7, 1e-7), ("nThreshold", 4, 4), ("alphaIn", c["a"], 90.), ("thickness", 0.0, 0.0)])
            same(F.call(p.getEscape, [F.mapping(comp), F.num(q[0])], [("energyThreshold", 0.01, 0.01), ("intensityThreshold", 1e-7, 1e-7), ("nThreshold", 4, 4), ("alphaIn", c["a"], 90.), ("thickness", 0.0, 0.0)]),
                 x.getEscape(comp, q[0], 0.01, 1e-7, 4, c["a"], 0.0), "escape of %r at %r" % (comp, q[0]))
            # files of the library, one by one and all at once
            u = universe.get(c["uid"])
            import os
            bf, xf = os.path.join(u.dir, "EADL97_BindingEnergies.dat"), ""
            y = F.call(fisx.Elements, [F.name(u.dir)], [("bindingEnergiesFile", F.name(bf), ""), ("crossSectionsFile", xf, ""), ("pymca", 0, 0)])
            same(y.getBindingEnergies(n), vfx_ext.CElements(u.dir, bf, "").getBindingEnergies(n), "binding energies of a library with its own file")
            for f, g in (("ShellConstantsFile", "EADL97_%sShellConstants.dat"), ("ShellRadiativeTransitionsFile", "EADL97_%sShellRadiativeRates.dat")):
                m = "KLM"[k % 3]
                path = os.path.join(u.dir, g % m)
                getattr(p, "set" + f)(F.name(m), F.name(path))
                same(getattr(p, "get" + f)(F.name(m)), path, f)
    elif op == "Shell":
        sub = c["shell"]
        p, x = fisx.Shell(F.name(sub)), vfx_ext.CShell(sub)
        co, ra, no = lib.getShellConstants(n, sub), lib.getRadiativeTransitions(n, sub), lib.getNonradiativeTransitions(n, sub)
        if co:
            p.setShellConstants(F.mapping(co))
            x.setShellConstants(co)
        for d, f in ((ra, "setRadiativeTransitions"), (no, "setNonradiativeTransitions")):
            ls = sorted(a for a in d if "TOTAL" not in a.upper())
            if ls:
                getattr(p, f)(F.names(ls), F.floats([d[a] for a in ls]))
                getattr(x, f + "V")(ls, [d[a] for a in ls])
        for f in ("getAugerRatios", "getCosterKronigRatios", "getFluorescenceRatios", "getRadiativeTransitions", "getNonradiativeTransitions", "getShellConstants"):
            same(getattr(p, f)(), getattr(x, f)(), "%s of %s %s" % (f, n, sub))
        for to in SUBSHELLS[:6]:
            alike(lambda: p.getDirectVacancyTransferRatios(F.name(to)), lambda: x.getDirectVacancyTransferRatios(to), "transfer ratios of %s %s to %s" % (n, sub, to))
    elif op in ("Material", "Layer", "Detector"):
        names = sorted(comp)
        opts = [("density", F.num(c["rho"]), 1.0), ("thickness", F.num(c["t"]), 1.0)]
        m = F.call(fisx.Material, [F.name(c["name"])], opts + [("comment", F.name("note" if k % 2 else ""), "")])
        y = vfx_ext.CMaterial(c["name"], c["rho"], c["t"], "")
        if k % 4 < 2:
            m.setComposition(F.mapping(comp))
        else:
            m.setCompositionFromLists(F.names(names), F.floats([comp[a] for a in names]))
        y.setComposition(comp)
        same(m.getComposition(), y.getComposition(), "composition of a material")
        same(m.getName(), c["name"], "name of a material")
        if op == "Material":
            try:
                F.call(py.addMaterial, [m], [("errorOnReplace", k & 1, 1)])
                lib.addMaterial(y, k & 1)
                same(py.getMaterialNames(), lib.getMaterialNames(), "material names")
                name = m.getName()
                same(py.getComposition(F.name(name)), lib.getComposition(name), "composition of %r" % name)
                same(py.getMassAttenuationCoefficients(F.name(name), F.floats(q)), lib.getMuV(name, q), "mu of %r" % name)
                # the density and the thickness of the material are those of a layer that has none
                for rho, t in ((0.0, 0.3), (2.0, 0.0), (0.0, 0.0)):
                    pl, xl = fisx.Layer(F.name("Fe"), rho, t), vfx_ext.CLayer("Fe", rho, t)
                    pl.setMaterial(m)
                    xl.setMaterial(y)
                    same(pl.getTransmission(F.floats(q), py), [xl.getTransmission(e, lib) for e in q], "transmission of a layer of %r, defaults of the material" % name)
                # a second one is rejected by default, or replaces it
                m2 = fisx.Material(name, 1.0, 1.0)
                m2.setComposition({n: 1.0})
                if k & 1:
                    try:
                        F.call(py.addMaterial, [m2], [("errorOnReplace", 1, 1)])
                    except Exception:
                        pass
                    else:
                        fail("a second material of the same name was not rejected")
                    same(py.getComposition(name), lib.getComposition(name), "composition of %r after a rejected replacement" % name)
                else:
                    F.call(py.addMaterial, [m2], [("errorOnReplace", 0, 1)])
                    same(py.getComposition(name), {n: 1.0}, "composition of %r after a replacement" % name)
            finally:
                py.removeMaterials()
                lib.removeMaterials()
        else:
            cls, ext = (fisx.Layer, vfx_ext.CLayer) if op == "Layer" else (fisx.Detector, vfx_ext.CDetector)
            f = "".join(names)
            p = F.call(cls, [F.name(f)], opts + [("funny", F.num(c["fun"]), 1.0)])
            x = ext(f, c["rho"], c["t"], c["fun"])
            if op == "Layer" and k & 4:
                p.setMaterial(m)
                x.setMaterial(y)
                labels.add("object")
            angle = [("angle", F.num(c["a"]), 90.)]
            same(F.call(p.getTransmission, [F.floats(q), py], angle), [x.getTransmission(e, lib, c["a"]) for e in q], "transmission at %r" % q)
            same(F.call(p.getTransmission, [F.num(q[0]), py], angle), [x.getTransmission(q[0], lib, c["a"])], "transmission at %r" % q[0])
            same(p.getComposition(py), x.getComposition(lib), "composition of a %s" % op)
            if op == "Layer":
                same(p.getPeakFamilies(F.num(q[0]), py), x.getPeakFamilies(q[0], lib), "peak families")
                X, Y = fisx.XRF(), vfx_ext.CXRF()
                same(F.call(X.getLayerTransmission, [p, F.floats(q), py], angle), Y.getLayerTransmissionV(x, q, lib, c["a"]), "XRF layer transmission")
                same(F.call(X.getLayerTransmission, [p, F.num(q[0]), py], angle), Y.getLayerTransmission(x, q[0], lib, c["a"]), "XRF layer transmission at one energy")
                same(X.getLayerMassAttenuationCoefficients(p, F.floats(q), py), Y.getLayerMuV(x, q, lib), "XRF layer mu")
                same(X.getLayerMassAttenuationCoefficients(p, F.num(q[0]), py), Y.getLayerMu(x, q[0], lib), "XRF layer mu at one energy")
                same(X.getLayerComposition(p, py), Y.getLayerComposition(x, lib), "XRF layer composition")
                same(X.getLayerPeakFamilies(p, F.num(q[0]), py), Y.getLayerPeakFamilies(x, q[0], lib), "XRF layer peak families")
            else:
                for a in ("DiameterX", "Distance", "ActiveArea")[k % 3:]:
                    a = a.rstrip("X")
                    getattr(p, "set" + a)(F.num(c["w"][0]))
                    getattr(x, "set" + a)(c["w"][0])
                for a in ("Diameter", "Distance", "ActiveArea", "Thickness", "Density", "EscapePeakEnergyThreshold", "EscapePeakIntensityThreshold", "EscapePeakNThreshold", "EscapePeakAlphaIn"):
                    same(getattr(p, "get" + a)(), getattr(x, "get" + a)(), a)
                for lab, up in (("", 1), ("a", 1), ("a", 0)):
                    same(F.call(p.getEscape, [F.num(q[0]), py], [("label", F.name(lab) if lab else "", ""), ("update", up, 1)]), x.getEscape(q[0], lib, lab, up), "escape at %r" % q[0])
    elif op == "Table":
        tr = [min(1.0, w) for w in (c["w"] * 3)[:len(es)]]
        nm, cm = F.name(c["name"]), F.name("note")
        p, x = fisx.TransmissionTable(), vfx_ext.CTable()
        opts = [("name", nm, 0), ("comment", cm, 0)]
        if k % 2:
            F.call(p.setTransmissionTableFromLists, [F.floats(es), F.floats(tr)], opts)
        else:
            d = dict(zip(es, tr))
            if F.pick(2):
                d = {F.num(a): F.num(b) for a, b in reversed(list(d.items()))}
            F.call(p.setTransmissionTable, [d], opts)
        x.setLists(es, tr)
        same(p.getName(), c["name"], "name of a table")
        same(p.getComment(), "note", "comment of a table")
        if k & 2:
            p.setName(F.name("b"))
            p.setComment(F.name("d"))
            same([p.getName(), p.getComment()], ["b", "d"], "name and comment of a table")
        same(p.getTransmissionTable(), dict(zip(es, tr)), "table")
        same(p.getTransmission(F.floats(q)), x.getV(q), "transmission of a table at %r" % q)
        same(p.getTransmission(F.num(q[0])), x.get(q[0]), "transmission of a table at %r" % q[0])
        if k & 4:
            (p.setTransmissionTableFromLists if k & 1 else lambda a, b: p.setTransmissionTable(dict(zip(a, b))))(es, tr)
            same([p.getName(), p.getComment()], ["b", "d"] if k & 2 else [c["name"], "note"], "name and comment of a table set again without them")
    else:
        w = (c["w"] * 3)[:len(es)]
        p, x = fisx.Beam(), vfx_ext.CBeam()
        kind = k % 4
        if kind == 0:
            F.call(p.setBeam, [F.floats(es)], [("weights", F.floats(w), None)])
            x.setBeam(es, w)
        elif kind == 1:
            F.call(p.setBeam, [F.floats(es)], [("weights", None, None)])
            x.setBeam(es, [1.0] * len(es))
        elif kind == 2:
            F.call(p.setBeam, [F.num(q[0])], [("weights", F.num(w[0]) if k & 4 else None, None)])
            x.setBeam(q[:1], [1.0])
        else:
            p.setBeam(F.floats(es), F.num(w[0]))
            x.setBeam(es, [1.0] * len(es))
        same(p.getBeamAsDoubleVectors(), x.get()[:2], "beam")
    if labels & {"bytes", "array", "integers", "keyword", "default", "object"}:
        labels.add("nt")
    return labels


# ------------------------------------------------------------------ the XRF set-up
@st.composite
def xrf_cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=3, hi=8.0))
    r = draw(xrfgen.requests(s))
    return {"s": s, "r": r, "f": draw(picks), "k": draw(st.integers(0, 255)), "sec": draw(st.sampled_from([0, 0, 1, 2])), "geo": draw(st.integers(0, 1)), "mf": draw(st.integers(0, 1)),
            "lim": draw(st.sampled_from([0.0, 0.0, 1e-3])), "over": draw(st.one_of(st.none(), st.just(1), st.lists(gen.logfl(2., 60., 4), min_size=1, max_size=2))), "layer": draw(st.integers(-1, 2))}


def py_layer(l, F, fisx, cls=None, how=0):
    cls = cls or fisx.Layer
    if l["kind"] == "material":
        x = cls(F.name("Thing"), F.num(l["rho"]), F.num(l["t"]), F.num(l.get("f", 1.0)))
        m = fisx.Material(F.name("mat"), 1.0, 1.0)
        m.setComposition(F.mapping(l["comp"]))
        x.setMaterial(m)
        F.labels.add("object")
        return x
    return F.call(cls, [F.name(l["name"])], [("density", F.num(l["rho"]), 1.0), ("thickness", F.num(l["t"]), 1.0), ("funny", F.num(l.get("f", 1.0)), 1.0)])


def py_layers(ls, F, fisx):
    """a list of layers as objects, or as lists of their attributes"""
    if not ls:
        return F.names([])
    if any(l["kind"] == "material" for l in ls) or F.pick(2):
        v = [py_layer(l, F, fisx) for l in ls]
        F.labels.add("object")
    else:
        short = all(l.get("f", 1.0) == 1.0 for l in ls) and F.pick(2)
        v = []
        for l in ls:
            x = [F.name(l["name"]), F.num(l["rho"]), F.num(l["t"])] + ([] if short else [F.num(l.get("f", 1.0))])
            v.append(tuple(x) if F.pick(2) else x)
        F.labels.add("layer lists")
    return tuple(v) if F.pick(2) else v


def py_tables(ts, F, fisx):
    if ts and F.pick(2):
        v = []
        for e, t in ts:
            x = fisx.TransmissionTable()
            x.setTransmissionTableFromLists(F.floats(e), F.floats(t), "n", "c")
            v.append(x)
        F.labels.add("object")
        return v
    v = []
    for e, t in ts:
        v.append([F.floats(e), F.floats(t), F.name("n"), F.name("c")] if F.pick(2) else [dict(zip(e, t)), F.name("n"), F.name("c")])
    return v


def run_xrf(c):
    import fisx
    import vfx_ext
    labels = set()
    F = Forms(c["f"], labels)
    s, k = c["s"], c["k"]
    # a detector has no material object of its own in the Python bindings
    if s.get("det") and s["det"].get("layer") and s["det"]["layer"]["kind"] == "material":
        s["det"]["layer"].update(kind="named", name="DetMat")
    lib, py = gen.lib(s["uid"]), gen.pylib(s["uid"])
    try:
        register(lib, s, vfx_ext)
        for l in s.get("filters", []) + s["sample"] + s.get("attenuators", []) + ([s["det"]["layer"]] if s.get("det") and s["det"].get("layer") else []):
            if l["kind"] == "named":
                m = fisx.Material(F.name(l["name"]), 1.0, 1.0)
                m.setComposition(F.mapping(l["comp"]))
                F.call(py.addMaterial, [m], [("errorOnReplace", 0, 1)])
        x = build(s, vfx_ext)
        p = F.call(fisx.XRF, [], [("configurationFile", "", "")])
        es, ws = [e for e, _ in s["beam"]], [w for _, w in s["beam"]]
        none = [("characteristic", None, None), ("divergency", None, None)]
        if len(es) == 1 and k & 1:
            F.call(p.setBeam, [F.num(es[0])], [("weights", [None, F.num(ws[0])][k // 2 % 2], None)] + none)
        elif len(set(ws)) == 1 and k & 1:
            F.call(p.setBeam, [F.floats(es)], [("weights", None, None)] + none)
        else:
            extra = none if k & 2 else [("characteristic", [[1] * len(es), np.ones(len(es), dtype=np.int32), tuple([1] * len(es))][F.pick(3)], None), ("divergency", F.floats([0.0] * len(es)), None)]
            F.call(p.setBeam, [F.floats(es)], [("weights", F.floats(ws), None)] + extra)
        if s.get("filters") or k & 4:
            p.setBeamFilters(py_layers(s.get("filters", []), F, fisx))
        if s.get("ufilters") or k & 4:
            p.setUserBeamFilters(py_tables(s.get("ufilters", []), F, fisx))
        F.call(p.setSample, [py_layers(s["sample"], F, fisx)], [("referenceLayer", s.get("ref", 0), 0)])
        if s.get("attenuators") or k & 8:
            p.setAttenuators(py_layers(s.get("attenuators", []), F, fisx))
        if s.get("uatt") or k & 8:
            p.setUserAttenuators(py_tables(s.get("uatt", []), F, fisx))
        a, b, sc = s["geo"]
        F.call(p.setGeometry, [F.num(a), F.num(b)], [("scatteringAngle", sc, -90.0)])
        if s.get("det"):
            d = s["det"]
            if d.get("layer"):
                det = py_layer(d["layer"], F, fisx, fisx.Detector)
            else:
                det = fisx.Detector(F.name(""), 0.0, 0.0)
            if d.get("diameter"):
                det.setDiameter(F.num(d["diameter"]))
            if d.get("distance"):
                det.setDistance(F.num(d["distance"]))
            if d.get("it") is not None:
                # not in the Python bindings
                y = vfx_ext.CDetector(d["layer"]["name"] if d.get("layer") else "", d["layer"]["rho"] if d.get("layer") else 0.0, d["layer"]["t"] if d.get("layer") else 0.0, 1.0)
                if d.get("diameter"):
                    y.setDiameter(d["diameter"])
                if d.get("distance"):
                    y.setDistance(d["distance"])
                x.setDetector(y)
            p.setDetector(det)
            labels.add("detector")
        for i in range(len(s["sample"])):
            same(F.call(p.getGeometricEfficiency, [], [("layerIndex", i, 0)]), x.getGeometricEfficiency(i), "geometric efficiency of layer %d" % i)
        sec, geo, mf, lim = c["sec"], c["geo"], c["mf"], c["lim"]
        over = c["over"]
        ob = xb = None
        if over is not None:
            ob, xb = fisx.Beam(), vfx_ext.CBeam()
            over = es[:1] if over == 1 else over
            if len(over) == 1 and k & 16:
                ob.setBeam(F.num(over[0]))
            else:
                ob.setBeam(F.floats(over), F.floats([1.0 / (i + 1) for i in range(len(over))]))
            xb.setBeam(over, [1.0 / (i + 1) for i in range(len(over))])
            labels.add("own beam")
        opts = [("secondary", sec, 0), ("useGeometricEfficiency", geo, 1), ("useMassFractions", mf, 0), ("secondaryCalculationLimit", lim, 0.0)] + ([("overwritingBeam", ob, None)] if ob is not None else [])
        reqs = c["r"]
        what = "fluorescence of %r" % (reqs,)
        if k & 32:
            ask = ["%s %s" % (r[0], r[1]) if r[2] < 0 else "%s %s %d" % tuple(r) for r in reqs]
            same(F.call(p.getMultilayerFluorescence, [F.names(ask), py], opts), x.fluo(ask, lib, sec, geo, mf, lim, xb), what)
        else:
            els, fams = [r[0] for r in reqs], [r[1] for r in reqs]
            layers = [r[2] for r in reqs]
            if len(reqs) == 1 and k & 64:
                # one element, its name alone
                same(F.call(p.getFluorescence, [F.name(els[0]), py], [("sampleLayer", layers[0], 0), ("lineFamily", F.name(fams[0]) if fams[0] != "K" else "K", "K")] + opts),
                     x.fluoL(els, lib, layers, fams, sec, geo, mf, lim, xb), what + ", one element")
                labels.add("one element")
            elif k & 128:
                lay = min(c["layer"], len(s["sample"]) - 1)
                same(F.call(p.getFluorescence, [F.names(els), py], [("sampleLayer", lay, 0), ("lineFamily", F.names(fams), None)] + opts),
                     x.fluoL(els, lib, [lay], fams, sec, geo, mf, lim, xb), what + ", one layer for all")
            else:
                lv = [layers, tuple(layers), np.array(layers)][F.pick(3)]
                same(F.call(p.getFluorescence, [F.names(els), py], [("sampleLayer", lv, None), ("lineFamily", F.names(fams), None)] + opts),
                     x.fluoL(els, lib, layers, fams, sec, geo, mf, lim, xb), what + ", a layer each")
        labels.add("nt")
    finally:
        lib.removeMaterials()
        py.removeMaterials()
    return labels


# ------------------------------------------------------------------ arguments that are not of the kind needed
@st.composite
def wrong_cases(draw):
    return {"uid": draw(gen.uids), "z": draw(st.sampled_from([26, 82])), "bad": draw(st.sampled_from(["none", "text", "number", "list", "other"])), "k": draw(st.integers(0, 40)), "f": draw(picks)}


def run_wrong(c):
    import fisx
    py = gen.pylib(c["uid"])
    bad = {"none": None, "text": "Fe", "number": 3.0, "list": [1.0], "other": fisx.Math()}[c["bad"]]
    lay, det, xrf, beam = fisx.Layer("Fe", 1.0, 1.0), fisx.Detector("Si", 1.0, 1.0), fisx.XRF(), fisx.Beam()
    xrf.setBeam(20.)
    xrf.setSample([["Fe", 7.0, 0.01]])
    xrf.setGeometry(45., 45.)
    before = xrf.getMultilayerFluorescence(["Fe K"], py)
    calls = [("addMaterial", lambda: py.addMaterial(bad)), ("Layer.setMaterial", lambda: lay.setMaterial(bad)), ("Layer.getTransmission", lambda: lay.getTransmission([5.0], bad)),
             ("Layer.getComposition", lambda: lay.getComposition(bad)), ("Layer.getPeakFamilies", lambda: lay.getPeakFamilies(5.0, bad)),
             ("Detector.getTransmission", lambda: det.getTransmission([5.0], bad)), ("Detector.getEscape", lambda: det.getEscape(9.0, bad)), ("Detector.getComposition", lambda: det.getComposition(bad)),
             ("XRF.setDetector", lambda: xrf.setDetector(bad)), ("getMultilayerFluorescence", lambda: xrf.getMultilayerFluorescence(["Fe K"], bad)),
             ("getMultilayerFluorescence, beam", lambda: xrf.getMultilayerFluorescence(["Fe K"], py, overwritingBeam=bad)),
             ("getFluorescence", lambda: xrf.getFluorescence("Fe", bad)), ("getFluorescence, beam", lambda: xrf.getFluorescence("Fe", py, overwritingBeam=bad)),
             ("getLayerComposition", lambda: xrf.getLayerComposition(bad, py)), ("getLayerComposition", lambda: xrf.getLayerComposition(lay, bad)),
             ("getLayerTransmission", lambda: xrf.getLayerTransmission(bad, [3.0], py)), ("getLayerTransmission", lambda: xrf.getLayerTransmission(lay, 3.0, bad)),
             ("getLayerMassAttenuationCoefficients", lambda: xrf.getLayerMassAttenuationCoefficients(bad, 3.0, py)), ("getLayerMassAttenuationCoefficients", lambda: xrf.getLayerMassAttenuationCoefficients(lay, [3.0], bad)),
             ("getLayerPeakFamilies", lambda: xrf.getLayerPeakFamilies(bad, 9.0, py)), ("getLayerPeakFamilies", lambda: xrf.getLayerPeakFamilies(lay, 9.0, bad)),
             ("setSample", lambda: xrf.setSample([lay, bad])), ("setBeamFilters", lambda: xrf.setBeamFilters([lay, lay, bad])), ("setAttenuators", lambda: xrf.setAttenuators([bad])),
             ("setUserBeamFilters", lambda: xrf.setUserBeamFilters([bad])), ("setUserAttenuators", lambda: xrf.setUserAttenuators([bad]))]
    name, f = calls[c["k"] % len(calls)]
    try:
        f()
    except Exception:
        pass
    else:
        fail("%s was given %r instead of an object and did not complain" % (name, bad))
    eq(xrf.getMultilayerFluorescence(["Fe K"], py), before, "fluorescence after a rejected argument of %s" % name)
    return ["nt", c["bad"]]


# ------------------------------------------------------------------ optional arguments left out, in C++
@st.composite
def default_cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=2, hi=8.0))
    if "det" not in s:
        s["det"] = {"layer": draw(xrfgen.layer(s["uid"], s["beam"][0][0], 1e-2, 20., idx=30)), "diameter": 0.4, "distance": 3.0, "it": None}
    return {"s": s, "r": draw(xrfgen.requests(s, maxn=1, big=False))[0], "e": draw(gen.logfl(0.5, 90., 5)), "es": draw(gen.lists(gen.logfl(0.5, 90., 5), 1, 3)),
            "dist": draw(st.dictionaries(st.sampled_from(SUBSHELLS[:9]), gen.fl(0.01, 2.0, 3), min_size=1, max_size=3)), "comp": draw(gen.composition(s["uid"], 1, 3))}


def run_defaults(c):
    import vfx_ext
    s, r = c["s"], c["r"]
    lib = gen.lib(s["uid"])
    try:
        register(lib, s, vfx_ext)
        x = build(s, vfx_ext)
        l = build_layer(vfx_ext.CLayer, s["sample"][0], vfx_ext)
        d = build_detector(s["det"], vfx_ext)
        req = "%s %s" % (r[0], r[1]) if r[2] < 0 else "%s %s %d" % tuple(r)
        n = 0
        for what, (a, b) in vfx_ext.defaults(lib, x, l, d, lib.getElementCopy(r[0]), r[0], r[1], req, c["e"], c["es"], c["comp"], c["dist"], max(r[2], 0)):
            same(list(a), list(b), "%s with optional arguments left out" % what)
            n += not any(k.startswith("error") for k in a[0])
        import fisx
        p, (m1, m2, mj) = fisx.Math(), [c["e"], c["es"][0], c["es"][-1] + 1.0]
        thick = vfx_ext.CMath.deBoerL0(m1, m2, mj, 1.0, float("inf"))
        for a in ((), (0.0, 0.0), (0.0,), (2.0, 0.0), (0.0, 0.3)):
            same(p.deBoerL0(m1, m2, mj, *a), thick, "L0 of a thick target, density and thickness %r" % (a,))
        same(p.deBoerL0(m1, m2, mj, density=2.0, thickness=0.3), vfx_ext.CMath.deBoerL0(m1, m2, mj, 2.0, 0.3), "L0")
        same(p.deBoerX(2.0, 3.0, 0.1, 0.2, m1, m2), vfx_ext.CMath.deBoerX(2.0, 3.0, 0.1, 0.2, m1, m2, 0.0), "X with nothing in between")
        same(p.deBoerX(2.0, 3.0, 0.1, 0.2, m1, m2, 0.4), vfx_ext.CMath.deBoerX(2.0, 3.0, 0.1, 0.2, m1, m2, 0.4), "X")
        check(n > 40, "only %d of the calls give an answer" % n)
        return ["nt"]
    finally:
        lib.removeMaterials()


TESTS = [
    Test("library", lib_cases(), run_lib, 2500, rule="calls of the methods of Elements and EPDL97 in random spellings; non-trivial: bytes, arrays, integers, keywords or omitted defaults among the arguments"),
    Test("objects", obj_cases(), run_obj, 2500, rule="Element, Shell, Material, Layer, Detector, TransmissionTable and Beam objects set up and asked in random spellings; non-trivial: as above, or an object handed to another"),
    Test("xrf", xrf_cases(), run_xrf, 2500, rule="complete set-ups and requests in random spellings, given as objects or lists; all cases are non-trivial"),
    Test("defaults", default_cases(), run_defaults, 300, rule="C++ calls with optional arguments left out against the same with their documented defaults; all cases are non-trivial"),
    Test("wrong", wrong_cases(), run_wrong, 400, rule="something else where an object is needed; all cases are non-trivial"),
]
