"""C06 mixtures attenuate as the mass-fraction weighted sum of their elements"""
from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, eq
from ..model import PROCESSES, normalise
from ..universe import SUBSHELLS


def near_edge(uid, names, e):
    u = universe.get(uid)
    for n in names:
        xs = [r[0] for r in u.epdl[min(universe.SYMBOLS.index(n) + 1, u.nscans)]]
        if any(abs(e - xs[i]) < 3e-6 for i in range(1, len(xs)) if xs[i] == xs[i - 1]):
            return True
    return False


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    comp = draw(gen.composition(uid, 1, 5))
    names = sorted(comp)
    z = universe.SYMBOLS.index(draw(st.sampled_from(names))) + 1
    es = draw(gen.lists(gen.energies(uid, z, lo=0.002, hi=990.), 1, 5))
    order = draw(st.permutations(list(comp)))
    return {"uid": uid, "comp": [[k, comp[k]] for k in order], "e": es, "k": draw(gen.logfl(1e-3, 1e3)),
            "split": draw(st.integers(0, 3))}


def run(c):
    import fisx
    import vfx_ext
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    comp = dict(map(tuple, c["comp"]))
    es = c["e"]
    frac = normalise(comp)
    out = []
    if len(comp) > 1:
        out.append("nt")
    want = [m.mu(comp, e) for e in es]
    # dictionary route, list and single energies, scaled amounts
    scaled = {k: v * c["k"] for k, v in comp.items()}
    v = lib.getMuDictV(comp, es)
    vs = lib.getMuDictV(scaled, es)
    vpy = py.getMassAttenuationCoefficients({k.encode(): x for k, x in comp.items()}, es)
    vpy = {(k.decode() if isinstance(k, bytes) else k): x for k, x in vpy.items()}
    for i, e in enumerate(es):
        rel = 1e-6 if near_edge(c["uid"], comp, e) else 1e-9
        one = lib.getMuDict(comp, e)
        for p in PROCESSES:
            eq(one[p], want[i][p], "%s of %r at %r" % (p, comp, e), rel=rel)
            eq(v[p][i], want[i][p], "%s of %r at [%d]=%r in a list" % (p, comp, i, e), rel=rel)
            eq(vs[p][i], want[i][p], "%s of %r at [%d]=%r, scaled amounts" % (p, scaled, i, e), rel=rel)
            eq(vpy[p][i], want[i][p], "Python %s of %r at [%d]=%r" % (p, comp, i, e), rel=rel)
    # a registered material, in the given order, and a nested one
    l2 = gen.lib(c["uid"])
    names, amounts = [k for k, _ in c["comp"]], [a for _, a in c["comp"]]
    mat = vfx_ext.CMaterial("Mixture", 1.0, 1.0, "")
    mat.setCompositionV(names, amounts)
    l2.addMaterial(mat, 0)
    n1 = max(1, min(len(names) - 1, c["split"] + 1))
    inner = vfx_ext.CMaterial("Inner", 1.0, 1.0, "")
    nested = None
    if len(names) > 1:
        inner.setCompositionV(names[:n1], amounts[:n1])
        l2.addMaterial(inner, 0)
        outer = vfx_ext.CMaterial("Outer", 1.0, 1.0, "")
        outer.setCompositionV(["Inner"] + names[n1:], [sum(amounts[:n1])] + amounts[n1:])
        l2.addMaterial(outer, 0)
        nested = "Outer"
        out.append("nested")
    for name in ["Mixture"] + ([nested] if nested else []) + (names if len(names) == 1 else []):
        lv = l2.getMuV(name, es)
        layer = vfx_ext.CLayer(name, 1.0, 1.0, 1.0)
        ly = layer.getMuV(es, l2)
        for i, e in enumerate(es):
            rel = 1e-6 if near_edge(c["uid"], comp, e) else 1e-9
            one = l2.getMu(name, e)
            ly1 = layer.getMu(e, l2)
            for p in PROCESSES:
                for what, x in (("list", lv[p][i]), ("single", one[p]), ("layer list", ly[p][i]), ("layer", ly1[p])):
                    eq(x, want[i][p], "%s of material %s (%r) at %r, %s" % (p, name, c["comp"], e, what), rel=rel)
    l2.removeMaterials()
    return out


@st.composite
def formulas(draw):
    uid = draw(gen.uids)
    zs = gen.rich(uid)
    els = draw(gen.lists(st.sampled_from(zs), 1, 4, 13, unique=True))
    n = [draw(st.integers(1, 12)) for _ in els]
    es = draw(gen.lists(gen.energies(uid, els[0], lo=0.002, hi=990.), 1, 4))
    return {"uid": uid, "f": [[gen.sym(z), k] for z, k in zip(els, n)], "e": es}


def run_formula(c):
    import vfx_ext
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    text = "".join("%s%s" % (s, "" if k == 1 else k) for s, k in c["f"])
    comp = {s: k * lib.getAtomicMass(s) for s, k in c["f"]}
    lv, pv = lib.getMuV(text, c["e"]), py.getMassAttenuationCoefficients(text, c["e"])
    layer = vfx_ext.CLayer(text, 1.0, 1.0, 1.0)
    lyv = layer.getMuV(c["e"], lib)
    for i, e in enumerate(c["e"]):
        rel = 1e-6 if near_edge(c["uid"], comp, e) else 1e-9
        w = m.mu(comp, e)
        for p in PROCESSES:
            for what, x in (("single", lib.getMu(text, e)[p]), ("list", lv[p][i]), ("Python list", pv[p][i]),
                            ("layer", layer.getMu(e, lib)[p]), ("layer list", lyv[p][i])):
                eq(x, w[p], "%s of formula %s at %r, %s" % (p, text, e, what), rel=rel)
    return ["nt"] if len(c["f"]) > 1 else []


@st.composite
def components(draw):
    """a mixture whose components are formulas, elements and materials, with elements in common"""
    uid = draw(gen.uids)
    pool = draw(gen.lists(st.sampled_from(gen.rich(uid)), 2, 4, 13, unique=True, often=5))

    def formula():
        els = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3 if len(pool) < 5 else 8, unique=True))
        return [[gen.sym(z), draw(st.integers(1, 7))] for z in els]
    comps = []
    for i in range(draw(gen.count(1, 4, 9))):
        if draw(st.integers(0, 2)):
            comps.append(["f", formula(), draw(gen.logfl(0.01, 100.0))])
        else:
            comps.append(["m", [[formula(), draw(gen.logfl(0.01, 10.0))] for _ in range(draw(st.integers(1, 3)))], draw(gen.logfl(0.01, 100.0))])
    es = draw(gen.lists(gen.energies(uid, pool[0], lo=0.002, hi=990.), 1, 4))
    return {"uid": uid, "c": comps, "e": es, "other": draw(gen.element(uid))}


def text(f):
    return "".join("%s%s" % (s, "" if k == 1 else k) for s, k in f)


def run_components(c):
    import vfx_ext
    from fractions import Fraction as F
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    labels = []

    def add(total, f, w):
        t = sum(F(k) * F(lib.getAtomicMass(s)) for s, k in f)
        for s, k in f:
            total[s] = total.get(s, F(0)) + w * F(k) * F(lib.getAtomicMass(s)) / t
    names, total = {}, {}
    mats = []
    for i, (kind, f, w) in enumerate(c["c"]):
        if kind == "f":
            name = text(f)
            if name in names:
                continue
            add(total, f, F(w))
        else:
            name = "Material number %d" % i
            parts = {}
            for g, a in f:
                parts[text(g)] = (g, a)
            t = sum(F(a) for g, a in parts.values())
            for g, a in parts.values():
                add(total, g, F(w) * F(a) / t)
            mats.append((name, {k: a for k, (g, a) in parts.items()}))
        names[name] = w
    comp = {k: float(v) for k, v in total.items()}
    es = c["e"]
    want = [m.mu(comp, e) for e in es]
    import fisx
    try:
        for name, parts in mats + [("All of it", names)]:
            mat = vfx_ext.CMaterial(name, 1.0, 1.0, "")
            mat.setComposition(parts)
            lib.addMaterial(mat, 0)
            pm = fisx.Material(name, 1.0, 1.0, "")
            pm.setComposition(parts)
            py.addMaterial(pm, 0)
        own = vfx_ext.CLayer("whatever", 1.0, 1.0, 1.0)
        mat = vfx_ext.CMaterial("Own", 1.0, 1.0, "")
        mat.setComposition(names)
        own.setMaterial(mat)
        x = vfx_ext.CXRF()
        other = vfx_ext.CLayer(gen.sym(c["other"]), 1.0, 1.0, 1.0)
        s = sum(comp.values())
        exact = {k: v / s for k, v in comp.items()}
        routes = [("dictionary", lib.getMuDictV(names, es)), ("Python dictionary", py.getMassAttenuationCoefficients(names, es)),
                  ("material", lib.getMuV("All of it", es)), ("Python material", py.getMassAttenuationCoefficients("All of it", es)),
                  ("layer", own.getMuV(es, lib)), ("layer through XRF", x.getLayerMuV(own, es, lib)), ("composition", lib.getMuDictV(exact, es, 1)),
                  ("named layer", vfx_ext.CLayer("All of it", 1.0, 1.0, 1.0).getMuV(es, lib)),
                  ("layer through XRF, composition given", x.getLayerMuV(own, es, lib, exact)),
                  ("another layer through XRF, composition given", x.getLayerMuV(other, es, lib, exact))]
        for i, e in enumerate(es):
            rel = 1e-6 if near_edge(c["uid"], comp, e) else 1e-9
            for p in PROCESSES:
                for what, r in routes:
                    eq(r[p][i], want[i][p], "%s of %r (%r) at %r, as %s" % (p, names, mats, e, what), rel=rel)
                for what, r in (("dictionary", lib.getMuDict(names, e)), ("layer", own.getMu(e, lib)), ("layer through XRF", x.getLayerMu(own, e, lib)),
                                ("another layer through XRF, composition given", x.getLayerMu(other, e, lib, exact))):
                    eq(r[p], want[i][p], "%s of %r (%r) at %r, one energy, as %s" % (p, names, mats, e, what), rel=rel)
    finally:
        lib.removeMaterials()
        py.removeMaterials()
    seen = {}
    for n in names:
        for k in (lib.getComposition(n) if not n.startswith("Material") else dict.fromkeys(comp, 1)):
            seen[k] = seen.get(k, 0) + 1
    if max(seen.values()) > 1:
        labels.append("nt")
    return labels


TESTS = [Test("components", components(), run_components, 2500, rule="components that are formulas or materials; non-trivial: an element in several of them"),
         Test("mixtures", cases(), run, 3000, rule="element amounts (scaled, reordered, nested as materials) and energies; non-trivial: two or more elements"),
         Test("formulas", formulas(), run_formula, 2000, rule="formulas of 1..4 elements; non-trivial: two or more")]
