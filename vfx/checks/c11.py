"""C11 excitable shells, peak families and lines respect the edges"""
from hypothesis import strategies as st

from . import c08
from .. import gen, universe
from ..harness import Test, check, eq
from ..universe import SUBSHELLS


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    zs = draw(gen.lists(gen.element(uid), 1, 4, 14, unique=True))
    e = draw(gen.energies(uid, zs[0], lo=0.002, hi=990.))
    return {"uid": uid, "z": zs, "e": e, "n": [draw(st.integers(1, 9)) for _ in zs]}


def families(got, what):
    out = []
    for k, v in got:
        out.append((k.decode() if isinstance(k, bytes) else k, v))
    for a, b in zip(out, out[1:]):
        check(a[1] <= b[1], "%s: families are not in increasing order of energy: %r" % (what, out))
    check(len(set(k for k, _ in out)) == len(out), "%s: repeated families %r" % (what, out))
    return dict(out)


def run(c):
    import vfx_ext
    import fisx
    u = universe.get(c["uid"])
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    e = c["e"]
    names = [gen.sym(z) for z in c["z"]]
    labels = []
    for z, name in zip(c["z"], names):
        em = m.el(name)
        el = lib.getElementCopy(name)
        want = sorted(s for s, b in u.binding[z].items() if b > 0 and e > b)
        eq(sorted(el.getExcitedShells(e)), want, "%s excited shells at %r" % (name, e))
        fam = dict(m.families([name], e))
        eq(families(lib.getPeakFamilies(name, e), name), fam, "%s families at %r" % (name, e))
        eq(families(py.getPeakFamilies(name, e), name), fam, "%s families at %r (Python)" % (name, e))
        lines = em.emitted_lines(e)
        eq(lib.getEmittedXRayLines(name, e), lines, "%s emitted lines at %r" % (name, e))
        eq(el.getEmittedXRayLines(e), lines, "%s emitted lines at %r (element)" % (name, e))
        eq(py.getEmittedXRayLines(name, e), lines, "%s emitted lines at %r (Python)" % (name, e))
        if fam and len(fam) < len([s for s in SUBSHELLS if u.binding[z][s] > 0 and u.consts[z][s]["omega"] > 0]):
            labels.append("partially-excited")
        if fam:
            labels.append("nt")
    fam = dict(m.families(names, e))
    eq(families(lib.getPeakFamiliesV(names, e), names), fam, "families of %r at %r" % (names, e))
    eq(families(py.getPeakFamilies(names, e), names), fam, "families of %r at %r (Python)" % (names, e))
    again = names + [names[i % len(names)] for i in c["n"]]
    eq(families(lib.getPeakFamiliesV(again, e), again), fam, "families of %r at %r" % (again, e))
    eq(families(py.getPeakFamilies(again, e), again), fam, "families of %r at %r (Python)" % (again, e))
    formula = "".join("%s%d" % (s, n) for s, n in zip(names, c["n"]))
    eq(families(lib.getPeakFamilies(formula, e), formula), fam, "families of formula %s at %r" % (formula, e))
    layer = vfx_ext.CLayer(formula, 1.0, 1.0, 1.0)
    eq(families(layer.getPeakFamilies(e, lib), formula), fam, "families of a layer of %s at %r" % (formula, e))
    pl = fisx.Layer(formula, 1.0, 1.0)
    eq(families(pl.getPeakFamilies(e, py), formula), fam, "families of a layer of %s at %r (Python)" % (formula, e))
    mat = vfx_ext.CMaterial("A material", 1.0, 1.0, "")
    mat.setComposition({s: float(n) for s, n in zip(names, c["n"])})
    lib.addMaterial(mat, 0)
    try:
        eq(families(lib.getPeakFamilies("A material", e), "material"), fam, "families of a material of %r at %r" % (names, e))
        layer = vfx_ext.CLayer("A material", 1.0, 1.0, 1.0)
        eq(families(layer.getPeakFamilies(e, lib), "material"), fam, "families of a layer of a registered material %r at %r" % (names, e))
    finally:
        lib.removeMaterials()
    layer = vfx_ext.CLayer("whatever", 1.0, 1.0, 1.0)
    layer.setMaterial(mat)
    eq(families(layer.getPeakFamilies(e, lib), "material"), fam, "families of a layer with own material %r at %r" % (names, e))
    x = vfx_ext.CXRF()
    eq(families(x.getLayerPeakFamilies(layer, e, lib), "material"), fam, "families of a layer with own material through XRF")
    other = vfx_ext.CLayer(gen.sym(c["z"][0]), 1.0, 1.0, 1.0)
    eq(families(x.getLayerPeakFamilies(other, e, lib, {n: 1.0 for n in names}), "composition"), fam, "families through XRF of a given composition %r" % names)
    return labels


@st.composite
def custom_cases(draw):
    c = draw(c08.custom())
    if draw(st.integers(0, 4)) == 0:
        c["b"][draw(st.sampled_from(sorted(c["shells"])))] = 0.0    # unknown binding energy: the shell cannot be excited
    b = [x for x in c["b"].values() if x > 0] or [1.0]
    c["e"] = draw(st.one_of(st.sampled_from(b).flatmap(lambda x: st.sampled_from([x, x * (1 + 1e-9), x * (1 - 1e-9)])), gen.logfl(0.001, 200.0)))
    return c


def run_custom(c):
    """shells of an element entered by hand"""
    e, m = c08.make_custom(c)
    want = sorted(s for s, b in c["b"].items() if b > 0 and c["e"] > b)
    eq(sorted(e.getExcitedShells(c["e"])), want, "excited shells of a custom element at %r" % c["e"])
    lines = m.emitted_lines(c["e"])
    eq(e.getEmittedXRayLines(c["e"]), lines, "lines emitted by a custom element at %r" % c["e"])
    return ["nt"] if lines else []


TESTS = [Test("custom", custom_cases(), run_custom, 3000, rule="element entered by hand, also with shells missing in the middle; non-trivial: lines are emitted"),
         Test("families", cases(), run, 4000, rule="1..4 elements and an energy (binding energies +-); non-trivial: a family is excited")]
