"""C12 escape peaks follow the detector fluorescence model"""
import math

from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, close, eq
from ..model import normalise


def escape_model(m, comp, e, intensity=1e-7, alpha=90., thick=0.0):
    """-> {label: (energy, rate before the finite thickness correction, rate)}, and how well t is conditioned"""
    comp = normalise(comp)
    sin = abs(math.sin(math.radians(alpha)))
    mu_i = m.mu_total(comp, e)
    full = 1.0 - math.exp(-mu_i * thick / sin) if thick > 0 else 1.0
    out = {}
    for el in sorted(comp):
        for line, d in m.factors(el, e, comp[el]).items():
            t = sin * m.mu_total(comp, d["energy"]) / mu_i
            g = 1.0 - t * math.log1p(1.0 / t) if t > 0 else 1.0
            raw = d["rate"] * 0.5 / mu_i * g
            out["%s_%sesc" % (el, line)] = (e - d["energy"], raw, raw / full, 1e-9 + 1e-15 * t * t)
    return out


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    comp = draw(gen.composition(uid, 1, 3))
    z = universe.SYMBOLS.index(draw(st.sampled_from(sorted(comp)))) + 1
    e = draw(gen.energies(uid, z, lo=0.02, hi=300.))
    return {"uid": uid, "comp": comp, "e": e, "it": draw(st.sampled_from([1e-7, 1e-7, 0.0, 1e-5, 1e-3, 1e-2])),
            "a": draw(st.one_of(st.sampled_from([90., 90., 45., 30., -45., 10., 135., 1.]), gen.fl(-89., -2.), gen.fl(2., 178.))),
            "t": draw(st.sampled_from([0.0, 0.0, -1.0, 0.001, 0.05, 1.0])), "k": draw(gen.logfl(1e-3, 1e3)),
            "thr": draw(st.sampled_from([0.01, 0.5])), "n": draw(st.sampled_from([4, 1, 100]))}


def near_line(uid, m, comp, e):
    from .c06 import near_edge
    return near_edge(uid, comp, e)


def compare(got, want, intensity, what, loose=0.0):
    for k, (en, raw, r, rel) in want.items():
        rel = max(rel, loose)
        sure = abs(raw - intensity) > (rel * 10) * max(raw, intensity) + 1e-18
        if not sure:
            continue
        check((k in got) == (raw > intensity), "%s: %s %s, ratio %r, threshold %r" %
              (what, k, "present" if k in got else "missing", raw, intensity))
        if k in got:
            eq(got[k]["rate"], r, "%s: ratio of %s" % (what, k), rel=rel, abs_=1e-18)
            eq(got[k]["energy"], en, "%s: energy of %s" % (what, k), rel=1e-9, abs_=1e-12)
            check(got[k]["rate"] >= 0, "%s: negative ratio of %s" % (what, k))
    extra = sorted(set(got) - set(want))
    check(not extra, "%s: unexpected escape peaks %r" % (what, extra[:4]))


def run(c):
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    comp, e = c["comp"], c["e"]
    want = escape_model(m, comp, e, c["it"], c["a"], c["t"])
    loose = 1e-5 if near_line(c["uid"], m, comp, e) else 0.0
    what = "escape of %r at %r (angle %r, thickness %r)" % (comp, e, c["a"], c["t"])
    got = lib.getEscape(comp, e, c["thr"], c["it"], c["n"], c["a"], c["t"])
    compare(got, want, c["it"], what, loose)
    scaled = {k: v * c["k"] for k, v in comp.items()}
    compare(lib.getEscape(scaled, e, c["thr"], c["it"], c["n"], c["a"], c["t"]), want, c["it"], what + " scaled by %r" % c["k"], loose)
    low = lib.getEscape(comp, e, c["thr"], c["it"] / 10., c["n"], c["a"], c["t"])
    for k, v in got.items():
        check(k in low, "%s: %s disappears with a lower threshold" % (what, k))
        eq(low[k], v, "%s: %s with a lower threshold" % (what, k), rel=1e-12)
    labels = ["nt"] if got else []
    if c["t"] > 0 and got:
        labels.append("thick")
    d = py.getEscape(comp, e, c["thr"], c["it"], c["n"], c["a"], c["t"])
    eq({str(k): {str(x): y for x, y in v.items()} for k, v in d.items()}, got, what + " (Python)", rel=1e-12)
    # a cache filled on purpose
    es = [e, e * 1.5]
    l2 = gen.lib(c["uid"])
    l2.setEscapeCacheEnabled(1)
    l2.updateEscapeCache(comp, es, c["thr"], c["it"], c["n"], c["a"], c["t"])
    a = l2.getEscape(comp, e, c["thr"], c["it"], c["n"], c["a"], c["t"])
    l2.clearEscapeCache()
    l2.setEscapeCacheEnabled(0)
    eq(a, got, what + " from the cache", rel=1e-12)
    return labels


@st.composite
def det_cases(draw):
    uid = draw(gen.uids)
    comp = draw(gen.composition(uid, 1, 3))
    z = universe.SYMBOLS.index(draw(st.sampled_from(sorted(comp)))) + 1
    return {"uid": uid, "comp": comp, "e": draw(gen.energies(uid, z, lo=0.02, hi=300.)), "kind": draw(st.sampled_from(["element", "material", "named", "formula"])),
            "d": draw(gen.logfl(0.1, 20.)), "t": draw(gen.logfl(1e-4, 1.0)), "it": draw(st.sampled_from([None, 1e-3, 1e-5])),
            "label": draw(st.sampled_from(["", "x", "Fe KL3"])), "update": draw(st.integers(0, 1)), "n": draw(st.sampled_from([None, 1, 10])),
            "thr": draw(st.sampled_from([None, 0.05])), "formula": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(1, 5)), min_size=1, max_size=3))}


def run_det(c):
    import fisx
    import vfx_ext
    lib, py, m = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    comp = c["comp"]
    name = "Det"
    if c["kind"] == "element":
        name = sorted(comp)[0]
        comp = {name: 1.0}
    elif c["kind"] == "formula":
        zs = gen.rich(c["uid"])
        name = "".join("%s%d" % (gen.sym(zs[i % len(zs)]), n) for i, n in c["formula"])
        comp = lib.getComposition(name)
    d = vfx_ext.CDetector(name, c["d"], c["t"])
    mat = vfx_ext.CMaterial("Det", 1.0, 1.0, "")
    mat.setComposition(comp)
    if c["kind"] == "material":
        d.setMaterial(mat)
    try:
        if c["kind"] == "named":
            lib.addMaterial(mat, 0)
            py.addMaterial(pymat(comp), 0)
        eq(d.getEscapePeakIntensityThreshold(), 1e-7, "default intensity threshold")
        eq(d.getEscapePeakAlphaIn(), 90.0, "default angle")
        if c["it"] is not None:
            d.setMinimumEscapePeakIntensity(c["it"])
            eq(d.getEscapePeakIntensityThreshold(), c["it"], "intensity threshold")
        if c["n"] is not None:
            d.setMaximumNumberOfEscapePeaks(c["n"])
            eq(d.getEscapePeakNThreshold(), c["n"], "number of peaks")
        if c["thr"] is not None:
            d.setMinimumEscapePeakEnergy(c["thr"])
            eq(d.getEscapePeakEnergyThreshold(), c["thr"], "energy threshold")
        it = 1e-7 if c["it"] is None else c["it"]
        loose = 1e-5 if near_line(c["uid"], m, comp, c["e"]) else 0.0
        want = escape_model(m, comp, c["e"], it)
        what = "detector %s (%s) at %r" % (name, c["kind"], c["e"])
        for e2 in (c["e"] * 1.3, c["e"], c["e"]):
            got = d.getEscape(e2, lib, c["label"], c["update"])
        compare(got, want, it, what, loose)
        eq(got, lib.getEscape(d.getComposition(lib), c["e"], 0.01, it, 4, 90., 0.0), what + " and library", rel=1e-9)
        if c["it"] is None and c["kind"] != "material":
            p = fisx.Detector(name, c["d"], c["t"])
            eq(p.getEscape(c["e"], py, c["label"], c["update"]), got, what + " Python", rel=1e-12)
    finally:
        lib.removeMaterials()
        py.removeMaterials()
    return ["nt"] if got else []


def pymat(comp):
    import fisx
    m = fisx.Material("Det", 1.0, 1.0)
    m.setComposition(comp)
    return m


TESTS = [Test("library", cases(), run, 3000, rule="composition, energy, angle, thickness, threshold; non-trivial: some escape peak is reported"),
         Test("detector", det_cases(), run_det, 1500, rule="detectors by element, formula, material name or material object; non-trivial: some escape peak")]
