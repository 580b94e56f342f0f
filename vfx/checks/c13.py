"""C13 layer transmission obeys Beer-Lambert at any angle"""
import math

from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, close, eq, rejects
from ..model import normalise
from .c06 import near_edge

angles = st.one_of(st.just(90.), st.just(90.), st.sampled_from([45., -45., 30., 135., 1., 179., -90., 0.5, 89.9]),
                   gen.fl(0.2, 179.8), gen.fl(0.2, 179.8).map(lambda x: -x))


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    comp = draw(gen.composition(uid, 1, 3))
    z = universe.SYMBOLS.index(draw(st.sampled_from(sorted(comp)))) + 1
    es = draw(gen.lists(gen.energies(uid, z, lo=0.002, hi=900.), 1, 4))
    return {"uid": uid, "comp": comp, "e": es, "z": draw(gen.element(uid)), "rho": draw(gen.logfl(0.001, 25.)), "t": draw(gen.logfl(1e-7, 10.)),
            "f": draw(st.sampled_from([1.0, 1.0, 1.0, 0.0, 0.5, 0.25, 0.01, 0.999])), "a": draw(angles),
            "kind": draw(st.sampled_from(["element", "material", "named", "formula"])), "more": draw(gen.fl(1.01, 5.0)),
            "split": draw(gen.fl(0.01, 0.99)), "xrfmat": draw(st.booleans()),
            "formula": draw(st.lists(st.tuples(st.integers(0, 20), st.integers(1, 5)), min_size=1, max_size=3))}


def run(c):
    import fisx
    import vfx_ext
    uid = c["uid"]
    lib, py, m = gen.lib(uid), gen.pylib(uid), gen.model(uid)
    comp, name = c["comp"], "Lay"
    if c["kind"] == "element":
        name = sorted(comp)[0]
        comp = {name: 1.0}
    elif c["kind"] == "formula":
        zs = gen.rich(uid)
        name = "".join("%s%d" % (gen.sym(zs[i % len(zs)]), n) for i, n in c["formula"])
        comp = lib.getComposition(name)
    mat = vfx_ext.CMaterial("Lay", 3.0, 0.3, "")
    mat.setComposition(comp)
    es, f, a = c["e"], c["f"], c["a"]
    sin = abs(math.sin(math.radians(a))) if a != 90. else 1.0
    labels = ["nt"] if f > 0 else []
    what = "%s %r rho %r t %r funny %r angle %r" % (c["kind"], comp, c["rho"], c["t"], f, a)

    def make(cls, rho, t, ff=f):
        x = cls(name, rho, t, ff)
        if c["kind"] == "material":
            x.setMaterial(mat)
        return x
    try:
        if c["kind"] == "named":
            lib.addMaterial(mat, 0)
            pm = fisx.Material("Lay", 3.0, 0.3)
            pm.setComposition(comp)
            py.addMaterial(pm, 0)
        layer, det = make(vfx_ext.CLayer, c["rho"], c["t"]), make(vfx_ext.CDetector, c["rho"], c["t"])
        xrf = vfx_ext.CXRF()
        other = vfx_ext.CLayer(gen.sym(c["z"]), c["rho"], c["t"], f)
        lists = {"layer list": layer.getTransmissionV(es, lib, a), "detector list": det.getTransmissionV(es, lib, a),
                 "XRF list": xrf.getLayerTransmissionV(layer, es, lib, a),
                 "XRF list with composition": xrf.getLayerTransmissionV(layer, es, lib, a, normalise(comp)),
                 "XRF list with the composition of another layer": xrf.getLayerTransmissionV(other, es, lib, a, normalise(comp))}
        if c["kind"] != "material":
            lists["Python layer"] = fisx.Layer(name, c["rho"], c["t"], f).getTransmission(es, py, a)
            lists["Python detector"] = fisx.Detector(name, c["rho"], c["t"], f).getTransmission(es, py, a)
        else:
            pm = fisx.Material("Lay", 3.0, 0.3)
            pm.setComposition(comp)
            pl = fisx.Layer("", c["rho"], c["t"], f)
            pl.setMaterial(pm)
            lists["Python layer"] = pl.getTransmission(es, py, a)
        thick, dense = make(vfx_ext.CLayer, c["rho"], c["t"] * c["more"]), make(vfx_ext.CLayer, c["rho"] * c["more"], c["t"])
        s1, s2 = make(vfx_ext.CLayer, c["rho"], c["t"] * c["split"], 1.0), make(vfx_ext.CLayer, c["rho"], c["t"] * (1 - c["split"]), 1.0)
        whole = make(vfx_ext.CLayer, c["rho"], c["t"], 1.0)
        for i, e in enumerate(es):
            mu = m.mu_total(comp, e)
            chi = mu * c["rho"] * c["t"] / sin
            want = (1 - f) + f * math.exp(-chi)
            rel = (1e-6 if near_edge(uid, comp, e) else 1e-11) * (1 + chi)
            singles = {"layer": layer.getTransmission(e, lib, a), "detector": det.getTransmission(e, lib, a),
                       "XRF": xrf.getLayerTransmission(layer, e, lib, a),
                       "XRF with composition": xrf.getLayerTransmission(layer, e, lib, a, normalise(comp)),
                       "XRF with the composition of another layer": xrf.getLayerTransmission(other, e, lib, a, normalise(comp))}
            for k, v in lists.items():
                singles[k] = float(v[i])
            for k, v in singles.items():
                eq(v, want, "transmission (%s) of %s at %r" % (k, what, e), rel=rel, abs_=1e-300)
                check(0.0 <= v <= 1.0, "transmission (%s) of %s at %r is %r" % (k, what, e, v))
            v = singles["layer"]
            for k, x in (("thicker", thick), ("denser", dense)):
                y = x.getTransmission(e, lib, a)
                check(y <= v * (1 + 1e-12), "%s: the %s layer transmits more at %r: %r > %r" % (what, k, e, y, v))
            if chi < 600:
                p = s1.getTransmission(e, lib, a) * s2.getTransmission(e, lib, a)
                eq(p, whole.getTransmission(e, lib, a), "%s split in two at %r" % (what, e), rel=1e-12 * (1 + chi))
            # angle on the other side
            eq(layer.getTransmission(e, lib, -a), v, "%s at %r, opposite angle" % (what, e), rel=1e-12 * (1 + chi))
    finally:
        lib.removeMaterials()
        py.removeMaterials()
    return labels


# ------------------------------------------------------- materials known to the set-up only, unset density or thickness
@st.composite
def unset_cases(draw):
    uid = draw(gen.uids)
    v = st.sampled_from([None, 0.0, -1.0, 0.5, 2.5])
    return {"uid": uid, "comp": draw(gen.composition(uid, 1, 2)), "e": draw(gen.logfl(0.5, 100.)), "rho": draw(v), "t": draw(v),
            "mat": draw(st.booleans()), "mrho": draw(gen.fl(0.1, 5.)), "mt": draw(gen.logfl(1e-4, 0.1)), "cls": draw(st.sampled_from(["CLayer", "CDetector"])),
            "set": draw(st.lists(st.tuples(st.sampled_from(["Density", "Thickness"]), st.sampled_from([-1.0, 0.0, 0.7, 0.02])), max_size=3))}


def run_unset(c):
    import vfx_ext
    lib, m = gen.lib(c["uid"]), gen.model(c["uid"])
    rho, t = (0.0 if x is None else x for x in (c["rho"], c["t"]))
    name = sorted(c["comp"])[0]
    comp = {name: 1.0}
    layer = getattr(vfx_ext, c["cls"])(name, rho, t)
    for what, x in c["set"]:
        r = rejects(getattr(layer, "set" + what), x)
        check(r == (x <= 0), "set%s(%r) %s" % (what, x, "rejected" if r else "accepted"))
        if x > 0:
            rho, t = (x, t) if what == "Density" else (rho, x)
        eq(layer.getDensity(), rho, "density after set%s(%r)" % (what, x))
        eq(layer.getThickness(), t, "thickness after set%s(%r)" % (what, x))
    if c["mat"]:
        mat = vfx_ext.CMaterial("M", c["mrho"], c["mt"], "")
        mat.setComposition(c["comp"])
        layer.setMaterial(mat)
        comp = c["comp"]
        rho, t = (c["mrho"] if rho <= 0 else rho), (c["mt"] if t <= 0 else t)
        check(layer.hasMaterialComposition(), "material not kept")
    eq(layer.getDensity(), rho, "density")
    eq(layer.getThickness(), t, "thickness")
    xrf = vfx_ext.CXRF()
    calls = [lambda: layer.getTransmission(c["e"], lib, 90.), lambda: layer.getTransmissionV([c["e"]], lib, 90.)[0],
             lambda: layer.getTransmission(c["e"], lib, 45.), lambda: layer.getTransmissionV([c["e"]], lib, 45.)[0]]
    if c["cls"] == "CLayer":
        calls += [lambda: xrf.getLayerTransmission(layer, c["e"], lib, 90.), lambda: xrf.getLayerTransmission(layer, c["e"], lib, 45.)]
    for i, f in enumerate(calls):
        if rho * t <= 0:
            check(rejects(f), "transmission of a layer with density %r and thickness %r accepted" % (rho, t))
        elif rho > 0:
            s = 1.0 if i in (0, 1, 4) else math.sin(math.radians(45.))
            chi = m.mu_total(comp, c["e"]) * rho * t / s
            eq(f(), math.exp(-chi), "transmission %d" % i, rel=1e-10 * (1 + chi), abs_=1e-300)
    return ["nt"] if (c["mat"] or c["set"]) else []


TESTS = [Test("transmission", cases(), run, 4000, rule="layers by element, formula, material name or object, any angle and covered fraction; non-trivial: covered fraction > 0"),
         Test("unset", unset_cases(), run_unset, 1500, rule="layers with unset density or thickness, setters and materials with defaults; non-trivial: a material or a setter used")]
