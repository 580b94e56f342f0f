"""C14 geometric efficiency is the solid angle of the detector"""
import math

from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, rejects


@st.composite
def cases(draw):
    val = st.one_of(gen.logfl(1e-3, 100.), gen.logfl(1e-9, 1e-3), st.sampled_from([0.0, -1.0, 1.0]))
    ops = draw(st.lists(st.tuples(st.sampled_from(["Diameter", "ActiveArea", "Distance"]), val), max_size=5))
    n = draw(gen.count(1, 5, 14))
    return {"ops": [list(o) for o in ops], "t": [draw(gen.logfl(1e-5, 3.0)) for _ in range(n)], "ref": draw(st.integers(0, n - 1)),
            "in": draw(gen.fl(1., 90.)), "out": draw(st.one_of(st.just(45.), st.just(90.), gen.fl(1., 90.))), "scat": draw(st.sampled_from([-90., 0., 90.])),
            "order": draw(st.permutations([0, 1, 2])), "badref": draw(st.sampled_from([-1, n, n + 3]))}


def run(c):
    import fisx
    import vfx_ext
    d, p = vfx_ext.CDetector("Si", 2.33, 0.1), fisx.Detector("Si", 2.33, 0.1)
    dia, dist = 0.0, 10.0
    eq(d.getDistance(), 10.0, "default distance")
    eq(d.getDiameter(), 0.0, "default diameter")
    for what, v in c["ops"]:
        bad = v <= 0 if what == "Distance" else v < 0
        for x in (d, p):
            r = rejects(getattr(x, "set" + what), v)
            check(r == bad, "set%s(%r) %s" % (what, v, "rejected" if r else "accepted"))
        if not bad:
            if what == "Diameter":
                dia = v
            elif what == "ActiveArea":
                dia = 2.0 * math.sqrt(v / math.pi)
            else:
                dist = v
        for x in (d, p):
            eq(x.getDiameter(), dia, "diameter after set%s(%r)" % (what, v), rel=1e-13)
            eq(x.getActiveArea(), math.pi / 4 * dia * dia, "area after set%s(%r)" % (what, v), rel=1e-13)
            eq(x.getDistance(), dist, "distance after set%s(%r)" % (what, v), rel=1e-13)
    layers = [vfx_ext.CLayer("Si", 1.0, t) for t in c["t"]]
    xrf, pxrf = vfx_ext.CXRF(), fisx.XRF()
    check(xrf.getReferenceLayer() == 0, "reference layer of a new set-up is %r" % xrf.getReferenceLayer())
    steps = [lambda: xrf.setSample(layers, c["ref"]), lambda: xrf.setDetector(d), lambda: xrf.setGeometry(c["in"], c["out"], c["scat"])]
    psteps = [lambda: pxrf.setSample([["Si", 1.0, t] for t in c["t"]], c["ref"]), lambda: pxrf.setDetector(p), lambda: pxrf.setGeometry(c["in"], c["out"], c["scat"])]
    for i in c["order"]:
        steps[i]()
        psteps[i]()
    check(rejects(xrf.setSample, layers, c["badref"]), "reference layer %d accepted for %d layers" % (c["badref"], len(layers)))
    eq(xrf.getAlphaIn(), c["in"], "incoming angle")
    eq(xrf.getAlphaOut(), c["out"], "outgoing angle")
    eq(xrf.getScatteringAngle(), c["in"] + c["out"] if c["scat"] < 0 else c["scat"], "scattering angle")
    sin = math.sin(math.radians(c["out"]))
    ref = c["ref"]
    prev = None
    for i in range(len(layers)):
        if i >= ref:
            x = dist + sum(c["t"][ref:i]) / sin
        else:
            x = dist - sum(c["t"][i:ref]) / sin
        want = 1.0 if dia == 0 else 0.5 * (1 - x / math.hypot(x, dia / 2))
        got = xrf.getGeometricEfficiency(i)
        tol = 1e-12 + (4e-16 / want if want > 0 else 0)
        if want > 1e-13:
            eq(got, want, "geometric efficiency of layer %d (reference %d)" % (i, ref), rel=tol * 4 + 1e-11, abs_=4e-16)
        eq(pxrf.getGeometricEfficiency(i), got, "geometric efficiency of layer %d (Python)" % i, rel=1e-13, abs_=1e-17)
        check(0.0 <= got <= 1.0, "geometric efficiency of layer %d is %r" % (i, got))
        if prev is not None:
            check(got <= prev + 1e-15, "geometric efficiency grows from %r to %r with depth" % (prev, got))
        prev = got
    if dia > 0:
        check(rejects(xrf.getGeometricEfficiency, -1), "layer -1 accepted")
        check(rejects(xrf.getGeometricEfficiency, len(layers)), "layer %d of %d accepted" % (len(layers), len(layers)))
    # further away
    d2 = xrf.getDetector()
    d2.setDistance(dist * 2)
    before = xrf.getGeometricEfficiency(ref)
    xrf.setDetector(d2)
    check(xrf.getGeometricEfficiency(ref) <= before, "efficiency grows with the distance")
    return ["nt"] if dia > 0 and len(layers) > 1 else []


TESTS = [Test("geometry", cases(), run, 6000, rule="setter sequences, stacks of 1..5 layers and reference layer; non-trivial: a diameter and at least two layers")]
