"""C19 secondary fluorescence equals the enhancement integrals"""
import math

from hypothesis import strategies as st

from .. import gen, xrfgen
from ..harness import Test, check, eq
from ..xrfmodel import Model, build, register
from .c06 import near_edge
from .c18 import ask, plain

FIXED = {"energy", "energy_threshold", "efficiency", "mu_1_i", "rate", "primary", "secondary", "massFraction", "tertiary", "factor", "ratio"}


@st.composite
def cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=2, extras=draw(st.integers(0, 3)) == 0, maxn=3, hi=draw(st.sampled_from([1.0, 10.0, 60.0, 3000.0]))))
    return {"s": s, "r": draw(xrfgen.requests(s, maxn=2)), "mf": draw(st.integers(0, 1)), "lim": draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, 20.0])),
            "sec": draw(st.sampled_from([1, 1, 2])), "form": draw(st.integers(0, 2))}


def run(c):
    import vfx_ext
    s, reqs = c["s"], c["r"]
    lib, m = gen.lib(s["uid"]), Model(s, gen.model(s["uid"]))
    labels = set()
    try:
        register(lib, s, vfx_ext)
        xrf = build(s, vfx_ext)
        got = ask(xrf, lib, reqs, c["sec"], 0, c["mf"], c["lim"], form=c["form"])
    finally:
        lib.removeMaterials()
    loose = any(near_edge(s["uid"], sorted(set(k for l in s["sample"] + s.get("filters", []) for k in l["comp"])), e) for e, _ in s["beam"])
    for el, fam, lay in reqs:
        key = el + " " + fam
        for i in range(len(s["sample"])):
            if lay >= 0 and i != lay:
                continue
            g = plain(got.get(key, {}).get(i, {}))
            if not g:
                continue
            want = m.secondary(el, fam, i, c["mf"], c["lim"])
            for line in sorted(g):
                if line not in want:
                    continue
                d = g[line]
                what = "%s %s in layer %d" % (key, line, i)
                contrib = {k: v for k, v in d.items() if k not in FIXED}
                total = sum(contrib.values())
                eq(d["secondary"], total, "secondary of %s against its contributions" % what, rel=1e-9, abs_=1e-13 * sum(map(abs, contrib.values())))
                wsum = wtol = 0.0
                for k in sorted(set(contrib) | set(want[line])):
                    v, tol, zero = want[line].get(k, [0.0, 0.0, True])
                    expo = 1e-9 * (1 - math.log(max(d["primary"], 1e-300)) if d["primary"] < 1 else 1)
                    tol += abs(v) * (expo + (1e-5 if loose else 0.0)) + 1e-290
                    wsum, wtol = wsum + v, wtol + tol
                    x = contrib.get(k)
                    if x is None:
                        check(zero or abs(v) <= tol + 1e-25, "%s: contribution of %s missing, expected %r" % (what, k, v))
                        continue
                    # (tol: accuracy of the approximations; it scales with the terms of the closed form)
                    eq(x, v, "contribution of %s to %s" % (k, what), rel=0, abs_=tol)
                    check(x >= -tol, "contribution of %s to %s is %r" % (k, what, x))
                    if v > 1e-6 * d["primary"] > 0 and tol < 0.01 * v:
                        labels.add("nt")
                        labels.add("coherent" if k.startswith("coh") else "line")
                        labels.add("intra" if int(k[-2:]) == i else "case a" if int(k[-2:]) > i else "case b")
                if wtol < 0.01 * wsum:
                    eq(d["secondary"], wsum, "secondary of %s" % what, rel=0, abs_=wtol)
    return sorted(labels)


TESTS = [Test("secondary", cases(), run, 1500, rule="every contribution to every requested line; non-trivial: a contribution above 1e-6 of the primary known to 1 %")]
