"""C16 a beam is a sorted, normalised set of rays"""
import random

from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, close, eq, rejects


@st.composite
def rays(draw, minn=1):
    n = draw(gen.count(minn, 8, 60))
    e = draw(st.lists(gen.logfl(0.1, 200.), min_size=n, max_size=n))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        e[-1] = e[0]
    w = draw(st.sampled_from(["none", "one", "each", "each"]))
    ws = [] if w == "none" else [draw(gen.fl(0.1, 5.0))] if w == "one" else [draw(st.one_of(gen.fl(0.0, 3.0), gen.logfl(1e-6, 1e6))) for _ in e]
    if w == "each" and sum(ws) == 0:
        ws[0] = 1.0
    ch = draw(st.sampled_from(["none", "one", "each"]))
    cs = [] if ch == "none" else [draw(st.integers(0, 2))] if ch == "one" else [draw(st.integers(0, 2)) for _ in e]
    dv = draw(st.sampled_from(["none", "one", "each"]))
    ds = [] if dv == "none" else [draw(gen.fl(0, 1))] if dv == "one" else [draw(gen.fl(0, 1)) for _ in e]
    return [e, ws, cs, ds]


def expect(b):
    e, w, c, d = b
    n = len(e)
    w = [1.0] * n if not w else w * n if len(w) == 1 else w
    c = [1] * n if not c else c * n if len(c) == 1 else c
    d = [0.0] * n if not d else d * n if len(d) == 1 else d
    t = sum(w)
    return sorted(zip(e, [x / t if t > 0 else x for x in w], c, d))


def same(got, want, what):
    g = [list(x) for x in got]
    check(len(g) >= 2 and all(len(x) == len(want) for x in g), "%s: %d rays expected, got %r" % (what, len(want), [len(x) for x in g]))
    check(all(g[0][i] <= g[0][i + 1] for i in range(len(g[0]) - 1)), "%s: energies not increasing: %r" % (what, g[0]))
    rows = sorted(zip(*g))
    for r, w in zip(rows, want):
        for k in range(len(g)):
            check(close(r[k], w[k], 1e-12, 1e-300), "%s: ray %r expected %r" % (what, r, w[:len(g)]))
    if want and sum(w[1] for w in want) > 0:
        check(close(sum(g[1]), 1.0, 1e-12), "%s: weights add to %r" % (what, sum(g[1])))


@st.composite
def cases(draw):
    return {"first": draw(rays()), "second": draw(st.one_of(st.none(), rays())), "perm": draw(st.integers(0, 10 ** 6)), "k": draw(gen.logfl(1e-4, 1e4)),
            "single": draw(st.integers(0, 4))}


def run(c):
    import fisx
    import vfx_ext
    b = vfx_ext.CBeam()
    eq(b.get()[0], [], "energies of a new beam")
    seq = [c["first"]] + ([c["second"]] if c["second"] else [])
    for x in seq:
        b.setBeam(*x)
        same(b.get(), expect(x), "beam %r" % x)
    x = seq[-1]
    e, w, ch, dv = x
    n = len(e)
    order = list(range(n))
    random.Random(c["perm"]).shuffle(order)
    y = [[e[i] for i in order], [w[i] for i in order] if len(w) == n and n > 1 else w, [ch[i] for i in order] if len(ch) == n and n > 1 else ch,
         [dv[i] for i in order] if len(dv) == n and n > 1 else dv]
    b2 = vfx_ext.CBeam()
    b2.setBeam(y[0], [v * c["k"] for v in y[1]], y[2], y[3])
    same(b2.get(), expect(x), "beam %r reordered and scaled" % x)
    # arrays
    full = [list(v) for v in zip(*expect(x))]
    ar = vfx_ext.CBeam()
    ar.setBeamArrays(e, w if len(w) == n else None, ch if len(ch) == n else None, dv if len(dv) == n else None)
    same(ar.get(), expect([e, w if len(w) == n else [], ch if len(ch) == n else [], dv if len(dv) == n else []]), "beam from arrays %r" % x)
    ar.setBeam([1.0, 2.0, 3.0])
    ar.setBeamArraysD(e, w if len(w) == n else None, ch if len(ch) == n else None, dv if len(dv) == n else None)
    same(ar.get(), expect([e, w if len(w) == n else [], ch if len(ch) == n else [], dv if len(dv) == n else []]), "beam from arrays of double %r" % x)
    p = fisx.Beam()
    p.setBeam(e, w if len(w) == n else None)
    same(p.getBeamAsDoubleVectors(), [r[:2] for r in expect([e, w if len(w) == n else [], [], []])], "Python beam %r" % x)
    # through the set-up
    xrf, px = vfx_ext.CXRF(), fisx.XRF()
    xrf.setBeamO(b)
    same(xrf.getBeam(), expect(x), "beam of the set-up")
    xrf.setBeam(c["first"][0], c["first"][1], c["first"][2], c["first"][3])
    same(xrf.getBeam(), expect(c["first"]), "beam of the set-up (lists)")
    b.setBeam(c["first"][0])
    same(xrf.getBeam(), expect(c["first"]), "beam of the set-up after changing the object it came from")
    xrf.setSingleEnergyBeam(e[0], 0.25)
    same(xrf.getBeam(), [(e[0], 1.0, 1, 0.25)], "single energy beam")
    b.setSingleEnergyBeam(e[0], 0.5)
    same(b.get(), [(e[0], 1.0, 1, 0.5)], "single energy beam object")
    xrf.setBeam(y[0], y[1], y[2], y[3])
    same(xrf.getBeam(), expect(x), "beam of the set-up set again")
    for bad in ("w", "c", "d"):
        if n > 2:
            a = [e, w, ch, dv]
            a["ewcd".index(bad)] = [1] * (n - 1)
            old = b.get()
            check(rejects(b.setBeam, *a), "%d energies with %d values of %s accepted" % (n, n - 1, bad))
            eq(b.get(), old, "beam after a rejected one")
    return ["nt"] if n > 1 else []


TESTS = [Test("beams", cases(), run, 8000, rule="one or two beams set in sequence, weights, flags and divergencies missing, single or per ray; non-trivial: two or more rays")]
