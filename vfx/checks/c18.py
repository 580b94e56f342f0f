"""C18 primary fluorescence equals the fundamental-parameters formula"""
from hypothesis import strategies as st

from .. import gen, xrfgen
from ..harness import Test, check, close, eq
from ..xrfmodel import Model, build, register
from .c06 import near_edge


def loosen(s, e):
    return near_edge(s["uid"], sorted(set(k for l in s["sample"] + s.get("filters", []) for k in l["comp"])), e)


def name(r):
    return r[0] + " " + r[1]


def ask(xrf, lib, reqs, sec=0, geo=1, mf=0, lim=0.0, form=0, beam=None):
    """the answer, in one of the request forms"""
    if form == 0:
        return xrf.fluo(["%s %s" % (r[0], r[1]) if r[2] < 0 else "%s %s %d" % tuple(r) for r in reqs], lib, sec, geo, mf, lim, beam)
    if form == 1:
        return xrf.fluoL([r[0] for r in reqs], lib, [r[2] for r in reqs], [r[1] for r in reqs], sec, geo, mf, lim, beam)
    out = {}
    for r in reqs:
        for i in ([r[2]] if r[2] >= 0 else range(len(xrf.getSample()))):
            a = xrf.fluo1(r[0], lib, i, r[1], sec, geo, mf, lim, beam)
            for k in a:
                for l in a[k]:
                    out.setdefault(k, {})[l] = a[k][l]
    return out


def plain(d):
    """lines that are not escape peaks"""
    return {k: v for k, v in d.items() if "esc" not in k}


@st.composite
def cases(draw):
    s = draw(xrfgen.setup(maxlayers=4, maxrays=4, hi=60.))
    return {"s": s, "r": draw(xrfgen.requests(s)), "mf": draw(st.integers(0, 1)), "form": draw(st.integers(0, 2)), "more": draw(gen.fl(1.01, 3.0))}


def run(c):
    import vfx_ext
    s, reqs = c["s"], c["r"]
    lib, m = gen.lib(s["uid"]), Model(s, gen.model(s["uid"]))
    labels = []
    try:
        register(lib, s, vfx_ext)
        xrf = build(s, vfx_ext)
        got = ask(xrf, lib, reqs, 0, 1, c["mf"], form=c["form"])
        loose = any(loosen(s, e) for e, _ in s["beam"])
        known = set()
        for el, fam, lay in reqs:
            key = el + " " + fam
            known.add(key)
            for i in range(len(s["sample"])):
                if lay >= 0 and i != lay:
                    check(not plain(got.get(key, {}).get(i, {})), "%s asked in layer %d, reported in layer %d" % (key, lay, i))
                    continue
                want = m.lines(el, fam, i, c["mf"])
                g = plain(got.get(key, {}).get(i, {}))
                what = "%s in layer %d" % (key, i)
                if set(g) != set(want):
                    odd = set(g) ^ set(want)
                    check(all(g.get(x, want.get(x))["primary"] == 0 for x in odd), "%s: lines %r, expected %r" % (what, sorted(g), sorted(want)))
                for line in sorted(set(g) & set(want)):
                    w = want[line]
                    tol = w["tol"] + (1e-5 * w["primary"] if loose else 0.0)
                    eq(g[line]["primary"], w["primary"], "primary of %s %s" % (what, line), rel=0, abs_=tol + 1e-290)
                    eq(g[line]["energy"], w["energy"], "energy of %s %s" % (what, line))
                    eq(g[line]["mu_1_i"], w["mu"], "mu_1_i of %s %s" % (what, line), rel=1e-6 if near_edge(s["uid"], s["sample"][i]["comp"], w["energy"]) else 1e-9)
                    eq(g[line]["energy_threshold"], w["threshold"], "threshold of %s %s" % (what, line))
                    eq(g[line]["massFraction"], w["massFraction"], "mass fraction of %s %s" % (what, line))
                    eq(g[line]["secondary"], 0.0, "secondary of %s %s" % (what, line))
                    check(g[line]["primary"] >= 0, "negative primary of %s %s" % (what, line))
                    if w["primary"] > 1e-200:
                        labels.append("nt")
                        if len(w["rays"]) > 1:
                            labels.append("several rays")
                        if i > 0:
                            labels.append("buried")
        check(set(got) <= known, "unexpected %r" % sorted(set(got) - known))
        # thicker element layer: more, up to the infinitely thick one
        prev = got
        for k in (c["more"], 1e6):
            for key in sorted(prev):
                for i in sorted(prev[key]):
                    t = dict(s, sample=[dict(l, t=l["t"] * k) if j == i else l for j, l in enumerate(s["sample"])])
                    el, fam = key.split(" ")
                    a = xrf2 = build(t, vfx_ext).fluo1(el, lib, i, fam, 0, 1, c["mf"])
                    a = plain(a.get(key, {}).get(i, {}))
                    for line, d in plain(prev[key][i]).items():
                        if d["primary"] > 0:
                            check(line in a and a[line]["primary"] >= d["primary"] * (1 - 1e-12),
                                  "%s layer %d %s decreases from %r to %r with the thickness" % (key, i, line, d["primary"], a.get(line, {}).get("primary")))
    finally:
        lib.removeMaterials()
    return labels


TESTS = [Test("primary", cases(), run, 2500, rule="stacks of 1..4 layers, 1..4 rays, filters, any geometry; non-trivial: a line with primary intensity compared")]
