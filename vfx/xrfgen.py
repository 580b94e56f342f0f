"""Generators of XRF set-ups (see xrfmodel)."""
import math

from hypothesis import strategies as st

from . import gen, universe
from .model import normalise


def usable(uid):
    """elements whose lines have energies one can work with"""
    return [z for z in gen.rich(uid) if z >= 5]


@st.composite
def layer(draw, uid, e, lo=1e-3, hi=20.0, els=None, funny=False, maxn=3, idx=0):
    """a layer whose optical thickness at e is between lo and hi"""
    zs = els or usable(uid)
    n = min(len(zs), draw(gen.count(1, maxn, 8)) if maxn > 2 else draw(st.integers(1, maxn)))
    zs = draw(st.permutations(zs))[:n]
    comp = {gen.sym(z): draw(st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.01, 0.003, 2.0])) for z in zs}
    kind = draw(st.sampled_from(["material", "material", "named"]))
    if len(comp) == 1 and draw(st.booleans()):
        kind = "element"
    if kind == "element":
        name = sorted(comp)[0]
    else:
        name = "Mat%d" % idx
    mu = gen.model(uid).mu_total(comp, e)
    tau = draw(gen.logfl(lo, hi, 4))
    rho = draw(st.sampled_from([1.0, 2.33, 0.01, 7.874, 19.3]))
    if not mu > 1e-12:
        mu = 1.0
    return {"comp": comp, "kind": kind, "name": name, "rho": rho, "t": gen.round_sig(tau / mu / rho, 6),
            "f": draw(st.sampled_from([1.0, 1.0, 0.5, 0.9])) if funny else 1.0}


@st.composite
def table(draw):
    n = draw(gen.count(1, 5, 30))
    es = sorted(set(draw(st.lists(gen.logfl(0.1, 150., 4), min_size=n, max_size=n))))
    return [es, [draw(gen.fl(0.05, 1.0, 4)) for _ in es]]


angle = st.one_of(st.just(45.), st.just(45.), st.just(90.), gen.fl(5., 90., 4), gen.fl(0.5, 10., 4), gen.fl(90., 175., 4))


@st.composite
def setup(draw, maxlayers=3, maxrays=3, extras=True, maxn=3, hi=15.0, detector=True, big=True):
    uid = draw(gen.uids)
    u = universe.get(uid)
    nl = draw(gen.count(1, maxlayers, maxlayers + 4)) if big else draw(st.integers(1, maxlayers))
    # the element to be excited, and an energy that does it
    zs = [z for z in usable(uid) if z <= u.NROWS]
    z0 = draw(st.sampled_from(zs))
    bs = [b for s, b in u.binding[z0].items() if s in ("K", "L1", "L2", "L3", "M1", "M5") and 0.2 < b < 120]
    b = draw(st.sampled_from(sorted(bs))) if bs else 5.0
    nr = draw(gen.count(1, maxrays, maxrays + 9)) if big else draw(st.integers(1, maxrays))
    beam = []
    for i in range(nr):
        f = draw(st.sampled_from([1.01, 1.1, 1.3, 2.0, 3.0]) if i == 0 else st.sampled_from([0.9, 1.02, 1.2, 1.5, 2.5, 4.0]) if nr <= maxrays else gen.fl(0.5, 4.0, 4))
        beam.append([gen.round_sig(b * f, 6), draw(st.sampled_from([1.0, 0.5, 0.25, 2.0, 0.01]))])
    seen = set()
    beam = [x for x in beam if not (x[0] in seen or seen.add(x[0]))]
    e = beam[0][0]
    pool = [z0] + draw(gen.lists(st.sampled_from(usable(uid)), 1, 4, 8) if big else st.lists(st.sampled_from(usable(uid)), min_size=1, max_size=4))
    pool = sorted(set(pool))
    sample = [draw(layer(uid, e, 1e-3, hi, pool, maxn=maxn, idx=i)) for i in range(nl)]
    s = {"uid": uid, "beam": beam, "sample": sample, "ref": draw(st.integers(0, nl - 1)),
         "geo": [draw(angle), draw(angle), -90.0]}
    # most of the time the element is there
    if draw(st.integers(0, 5)):
        l = sample[draw(st.integers(0, nl - 1))]
        if gen.sym(z0) not in l["comp"]:
            l["comp"][gen.sym(z0)] = draw(st.sampled_from([1.0, 0.5, 0.1]))
            l["kind"], l["name"] = "material", "Mat"
    if extras:
        if draw(st.booleans()):
            s["filters"] = [draw(layer(uid, e, 1e-3, 3., funny=True, idx=10 + i)) for i in range(draw(gen.count(1, 2, 5)))]
        if draw(st.integers(0, 3)) == 0:
            s["ufilters"] = [draw(table()) for _ in range(draw(gen.count(1, 2, 5, often=5)))]
        if draw(st.booleans()):
            s["attenuators"] = [draw(layer(uid, e, 1e-3, 3., funny=True, idx=20 + i)) for i in range(draw(gen.count(1, 2, 5)))]
        if draw(st.integers(0, 3)) == 0:
            s["uatt"] = [draw(table()) for _ in range(draw(gen.count(1, 2, 5, often=5)))]
    if detector and extras and draw(st.booleans()):
        # one time in four a detector of an element that escapes a lot for the lines of the sample
        near = [z for z in usable(uid) if any(0.3 * b < x < 0.97 * b for s_, x in u.binding[min(z, 100)].items() if s_ in ("K", "L3"))]
        els = [draw(st.sampled_from(near))] if near and not draw(st.integers(0, 3)) else None
        s["det"] = {"layer": draw(st.one_of(st.none(), layer(uid, e, 1e-2, 20., els=els, funny=False, idx=30))),
                    "diameter": draw(st.one_of(st.just(0.0), gen.logfl(0.1, 3., 4))), "distance": draw(gen.logfl(1., 20., 4)),
                    "it": draw(st.sampled_from([None, 1e-4, 1e-6]))}
    return s


def families(uid, el):
    b = universe.get(uid).binding[min(universe.SYMBOLS.index(el) + 1, 100)]
    r = [f for f in ("K", "L", "M") if any(k.startswith(f) and v > 0 for k, v in b.items())]
    if "K" in r:
        r += ["Ka", "Kb"]
    r += [s for s in ("L1", "L2", "L3", "M1", "M5") if b.get(s, 0) > 0]
    return r or ["K"]


@st.composite
def requests(draw, s, maxn=3, big=True):
    """[[element, family, layer]], layer -1: all"""
    els = sorted(set(k for l in s["sample"] for k in l["comp"]))
    out = []
    m = gen.model(s["uid"])
    emax = max(e for e, _ in s["beam"])
    for _ in range(draw(gen.count(1, maxn, maxn + 6)) if big else draw(st.integers(1, maxn))):
        el = draw(st.sampled_from(els))
        fams = families(s["uid"], el)
        good = [f for f in fams if m.el(el).binding.get({"K": "K", "L": "L3", "M": "M5"}.get(f[0], "K"), 0) < emax or f[0] != "K"]
        f = draw(st.sampled_from(good or fams))
        r = [el, f, draw(st.sampled_from([-1, -1] + list(range(len(s["sample"])))))]
        if all(x[:2] != r[:2] for x in out):
            out.append(r)
    return out
