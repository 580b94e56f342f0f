"""C04 tabulated photon cross sections are reproduced and log-log interpolated"""
import functools

from hypothesis import strategies as st

from .. import gen, model, universe
from ..harness import Test, check, close, eq, fail
from ..universe import PARTIALS, SUBSHELLS

ALL = PARTIALS + ["coherent", "compton", "pair", "photoelectric", "total"]


@functools.lru_cache(maxsize=16)
def epdl(uid):
    import vfx_ext
    return vfx_ext.CEPDL97(universe.get(uid).dir)


@functools.lru_cache(maxsize=16)
def epdl_model(uid):
    return model.EPDLModel(universe.get(uid))


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    es = draw(gen.lists(gen.energies(uid, z, lo=0.0011, hi=990.0), 1, 6))
    return {"uid": uid, "z": z, "e": es}


def labels(u, z, es):
    out = set()
    xs = [r[0] for r in u.epdl[z]]
    bs = u.binding[z]
    for e in es:
        if e in xs:
            out.add("at-table-point")
            if xs.count(e) > 1:
                out.add("at-edge")
        if any(abs(e - b) < 2e-3 * b for s, b in bs.items() if s in SUBSHELLS and b > 0):
            out.add("near-binding")
    if sum(1 for s in SUBSHELLS if 0 < bs[s] < max(es)) >= 1:
        out.add("nt")
    return out


def eq_table(got, want, what):
    eq(sorted(got), sorted(want), what + " keys")
    for k in want:
        eq(len(got[k]), len(want[k]), what + " length " + k)
        for i, x in enumerate(want[k]):
            eq(got[k][i], x, "%s %s[%d]" % (what, k, i), abs_=1e-11 * want["total"][i])


def invariants(r, what):
    eq(r["photoelectric"], sum(r[s] for s in PARTIALS), what + " photoelectric vs sum of parts")
    eq(r["total"], r["photoelectric"] + r["coherent"] + r["compton"] + r.get("pair", 0.0), what + " total vs parts")


def run_tables(c):
    """the cross section tables themselves"""
    u = universe.get(c["uid"])
    lib, m = epdl(c["uid"]), epdl_model(c["uid"])
    z, es = c["z"], c["e"]
    for e in es:
        r = lib.getMu(z, e)
        want = m.get(z, e)
        eq(r, want, "EPDL97 z=%d e=%r" % (z, e), abs_=1e-11 * want["total"])
        invariants(r, "EPDL97 z=%d e=%r" % (z, e))
        w = lib.getWeights(z, e)
        for s in PARTIALS:
            x = want[s] / want["photoelectric"] if want["photoelectric"] > 1e-10 else 0.0
            eq(w[s], x, "weight of %s z=%d e=%r" % (s, z, e), abs_=1e-10)
    v = lib.getMuV(z, es)
    for i, e in enumerate(es):
        want = m.get(z, e)
        for k in ALL:
            eq(v[k][i], want[k], "EPDL97 list z=%d e[%d]=%r %s" % (z, i, e, k), abs_=1e-11 * want["total"])
    wv = lib.getWeightsV(z, es)
    for i, e in enumerate(es):
        for s in PARTIALS:
            want = m.get(z, e)
            x = want[s] / want["photoelectric"] if want["photoelectric"] > 1e-10 else 0.0
            eq(wv[s][i], x, "weights list z=%d e[%d]=%r %s" % (z, i, e, s), abs_=1e-10)
    eq_table(lib.getMuTable(z), m.full_table(z), "EPDL97 table z=%d" % z)
    return labels(u, z, es)


def near_edge(u, z, e):
    """inside the 1 eV/1000 step that represents an edge the interpolation is ill conditioned"""
    xs = [r[0] for r in u.epdl[min(z, u.nscans)]]
    return any(abs(e - xs[i]) < 3e-6 for i in range(1, len(xs)) if xs[i] == xs[i - 1])


def run_library(c):
    """the same through the element library"""
    u = universe.get(c["uid"])
    lib, py, lm = gen.lib(c["uid"]), gen.pylib(c["uid"]), gen.model(c["uid"])
    z, es = c["z"], c["e"]
    name = gen.sym(z)
    em = lm.el(name)
    want = [em.get_mu(e) for e in es]
    for e, w in zip(es, want):
        r = lib.getMu(name, e)
        rel = 1e-6 if near_edge(u, z, e) else 1e-9
        eq(r, w, "%s e=%r" % (name, e), rel=rel, abs_=1e-11 * w["total"])
        invariants(r, "%s e=%r" % (name, e))
        for s in SUBSHELLS:
            b = u.binding[z][s]
            if b <= 0 or e < b:
                check(r[s] == 0.0, "%s %s is photoionised at %r below its binding energy %r" % (name, s, e, b))
    v = py.getElementMassAttenuationCoefficients(name, es)
    for k in ALL:
        for i, w in enumerate(want):
            rel = 1e-6 if near_edge(u, z, es[i]) else 1e-9
            eq(v[k][i], w[k], "%s list %s %r" % (name, k, es[i]), rel=rel, abs_=1e-11 * w["total"])
    eq_table(lib.getMuTable(name), em.mu, "table of %s" % name)
    return labels(u, z, es)


def run_points(c):
    """table energies give back the file's own numbers"""
    u = universe.get(c["uid"])
    lib = epdl(c["uid"])
    el = gen.lib(c["uid"])
    out = set()
    z = c["z"]
    rows = u.epdl[z]
    xs = [r[0] for r in rows]
    for i in c["i"]:
        i %= len(rows)
        e = xs[i]
        if xs.count(e) > 1:
            i = max(j for j, x in enumerate(xs) if x == e)      # the upper value
            out.add("at-edge")
        r, r2 = lib.getMu(z, e), el.getMu(gen.sym(z), e)
        for what, x in (("EPDL97", r), ("library", r2)):
            eq(x["coherent"], rows[i][1], "%s coherent z=%d at table energy %r" % (what, z, e))
            eq(x["compton"], rows[i][2], "%s compton z=%d at table energy %r" % (what, z, e))
        for k, s in enumerate(SUBSHELLS):
            b = u.binding[z][s]
            if b > 0 and e >= b and rows[i][7 + k] > 0:
                eq(r[s], rows[i][7 + k], "EPDL97 %s z=%d at table energy %r" % (s, z, e))
                eq(r2[s], rows[i][7 + k], "library %s z=%d at table energy %r" % (s, z, e))
                out.add("nt")
            if b <= 0 or e < b:
                eq(r[s], 0.0, "EPDL97 %s z=%d at %r below binding" % (s, z, e))
    return out


@st.composite
def history(draw):
    """many look-ups on one object, each answer must be the one of a new object"""
    uid = draw(gen.uids)
    qs = []
    for _ in range(draw(st.integers(2, 12))):
        z = draw(gen.element(uid))
        e = draw(st.one_of(gen.energies(uid, z, lo=0.0011, hi=990.), st.sampled_from([0.0005, 1000.0, 1500.0, 0.001, 5000.0])))
        qs.append([z, e])
    return {"uid": uid, "q": qs}


def run_history(c):
    lib = epdl(c["uid"])
    m = epdl_model(c["uid"])
    for z, e in c["q"]:
        w = m.get(z, e)
        eq(lib.getMu(z, e), w, abs_=1e-11 * w["total"], what="after %r: EPDL97 z=%d e=%r" % (c["q"], z, e))
    return ["nt"] + (["outside-table"] if any(e < 0.001 or e > 1000 for _, e in c["q"]) else [])


@st.composite
def rebinding(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    f = [draw(st.sampled_from([1.0, 0.9, 1.1, 0.0, 0.99, 1.01])) for _ in SUBSHELLS]
    es = draw(gen.lists(gen.energies(uid, z, lo=0.0011, hi=990.0), 1, 5))
    return {"uid": uid, "z": z, "f": f, "e": es}


def run_rebinding(c):
    """other binding energies given to the cross section object are the ones in force, for that element only"""
    import vfx_ext
    u = universe.get(c["uid"])
    z = c["z"]
    b = dict(u.binding[z])
    for s, f in zip(SUBSHELLS, c["f"]):
        b[s] = b[s] * f
    # a shell the table does not have at all cannot be extrapolated
    for k, s in enumerate(SUBSHELLS):
        if sum(1 for r in u.epdl[z] if r[7 + k] > 0) < 3:
            b[s] = 0.0
    o = vfx_ext.CEPDL97(u.dir)
    o.setBindingEnergies(z, b)
    allb = dict(u.binding)
    allb[z] = b
    m = model.EPDLModel(u, allb)
    if z < u.NROWS:
        eq(o.getBindingEnergies(z), b, "binding energies set")
    for e in c["e"]:
        w = m.get(z, e)
        eq(o.getMu(z, e), w, abs_=1e-11 * w["total"], what="EPDL97 with own binding energies z=%d e=%r" % (z, e))
        z2 = next(x for x in u.rich if x != z)
        w = m.get(z2, e)
        eq(o.getMu(z2, e), w, abs_=1e-11 * w["total"], what="other element z=%d e=%r" % (z2, e))
    return ["nt"]


@st.composite
def points(draw):
    uid = draw(gen.uids)
    return {"uid": uid, "z": draw(gen.element(uid)), "i": draw(st.lists(st.integers(0, 60), min_size=1, max_size=8))}


TESTS = [
    Test("tables", cases(), run_tables, 6000, rule="synthetic table, element and energies (table points, edges, binding energies +-); non-trivial: some shell is ionised"),
    Test("library", cases(), run_library, 6000, rule="the same through Elements (C++ and Python routes)"),
    Test("points", points(), run_points, 4000, rule="energies of the table; non-trivial: a shell has a value there"),
    Test("history", history(), run_history, 3000, rule="sequences of look-ups in and outside the table range on one object"),
    Test("rebinding", rebinding(), run_rebinding, 1200, rule="binding energies replaced on the cross-section object"),
]
