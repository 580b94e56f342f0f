"""C05 user-supplied attenuation tables override consistently"""
import math

from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, eq, rejects
from ..model import PROCESSES, ElementModel, override_mu
from ..universe import PARTIALS, SUBSHELLS

KINDS = ["coherent", "compton", "pair"]


def dups(xs):
    return [xs[i] for i in range(1, len(xs)) if xs[i] - xs[i - 1] < 2e-6]


def near(xs, e):
    return any(abs(e - x) < 4e-6 for x in xs)


def finite(em, s, x):
    try:
        return em.get_partial_one(s, x) < 1e100
    except OverflowError:
        return False


@st.composite
def grid(draw, lo=0.001, hi=1000., minsize=2, maxsize=12):
    es = draw(gen.lists(gen.logfl(lo, hi), minsize, maxsize, unique=True))
    return sorted(es)


def values(n, zero=False):
    v = gen.logfl(1e-4, 1e4)
    if zero:
        v = st.one_of(v, v, v, st.just(0.0))
    return st.lists(v, min_size=n, max_size=n)


@st.composite
def queries(draw, xs, extra=()):
    out = []
    for _ in range(draw(gen.count(1, 5, 30))):
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(draw(st.sampled_from(xs)))
        elif k == 1 and len(xs) > 1:
            i = draw(st.integers(0, len(xs) - 2))
            t = draw(gen.fl(0.01, 0.99))
            out.append(gen.round_sig(xs[i] + t * (xs[i + 1] - xs[i]), 9))
        elif k == 2 and extra:
            b = draw(st.sampled_from(extra))
            out.append(b * draw(st.sampled_from([1.0, 1.0, 1 + 1e-6, 1 - 1e-6, 1.01, 0.99])))
        else:
            out.append(draw(gen.logfl(xs[0], xs[-1])))
    return [min(max(x, xs[0]), xs[-1]) for x in out]


# ------------------------------------------------------------ an element by itself
@st.composite
def element_cases(draw):
    n = draw(st.integers(0, len(SUBSHELLS)))
    b, binding = draw(gen.logfl(0.05, 100.)), {}
    for s in SUBSHELLS[:n]:
        binding[s] = b if draw(st.integers(0, 9)) else 0.0
        b = gen.round_sig(b * draw(gen.fl(0.2, 0.97)))
    xs = draw(grid(minsize=2))
    extra = [x for x in binding.values() if x > 0]
    # energies of some edges are repeated in the main table
    rep = sorted(draw(st.lists(st.sampled_from(xs), max_size=2, unique=True))) if draw(st.booleans()) else []
    main = sorted(xs + rep)
    c = {"binding": binding, "e": main, "pair": draw(st.booleans()), "partial": {}}
    for k in ["photoelectric", "coherent", "compton", "pairv"]:
        c[k] = draw(values(len(main), zero=k == "pairv"))
    for s in SUBSHELLS[:n] + ["all other"]:
        if not draw(st.integers(0, 3)):
            continue
        px = draw(grid(lo=0.0005, hi=2000., minsize=2, maxsize=8)) if draw(st.booleans()) else list(xs)
        px = [0.0005] + px + [2000.] if px[0] > 0.0005 and px[-1] < 2000. else px
        if binding.get(s, 0) and draw(st.booleans()):
            px = sorted(set(px + [binding[s]]))
            if draw(st.booleans()):
                px = sorted(px + [binding[s]])
        c["partial"][s] = [px, draw(values(len(px)))]
    c["q"] = draw(queries(main, extra))
    return c


def run_element(c):
    import vfx_ext
    em = ElementModel("Xx", 30)
    e = vfx_ext.CElement("Xx", 30)
    e.setBindingEnergies(c["binding"])
    em.set_binding(c["binding"])
    xs = c["e"]
    if c["pair"]:
        e.setMu(xs, c["photoelectric"], c["coherent"], c["compton"], c["pairv"])
        em.set_mu(xs, c["photoelectric"], c["coherent"], c["compton"], c["pairv"])
    else:
        e.setMu4(xs, c["photoelectric"], c["coherent"], c["compton"])
        em.set_mu(xs, c["photoelectric"], c["coherent"], c["compton"])
    tab = e.getMuTable()
    for k in ["energy"] + PROCESSES:
        eq(tab[k], em.mu[k], "table of %s" % k, rel=1e-12)
    dd = dups(xs)
    for s, (px, pv) in c["partial"].items():
        e.setPartial(s, px, pv)
        em.set_partial(s, px, pv)
        dd = dd + dups(px)
    if not c["partial"]:
        em.partial = {s: ([], []) for s in PARTIALS}
    labels = []
    # nothing is claimed outside of one of the partial tables
    qs = [x for x in c["q"] if all(px[0] <= x <= px[-1] for px, _ in c["partial"].values())]
    # nor for coefficients that are no numbers, extrapolated from a few close points far away
    qs = [x for x in qs if all(finite(em, s, x) for s in c["partial"])]
    vec = e.getMuV(qs) if qs else None
    for i, x in enumerate(qs):
        if near(dd, x) and x not in dd:
            continue
        missing = [s for s in SUBSHELLS if s not in c["partial"]]
        got = e.getMu(x)
        rel = 1e-6 if near(dd, x) else 1e-9
        want = {}
        for s in PARTIALS:
            if s in c["partial"]:
                want[s] = em.get_partial_one(s, x)
            else:
                want[s] = 0.0
        for k in KINDS:
            from ..model import interp_process
            want[k] = interp_process(em.mu["energy"], em.mu[k], x)
        want["photoelectric"] = sum(want[s] for s in PARTIALS)
        want["total"] = sum(want[k] for k in KINDS) + want["photoelectric"]
        abs_ = 1e-11 * max(want["total"], 1e-30)
        for k in KINDS + ["photoelectric", "total"] + PARTIALS:
            if k in PARTIALS and k not in got:
                check(want[k] == 0.0, "%s missing at %r" % (k, x))
                continue
            eq(got[k], want[k], "%s at %r" % (k, x), rel=rel, abs_=abs_)
            check(math.isfinite(got[k]) and got[k] >= 0, "%s at %r is %r" % (k, x, got[k]))
            eq(vec[k][i], got[k], "%s at [%d]=%r in a list" % (k, i, x), rel=1e-12)
        if x in xs and xs.count(x) == 1:
            j = xs.index(x)
            eq(got["coherent"], c["coherent"][j], "coherent at table energy %r" % x, rel=rel)
            eq(got["compton"], c["compton"][j], "Compton at table energy %r" % x, rel=rel)
        if any(want[s] > 0 for s in SUBSHELLS):
            labels.append("nt")
    return labels


# ------------------------------------------------------------ one element of the library
@st.composite
def lib_table(draw, uid, z):
    u = universe.get(uid)
    b = u.binding[z]
    lo = draw(st.sampled_from([0.001, 0.001, 0.01, 0.1, 1.0]))
    xs = set(draw(grid(lo=lo, hi=1000., minsize=2, maxsize=14)))
    if draw(st.booleans()):
        xs.add(lo)
    shown = []
    if draw(st.integers(0, 3)):
        n = draw(st.integers(1, 9))
        for s in SUBSHELLS[:n]:
            if b[s] > 0 and draw(st.integers(0, 7)):
                d = draw(st.sampled_from([0.0, 0.0, 0.0, 0.01, -0.01, 0.05, -0.05, 0.2, -0.2]))
                e = gen.round_sig(max(b[s] + d * min(1.0, b[s]), lo * 1.001), 7)
                if e in xs or e in shown:
                    continue
                shown.append(e)
    xs = [x for x in xs if all(abs(x - e) > 1e-5 for e in shown)] + shown + shown
    xs = sorted(xs)
    if len(xs) < 2:
        xs = [0.001] + xs + [1000.]
    ph = draw(values(len(xs)))
    jump = draw(gen.fl(1.1, 8.))
    for i in range(1, len(xs)):
        if xs[i] == xs[i - 1] and ph[i] <= ph[i - 1] and draw(st.integers(0, 9)):
            ph[i] = gen.round_sig(ph[i - 1] * jump)
    t = {"e": xs, "photo": ph, "coh": draw(values(len(xs))), "com": draw(values(len(xs)))}
    t["pair"] = draw(values(len(xs), zero=True)) if draw(st.booleans()) else []
    return t


@st.composite
def lib_cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    other = draw(gen.element(uid))
    tabs = draw(st.lists(lib_table(uid, z), min_size=1, max_size=2))
    t = tabs[-1]
    b = [x for x in (universe.get(uid).binding[z][s] for s in SUBSHELLS) if x > 0.0011]
    return {"uid": uid, "z": z, "other": other, "tabs": tabs, "q": draw(queries(t["e"], b)),
            "below": draw(gen.logfl(0.0011, 1.0)), "py": draw(st.booleans())}


def ascending(m):
    """the grid put together from the library and the user energies has to make sense"""
    xs = m.mu["energy"]
    return all(xs[i] >= xs[i - 1] for i in range(1, len(xs)))


def run_lib(c):
    uid, z = c["uid"], c["z"]
    name, oname = gen.sym(z), gen.sym(c["other"])
    u = universe.get(uid)
    lib = gen.fresh_lib(uid)
    t = c["tabs"][-1]
    m = override_mu(u, z, t["e"], t["photo"], t["coh"], t["com"], t["pair"])
    if not ascending(m):
        return []
    before = lib.getMuV(oname, c["q"])
    for x in c["tabs"]:
        lib.setMu(name, x["e"], x["photo"], x["coh"], x["com"], x["pair"])
    labels = ["pair" if t["pair"] else "nopair"]
    from ..model import extract_edges
    ed = extract_edges(m.binding, t["e"], t["photo"])
    if ed:
        labels.append("edges")
    dd = dups(m.mu["energy"]) + dups(t["e"])
    el = lib.getElementCopy(name)
    qs = list(c["q"]) + ([c["below"]] if c["below"] < t["e"][0] else [])
    qs = [x for x in qs if all(finite(m, s, x) for s in PARTIALS)]
    if not qs:
        return []
    vec = lib.getMuV(name, qs)
    start = m.mu["energy"][0]
    for i, x in enumerate(qs):
        if x < start or (near(dd, x) and x not in dd):
            continue
        want = m.get_mu(x)
        rel = 1e-6 if near(dd, x) else 1e-9
        got, gel = lib.getMu(name, x), el.getMu(x)
        abs_ = 1e-11 * want["total"]
        for k in PROCESSES + PARTIALS:
            check(math.isfinite(gel[k]) and gel[k] >= 0, "%s of %s at %r is %r" % (k, name, x, gel[k]))
            eq(gel[k], want[k], "%s of %s at %r after its table was given" % (k, name, x), rel=rel, abs_=abs_)
            if k in got:
                eq(got[k], gel[k], "%s of %s at %r (library)" % (k, name, x), rel=1e-12)
                eq(vec[k][i], gel[k], "%s of %s at [%d]=%r in a list" % (k, name, i, x), rel=1e-12)
        if t["e"].count(x) == 1 and x in m.mu["energy"]:
            j = t["e"].index(x)
            for k, kk in (("coh", "coherent"), ("com", "compton"), ("pair", "pair")):
                v = t[k][j] if t[k] else 0.0
                eq(gel[kk], v, "%s of %s at its table energy %r" % (kk, name, x), rel=rel, abs_=abs_)
            if not ed and sum(m.partial[s][1][m.mu["energy"].index(x)] for s in PARTIALS) > 0 and not near(dd, x):
                labels.append("nt")
        if ed:
            labels.append("nt")
        # the share of the given table: excitation uses it too
        f, w = lib.getFactors(name, x), m.factors(x)
        eq(f, w, "excitation factors of %s at %r" % (name, x), rel=rel * 10)
    if oname != name:
        eq(lib.getMuV(oname, c["q"]), before, "coefficients of %s after changing %s" % (oname, name), rel=1e-15)
    if c["py"]:
        import fisx
        py = gen.fresh_pylib(uid)
        py.setMassAttenuationCoefficients(name.encode(), t["e"], t["photo"], t["coh"], t["com"],
                                          t["pair"] or [0.0] * len(t["e"]))
        pv = py.getMassAttenuationCoefficients(name, qs)
        eq({k: list(pv[k]) for k in PROCESSES}, {k: vec[k] for k in PROCESSES}, "Python route for %s" % name, rel=1e-12)
        labels.append("py")
    return labels


# ------------------------------------------------------------ rejected tables leave things as they were
@st.composite
def bad_cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    n = draw(st.integers(0, 5))
    sizes = [n] * 5
    for i in draw(st.lists(st.integers(0, 4), min_size=1, max_size=2)):
        sizes[i] = draw(st.integers(0, 6))
    return {"uid": uid, "z": z, "sizes": sizes, "q": draw(st.lists(gen.logfl(0.01, 500.), min_size=1, max_size=3))}


def run_bad(c):
    lib = gen.fresh_lib(c["uid"])
    name = gen.sym(c["z"])
    before = lib.getMuV(name, c["q"])
    n = c["sizes"]
    a = [[1.0 + i for i in range(k)] for k in n]
    good = n[0] >= 2 and n[1] == n[0] and n[2] == n[0] and n[3] == n[0] and n[4] in (0, n[0])
    r = rejects(lib.setMu, name, *a)
    check(r == (not good), "table sizes %r: %s" % (n, "rejected" if r else "accepted"))
    if r:
        eq(lib.getMuV(name, c["q"]), before, "coefficients of %s after a rejected table" % name, rel=1e-15)
    check(rejects(lib.setMu, "Qq", [1.0, 2.0], [1.0, 1.0], [1.0, 1.0], [1.0, 1.0], []), "table for an undefined element accepted")
    el = lib.getElementCopy(name)
    r = rejects(el.setMu, *a)
    bad = not (n[0] == n[1] == n[2] == n[3] == n[4])
    if bad and n[4]:
        check(r, "element accepted table sizes %r" % (n,))
    check(rejects(el.setTotalMu, [1.0, 2.0], [2.0, 1.0]), "total table is not supported")
    return ["nt"] if not good else []


TESTS = [Test("element", element_cases(), run_element, 2500, rule="element with its own binding energies, main table and partial tables; non-trivial: some subshell contributes"),
         Test("library", lib_cases(), run_lib, 1200, rule="library element given one or two tables in sequence, with or without visible edges; non-trivial: edges shown, or a table energy with photoelectric share"),
         Test("rejected", bad_cases(), run_bad, 300, rule="tables of inconsistent sizes; non-trivial: inconsistent")]
