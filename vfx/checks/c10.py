"""C10 caches and query history never change a result"""
import functools

from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, eq, fail
from ..universe import SUBSHELLS
from .c05 import lib_table

REL = 1e-9


def outcome(f, *a):
    """the value, or the fact that the call is an error"""
    try:
        return f(*a)
    except (MemoryError, SystemError):
        raise
    except Exception as e:
        return "error: %s" % type(e).__name__


EDITS = ["rad", "radV", "non", "const", "bind", "mu", "bad", "lone", "good", "one rad", "one non", "one non", "one const", "one const"]


def failed(x):
    return isinstance(x, str) and x.startswith("error")


def cascade_fails(e):
    """whether the lines of some shell cannot be calculated (asked to an element without stored calculations)"""
    return any(failed(outcome(e.getLines, {s: 1.0}, 1, 1)) for s in SUBSHELLS if e.getBindingEnergies().get(s, 0.0) > 0)


# ---------------------------------------------------------------- the library
@st.composite
def history(draw):
    uid = draw(gen.uids)
    other = draw(gen.uids)
    zs = [draw(gen.element(uid)) for _ in range(2)]
    names = [gen.sym(z) for z in zs]
    pool = sorted(set(draw(gen.lists(gen.energies(uid, zs[0], lo=0.01, hi=500.), 2, 4)) +
                      draw(gen.lists(gen.energies(uid, zs[1], lo=0.01, hi=500.), 1, 2))))
    if draw(st.booleans()):
        # an energy that only differs a little from another one
        pool = sorted(pool + [draw(st.sampled_from(pool)) * (1 + draw(st.sampled_from([1e-9, 1e-6, 1e-4, 1e-3])))])
    pe = st.sampled_from(pool)
    el = st.sampled_from(names)
    es = gen.lists(pe, 1, 4)
    # some of the listed escape parameters, so that repetitions are likely
    comps = [draw(gen.composition(uid, 1, 2)), {names[0]: 1.0}, {names[0]: 0.4, names[1]: 0.6},
             {names[0]: 0.401, names[1]: 0.599}]
    # different values, some only slightly different
    escp = st.tuples(st.sampled_from(comps), st.sampled_from([1e-7, 1e-7, 1e-3, 1.1e-3]), st.sampled_from([90., 90., 45., 45.2, -45.]),
                     st.sampled_from([0.0, 0.0, 0.01, 0.0101, 1.0]))
    dist = st.dictionaries(st.sampled_from(SUBSHELLS), st.one_of(gen.fl(0.01, 2.0), gen.logfl(1e-9, 1.0)), min_size=1, max_size=4)
    flag = st.integers(0, 1)
    main = st.sampled_from("KLM")
    query = st.one_of(
        st.tuples(st.just("mu"), el, pe), st.tuples(st.just("muV"), el, es), st.tuples(st.just("init"), el, pe),
        st.tuples(st.just("initV"), el, es),
        st.tuples(st.just("fac"), el, pe, gen.fl(0.1, 2.0)), st.tuples(st.just("facV"), el, es),
        st.tuples(st.just("lines"), el, dist, flag, flag), st.tuples(st.just("cascade"), el, dist),
        st.tuples(st.just("mix"), st.sampled_from(comps), es),
        st.tuples(st.just("esc"), escp, pe), st.tuples(st.just("esc"), escp, pe))
    cacheop = st.one_of(
        st.tuples(st.just("fill"), el, es), st.tuples(st.just("update"), el, es), st.tuples(st.just("clear"), el),
        st.tuples(st.just("enable"), el, st.sampled_from([1, 1, 0])),
        st.tuples(st.just("cascadeflag"), el, st.sampled_from([1, 1, 0])),
        st.tuples(st.just("cascadefill"), el), st.tuples(st.just("cascadeempty"), el),
        st.tuples(st.just("escflag"), st.sampled_from([1, 1, 0])), st.tuples(st.just("escfill"), escp, es),
        st.tuples(st.just("escfill"), escp, es), st.tuples(st.just("escclear")))
    dataop = st.one_of(
        st.tuples(st.just("consts"), main), st.tuples(st.just("rad"), main), st.tuples(st.just("nonrad"), main),
        st.tuples(st.just("replace"), el, st.sampled_from(EDITS), gen.fl(0.1, 0.9)),
        st.tuples(st.just("setmu"), el, st.integers(0, 1)))
    tabs = [draw(lib_table(uid, z)) for z in zs]
    # caches are switched on early in most histories
    pre = [["enable", n, 1] for n in names if draw(st.integers(0, 3))]
    if draw(st.integers(0, 3)):
        pre.append(["escflag", 1])
    pre += [["cascadeflag", n, 1] for n in names if draw(st.booleans())]
    steps = draw(st.lists(st.one_of(cacheop, cacheop, query, query, dataop), min_size=3, max_size=22) if draw(st.integers(0, 14)) else st.lists(st.one_of(cacheop, cacheop, query, query, dataop), min_size=23, max_size=70))
    if not draw(st.integers(0, 3)):
        # something stored and the data it came from changed right afterwards
        n = draw(el)
        p = draw(escp) if draw(st.booleans()) else ({n: 1.0}, 1e-7, 90., 0.0)
        steps = steps + [("enable", n, 1), ("fill", n, draw(es)), ("cascadefill", n), ("cascadeflag", n, 1), ("escflag", 1), ("escfill", p, draw(es)),
                         draw(st.one_of(dataop, st.tuples(st.just("replace"), st.just(n), st.sampled_from(EDITS), gen.fl(0.1, 0.9)),
                                        st.tuples(st.just("setmu"), st.just(n), st.integers(0, 1))))]
    final = draw(st.lists(query, min_size=1, max_size=4))
    # what was stored is asked for
    for s in steps[-8:]:
        if s[0] in ("fill", "update"):
            final += [(q, s[1], e) + ((1.0,) if q == "fac" else ()) for e in s[2][:2] for q in ("mu", "fac")]
        elif s[0] == "escfill":
            final += [("esc", s[1], e) for e in s[2][:2]]
        elif s[0] == "cascadefill":
            final += [("lines", s[1], {x: 1.0 for x in SUBSHELLS}, 1, 1)]
    return {"uid": uid, "other": other, "names": names, "tabs": tabs, "pre": pre,
            "steps": [list(s) for s in steps], "final": [list(s) for s in final]}


def do_query(lib, q):
    k = q[0]
    if k == "mu":
        return lib.getMu(q[1], q[2])
    if k == "muV":
        return lib.getMuV(q[1], q[2])
    if k == "init":
        return lib.getInitial(q[1], q[2])
    if k == "initV":
        return lib.getInitialV(q[1], q[2])
    if k == "fac":
        return lib.getFactors(q[1], q[2], q[3])
    if k == "facV":
        return lib.getFactorsV(q[1], q[2], [])
    if k == "lines":
        return lib.getLines(q[1], q[2], q[3], q[4])
    if k == "cascade":
        return lib.getCascade(q[1], q[2])
    if k == "mix":
        return lib.getMuDictV(q[1], q[2])
    if k == "esc":
        comp, it, a, t = q[1]
        return lib.getEscape(comp, q[2], 0.010, it, 4, a, t)
    raise AssertionError(k)


def edit(e, what, f):
    """changes the data of an element through its own methods"""
    shells = [s for s in SUBSHELLS if e.getBindingEnergies().get(s, 0.0) > 0]
    for i, s in enumerate(shells):
        if what in ("rad", "radV"):
            d = {k: v for k, v in e.getRadiativeTransitions(s).items() if v > 0 and k != "TOTAL"}
            for j, k in enumerate(sorted(d)):
                d[k] *= f if j % 2 else 1.0
            if d:
                (e.setRadiativeTransitions(s, d) if what == "rad" else
                 e.setRadiativeTransitionsV(s, sorted(d), [d[k] for k in sorted(d)]))
        elif what == "non":
            d = {k: v for k, v in e.getNonradiativeTransitions(s).items() if v > 0 and k != "TOTAL"}
            for j, k in enumerate(sorted(d)):
                d[k] *= f if j % 2 else 1.0
            if d:
                e.setNonradiativeTransitions(s, d)
        elif what == "const":
            e.setShellConstants(s, {k: v * f for k, v in e.getShellConstants(s).items()})
    if what.startswith("one ") and shells:
        # a single shell, and of its constants a single one
        n = int(f * 100003)
        s = shells[n % len(shells)]
        n //= len(shells)
        if what == "one const":
            d = e.getShellConstants(s)
            k = sorted(d)[n % len(d)]
            e.setShellConstants(s, {k: d[k] * f if d[k] > 0 else 0.02 * f})
        else:
            d = e.getRadiativeTransitions(s) if what == "one rad" else e.getNonradiativeTransitions(s)
            d = {k: v for k, v in d.items() if v > 0 and k != "TOTAL"}
            if d:
                d[sorted(d)[n % len(d)]] *= 1.0 + 3.0 * f
                if what == "one rad":
                    (e.setRadiativeTransitions(s, d) if n % 2 else e.setRadiativeTransitionsV(s, sorted(d), [d[k] for k in sorted(d)]))
                else:
                    (e.setNonradiativeTransitions(s, d) if n % 2 else e.setNonradiativeTransitionsV(s, sorted(d), [d[k] for k in sorted(d)]))
    if what == "lone":
        # no Auger transitions, the vacancies only move to other shells after the emission of X-rays
        for s in shells:
            e.setNonradiativeTransitions(s, {})
    if what in ("bad", "lone") and shells:
        # yields adding to more than one: accepted, but nothing can be calculated through that shell
        e.setShellConstants(shells[int(f * 1000) % len(shells)], {"omega": 1.0 + f})
    if what == "good":
        for s in shells:
            e.setShellConstants(s, {k: (0.5 * f if k == "omega" else 0.1 * f) for k in e.getShellConstants(s)})
    if what == "bind":
        b = e.getBindingEnergies()
        saved = [(s, e.getShellConstants(s), e.getRadiativeTransitions(s), e.getNonradiativeTransitions(s)) for s in shells]
        e.setBindingEnergies({k: v * (1 + 0.1 * f) for k, v in b.items()})
        for s, c, r, n in saved:
            e.setShellConstants(s, {k: v * f for k, v in c.items()})
            if r:
                e.setRadiativeTransitions(s, r)
            if n:
                e.setNonradiativeTransitions(s, n)
    if what == "mu":
        t = e.getMuTable()
        e.setMu(t["energy"], t["photoelectric"], [x * f for x in t["coherent"]], t["compton"], t["pair"])


def do_data(lib, c, o, donor=None):
    """donor: library whose element copy (with all it has stored) is edited and put back"""
    k = o[0]
    if k in ("consts", "rad", "nonrad"):
        d = universe.get(c["other"]).dir
        n = {"consts": "ShellConstants", "rad": "ShellRadiativeRates", "nonrad": "ShellNonradiativeRates"}[k]
        f = "%s/EADL97_%s%s.dat" % (d, o[1], n)
        {"consts": lib.setShellConstantsFile, "rad": lib.setShellRadiativeTransitionsFile,
         "nonrad": lib.setShellNonradiativeTransitionsFile}[k](o[1], f)
    elif k == "replace":
        e = lib.getElementCopy(o[1])
        edit(e, o[2], o[3])
        lib.addElement(e)
    elif k == "setmu":
        t = c["tabs"][o[2]] if o[2] < len(c["tabs"]) else c["tabs"][0]
        lib.setMu(o[1], t["e"], t["photo"], t["coh"], t["com"], t["pair"])
    else:
        return False
    return True


def run_library(c):
    lib = gen.fresh_lib(c["uid"])
    clean = gen.fresh_lib(c["uid"])
    labels = set()
    cache = {n: set() for n in c["names"]}     # energies stored per element
    enabled = {n: 0 for n in c["names"]}
    esc = 0
    check(not lib.isEscapeCacheEnabled(), "escape cache enabled in a new library")
    done = []
    stale = False
    for o in c["pre"] + c["steps"] + [["final"]] + c["final"]:
        k = o[0]
        if k == "final":
            # the last questions are put to a library that was asked nothing before
            clean = gen.fresh_lib(c["uid"])
            for d in done:
                outcome(do_data, clean, c, d)
        elif k == "fill":
            if failed(outcome(lib.fillCache, o[1], o[2])):
                cache = failed_fill(cache, c, lib, clean, o)
            else:
                cache[o[1]] = set(o[2])
            stale = True
        elif k == "update":
            if failed(outcome(lib.updateCache, o[1], o[2])):
                cache = failed_fill(cache, c, lib, clean, o)
            else:
                cache[o[1]] |= set(o[2])
            stale = True
        elif k == "clear":
            lib.clearCache(o[1])
            cache[o[1]] = set()
        elif k == "enable":
            lib.setCacheEnabled(o[1], o[2])
            enabled[o[1]] = o[2]
        elif k == "cascadeflag":
            bad = cascade_fails(clean.getElementCopy(o[1]))
            if failed(outcome(lib.setElementCascadeCacheEnabled, o[1], o[2])):
                check(bad and o[2], "cascade cache of %s cannot be %s" % (o[1], "enabled" if o[2] else "disabled"))
        elif k == "cascadefill":
            bad = cascade_fails(clean.getElementCopy(o[1]))
            if failed(outcome(lib.fillElementCascadeCache, o[1])):
                check(bad, "cascade cache of %s cannot be filled" % o[1])
            else:
                check(lib.isElementCascadeCacheFilled(o[1]), "cascade cache of %s empty after filling" % o[1])
        elif k == "cascadeempty":
            lib.emptyElementCascadeCache(o[1])
            check(not lib.isElementCascadeCacheFilled(o[1]), "cascade cache of %s filled after emptying" % o[1])
        elif k == "escflag":
            lib.setEscapeCacheEnabled(o[1])
            esc = o[1]
        elif k == "escfill":
            comp, it, a, t = o[1]
            outcome(lib.updateEscapeCache, comp, o[2], 0.010, it, 4, a, t)
            stale = True
        elif k == "escclear":
            lib.clearEscapeCache()
        elif k in ("consts", "rad", "nonrad", "replace", "setmu"):
            a, b = outcome(do_data, lib, c, o), outcome(do_data, clean, c, o)
            check((a is True) == (b is True), "%r: %r with caches, %r without" % (o, a, b))
            done.append(o)
            cache = None        # the size after a change of data is judged below
            if stale:
                labels.add("nt")
        else:
            got, want = outcome(do_query, lib, o), outcome(do_query, clean, o)
            eq(got, want, "%r after the history" % (o,), rel=REL)
            if stale:
                labels.add("cached")
        for n in c["names"]:
            check(lib.isCacheEnabled(n) == enabled[n], "cache of %s reported %r, set to %r" % (n, lib.isCacheEnabled(n), enabled[n]))
            size = lib.getCacheSize(n)
            if cache is not None:
                check(size == len(cache[n]), "cache of %s reported to have %d energies instead of %d" % (n, size, len(cache[n])))
        check(bool(lib.isEscapeCacheEnabled()) == bool(esc), "escape cache flag")
        if cache is None:
            # start counting again from an empty cache
            cache = {}
            for n in c["names"]:
                if lib.getCacheSize(n):
                    cache = None
                    break
                cache[n] = set()
            if cache is None:
                # some element kept its (still valid) stored calculations
                cache = _Unknown(c["names"], lib)
    return sorted(labels)


def failed_fill(cache, c, lib, clean, o):
    """a rejected filling is only acceptable if some of the values cannot be calculated; what was stored is not known"""
    check(any(failed(outcome(clean.getFactors, o[1], e, 1.0)) or failed(outcome(clean.getMu, o[1], e)) for e in o[2]),
          "cache of %s cannot be filled with %r" % (o[1], o[2]))
    return _Unknown(c["names"], lib)


class _Unknown(dict):
    """cache contents not known element by element after a change of data; sizes are taken as reported"""

    def __init__(self, names, lib):
        super().__init__()
        self.lib = lib
        for n in names:
            self[n] = _Size(n, lib)


class _Size(set):
    def __init__(self, n, lib):
        super().__init__()
        self.n, self.lib = n, lib

    def __ior__(self, other):
        return self

    def __len__(self):
        return self.lib.getCacheSize(self.n)


# ---------------------------------------------------------------- one element
@st.composite
def element_history(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    pool = sorted(set(draw(gen.lists(gen.energies(uid, z, lo=0.01, hi=500.), 1, 4))))
    pe, es = st.sampled_from(pool), gen.lists(st.sampled_from(pool), 1, 4)
    dist = st.dictionaries(st.sampled_from(SUBSHELLS + ["N1", "all other"]), gen.fl(0.01, 2.0), min_size=1, max_size=4)
    flag = st.integers(0, 1)
    query = st.one_of(st.tuples(st.just("mu"), pe), st.tuples(st.just("init"), pe), st.tuples(st.just("fac"), pe, gen.fl(0.1, 2.)),
                      st.tuples(st.just("facV"), es), st.tuples(st.just("lines"), dist, flag, flag), st.tuples(st.just("emit"), pe),
                      st.tuples(st.just("muV"), es))
    op = st.one_of(st.tuples(st.just("fill"), es), st.tuples(st.just("fill"), es), st.tuples(st.just("update"), es), st.tuples(st.just("clear")),
                   st.tuples(st.just("enable"), st.sampled_from([1, 1, 0])),
                   st.tuples(st.just("cascadeflag"), st.sampled_from([1, 1, 0])), st.tuples(st.just("cascadefill")),
                   st.tuples(st.just("cascadeempty")),
                   st.tuples(st.just("edit"), st.sampled_from(EDITS), gen.fl(0.1, 0.9)),
                   st.tuples(st.just("edit"), st.sampled_from(EDITS), gen.fl(0.1, 0.9)),
                   st.tuples(st.just("copy")))
    pre = [["enable", 1]] if draw(st.integers(0, 3)) else []
    if draw(st.booleans()):
        pre.append(["cascadeflag", 1])
    if not draw(st.integers(0, 9)):
        pre += [["edit", "lone", draw(gen.fl(0.1, 0.9))], ["cascadefill"], ["cascadeflag", 1]]
    post = []
    if not draw(st.integers(0, 3)):
        post = [["cascadefill"], ["cascadeflag", 1]] + [["edit", draw(st.sampled_from(["one rad", "one non", "one const"])), draw(gen.fl(0.1, 0.9))]]
    return {"uid": uid, "z": z, "steps": pre + [list(x) for x in draw(st.lists(st.one_of(op, query), min_size=2, max_size=16))] + post,
            "final": [list(x) for x in draw(st.lists(query, min_size=1, max_size=4))]}


def el_query(e, q):
    k = q[0]
    if k == "mu":
        return e.getMu(q[1])
    if k == "muV":
        return e.getMuV(q[1])
    if k == "init":
        return e.getInitial(q[1])
    if k == "fac":
        return e.getFactors(q[1], q[2])
    if k == "facV":
        return e.getFactorsV(q[1], [])
    if k == "lines":
        return e.getLines(*q[1:])
    if k == "emit":
        return e.getEmittedXRayLines(q[1])
    raise AssertionError(k)


def run_element(c):
    name = gen.sym(c["z"])
    pristine = gen.lib(c["uid"])
    e, clean = pristine.getElementCopy(name), pristine.getElementCopy(name)
    size, edits, labels = set(), [], set()
    for o in c["steps"] + [["final"]] + c["final"]:
        k = o[0]
        if k == "fill":
            size = None if failed(outcome(e.fillCache, o[1])) else set(o[1])
        elif k == "update":
            ok = not failed(outcome(e.updateCache, o[1]))
            size = size | set(o[1]) if ok and size is not None else None
        elif k == "clear":
            e.clearCache()
            size = set()
        elif k == "enable":
            e.setCacheEnabled(o[1])
            check(e.isCacheEnabled() == o[1], "cache flag %r after setting %r" % (e.isCacheEnabled(), o[1]))
        elif k == "cascadeflag":
            if failed(outcome(e.setCascadeCacheEnabled, o[1])):
                check(o[1] and cascade_fails(clean), "cascade cache cannot be %s" % ("enabled" if o[1] else "disabled"))
        elif k == "cascadefill":
            if failed(outcome(e.fillCascadeCache)):
                check(cascade_fails(clean), "cascade cache cannot be filled")
            else:
                check(e.isCascadeCacheFilled(), "cascade cache empty after filling it")
        elif k == "cascadeempty":
            e.emptyCascadeCache()
            check(not e.isCascadeCacheFilled(), "cascade cache filled after emptying it")
        elif k == "copy":
            e = e.copy()
        elif k == "edit":
            if size or e.isCascadeCacheFilled():
                labels.add("nt")
            edit(e, o[1], o[2])
            edit(clean, o[1], o[2])
            edits.append(o)
            size = None
        elif k == "final":
            clean = pristine.getElementCopy(name)
            for x in edits:
                edit(clean, x[1], x[2])
            for x in SUBSHELLS:
                eq(outcome(e.getLines, {x: 1.0}, 1, 1), outcome(clean.getLines, {x: 1.0}, 1, 1), "%s lines of %s after the history" % (name, x), rel=REL)
            for x in sorted({y for o in c["steps"] if o[0] in ("fill", "update") for y in o[1]}):
                for what in ("mu", "fac"):
                    q = (what, x, 1.0)
                    eq(outcome(el_query, e, q), outcome(el_query, clean, q), "%s %r after the history" % (name, q), rel=REL)
        else:
            eq(outcome(el_query, e, o), outcome(el_query, clean, o), "%s %r after the history" % (name, o), rel=REL)
        if size is None:
            # (not every change is one: an element without transitions has nothing to change)
            if e.getCacheSize() == 0:
                size = set()
        if size is not None:
            check(e.getCacheSize() == len(size), "cache reported to have %d energies instead of %d" % (e.getCacheSize(), len(size)))
    return sorted(labels)


# ---------------------------------------------------------------- the detector's own cache
@st.composite
def det_history(draw):
    uid = draw(gen.uids)
    els = [gen.sym(z) for z in draw(st.lists(gen.element(uid), min_size=2, max_size=3, unique=True))]
    pool = draw(st.lists(gen.logfl(0.5, 120.), min_size=1, max_size=3))
    op = st.one_of(st.tuples(st.just("ask"), st.sampled_from(pool), st.sampled_from(["", "a", "b"]), st.integers(0, 1)),
                   st.tuples(st.just("ask"), st.sampled_from(pool), st.sampled_from(["a", "a", "b"]), st.just(0)),
                   st.tuples(st.just("material"), st.sampled_from(els)), st.tuples(st.just("composition"), st.sampled_from(els), st.sampled_from(els)),
                   st.tuples(st.just("intensity"), st.sampled_from([1e-7, 1e-4, 1e-2])), st.tuples(st.just("energy"), gen.fl(0.001, 0.1)),
                   st.tuples(st.just("number"), st.integers(1, 6)), st.tuples(st.just("clear")))
    return {"uid": uid, "els": els, "steps": [list(x) for x in draw(st.lists(op, min_size=2, max_size=14))]}


def run_detector(c):
    import vfx_ext
    lib = gen.lib(c["uid"])
    d = vfx_ext.CDetector(c["els"][0], 2.0, 0.1)
    mat, thr = ("s", c["els"][0]), {}
    labels = set()
    asked = False
    for o in c["steps"]:
        k = o[0]
        if k == "ask":
            f = vfx_ext.CDetector(mat[1], 2.0, 0.1) if mat[0] == "s" else vfx_ext.CDetector("D", 2.0, 0.1)
            if mat[0] == "c":
                f.setMaterial(comp(mat))
            for n, v in thr.items():
                getattr(f, n)(v)
            eq(d.getEscape(o[1], lib, o[2], o[3]), f.getEscape(o[1], lib), "escape peaks at %r, label %r, update %d" % (o[1], o[2], o[3]), rel=REL)
            asked = asked or (o[2] and True)
            continue
        if asked:
            labels.add("nt")
        if k == "material":
            d.setMaterialS(o[1])
            mat = ("s", o[1])
        elif k == "composition":
            mat = ("c", o[1], o[2])
            d.setMaterial(comp(mat))
        elif k == "clear":
            d.clearEscapePeakCache()
        else:
            n = {"intensity": "setMinimumEscapePeakIntensity", "energy": "setMinimumEscapePeakEnergy", "number": "setMaximumNumberOfEscapePeaks"}[k]
            getattr(d, n)(o[1])
            thr[n] = o[1]
    return sorted(labels)


def comp(mat):
    import vfx_ext
    m = vfx_ext.CMaterial("M", 1.0, 1.0, "")
    m.setCompositionV([mat[1], mat[2]], [1.0, 2.0])
    return m


# ---------------------------------------------------------------- many energies
@st.composite
def big_cases(draw):
    return {"uid": draw(gen.uids), "z": draw(st.integers(0, 13)), "n": draw(st.sampled_from([9990, 10000, 10001, 10050])),
            "fill": draw(st.booleans()), "more": draw(st.integers(0, 30)), "start": draw(gen.fl(0.5, 5.0))}


def run_big(c):
    z = gen.rich(c["uid"])[c["z"]]
    e = gen.lib(c["uid"]).getElementCopy(gen.sym(z))
    clean = gen.lib(c["uid"]).getElementCopy(gen.sym(z))
    es = [c["start"] + 0.001 * i for i in range(c["n"])]
    (e.fillCache if c["fill"] else e.updateCache)(es)
    extra = [100.0 + 0.01 * i for i in range(c["more"])]
    e.updateCache(extra)
    e.setCacheEnabled(1)
    want = min(10000, len(es) + len(extra))
    check(e.getCacheSize() == want, "cache holds %d energies instead of %d" % (e.getCacheSize(), want))
    for x in [es[0], es[-1], es[len(es) // 2]] + extra[-1:]:
        eq(e.getMu(x), clean.getMu(x), "coefficients at %r" % x, rel=1e-12)
        eq(e.getFactors(x), clean.getFactors(x), "factors at %r" % x, rel=1e-12)
    return ["nt"]


# ---------------------------------------------------------------- stored escape peaks asked with other parameters
@st.composite
def escape_cases(draw):
    uid = draw(gen.uids)
    comp = draw(gen.composition(uid, 1, 3))
    z = universe.SYMBOLS.index(sorted(comp)[0]) + 1
    es = draw(st.lists(gen.energies(uid, z, lo=0.1, hi=200.), min_size=1, max_size=3, unique=True))
    first = {"comp": comp, "it": draw(st.sampled_from([1e-7, 1e-5, 1e-3])), "a": draw(gen.fl(5., 90.)), "t": draw(st.sampled_from([0.0, 0.001, 0.05, 1.0])),
             "et": 0.010, "n": 4}
    second = dict(first)
    delta = draw(st.sampled_from([0.0, 1e-9, 1e-6, 1e-3, 0.01, 0.2, -1e-3, -0.2]))
    what = draw(st.sampled_from(["comp", "it", "a", "t", "e", "name"]))
    es2 = list(es)
    if what == "comp":
        k = draw(st.sampled_from(sorted(comp)))
        second["comp"] = dict(comp, **{k: comp[k] * (1 + delta)})
    elif what == "name":
        zs = [x for x in range(1, 93) if gen.sym(x) not in comp]
        k = draw(st.sampled_from(sorted(comp)))
        second["comp"] = {(gen.sym(draw(st.sampled_from(zs))) if n == k else n): v for n, v in comp.items()}
    elif what == "e":
        es2 = [e * (1 + delta) for e in es]
    else:
        second[what] = first[what] * (1 + delta) if first[what] else abs(delta)
    return {"uid": uid, "e": es, "e2": es2, "p": [first, second], "what": what, "refill": draw(st.booleans())}


@functools.lru_cache(maxsize=gen.NUNI + 4)
def _caching(uid):
    return gen.fresh_lib(uid)


def run_escape_params(c):
    lib, clean = _caching(c["uid"]), gen.lib(c["uid"])
    a, b = [(p["comp"], p["et"], p["it"], p["n"], p["a"], p["t"]) for p in c["p"]]

    def ask(l, e, p):
        return outcome(l.getEscape, p[0], e, *p[1:])
    try:
        lib.setEscapeCacheEnabled(1)
        lib.updateEscapeCache(a[0], c["e"], *a[1:])
        for p, es in ((b, c["e2"]), (b, c["e"]), (a, c["e"]), (a, c["e2"])):
            for e in es:
                eq(ask(lib, e, p), ask(clean, e, p), "escape peaks of %r at %r with others stored" % (p, e), rel=1e-12)
        if c["refill"]:
            lib.updateEscapeCache(b[0], c["e2"], *b[1:])
            for p, es in ((b, c["e2"]), (a, c["e"]), (a, c["e2"])):
                for e in es:
                    eq(ask(lib, e, p), ask(clean, e, p), "escape peaks of %r at %r after storing others" % (p, e), rel=1e-12)
    finally:
        lib.setEscapeCacheEnabled(0)
        lib.clearEscapeCache()
    return ["nt", c["what"]] if a != b or c["e"] != c["e2"] else [c["what"]]


TESTS = [Test("library", history(), run_library, 900, rule="histories of cache operations, data changes and queries on a library; non-trivial: data changed after something was stored"),
         Test("element", element_history(), run_element, 3000, rule="same on one element; non-trivial: data edited while something is stored"),
         Test("detector", det_history(), run_detector, 1500, rule="detector escape peaks asked with labels, thresholds and materials changing; non-trivial: changed after a labelled question"),
         Test("escape", escape_cases(), run_escape_params, 1500, rule="escape peaks stored with some parameters and asked with one of them changed, much or very little; non-trivial: something differs"),
         Test("full", big_cases(), run_big, 8, 60, rule="caches filled up to and beyond their maximum size", cpu_limit=120)]
