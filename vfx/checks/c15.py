"""C15 transmission tables interpolate what they were given"""
from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, rejects


def tvals(n):
    return st.lists(st.one_of(gen.fl(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5])), min_size=n, max_size=n)


@st.composite
def table(draw):
    n = draw(gen.count(0, 10, 80))
    xs = sorted(set(draw(st.lists(st.one_of(gen.logfl(1e-2, 500.), gen.fl(0.0, 50., 4)), min_size=n, max_size=n))))
    steps = []
    if xs and draw(st.booleans()):
        steps = draw(st.lists(st.sampled_from(xs), max_size=2, unique=True))
        # the second point of a step is placed 1e-6 above it: no other point so near to a step
        xs = [x for x in xs if x in steps or not any(0 < x - s < 1e-4 for s in steps)]
        steps = [s for s in steps if not any(0 < s - r < 1e-4 for r in steps)]
    xs = sorted(xs + steps)
    return [xs, draw(tvals(len(xs)))]


@st.composite
def cases(draw):
    tabs = draw(st.lists(table(), min_size=1, max_size=2))
    xs = tabs[-1][0]
    q = []
    for _ in range(draw(gen.count(1, 6, 40))):
        k = draw(st.integers(0, 4))
        if k == 0 and xs:
            q.append(draw(st.sampled_from(xs)))
        elif k == 1 and len(xs) > 1:
            i = draw(st.integers(0, len(xs) - 2))
            q.append(xs[i] + draw(gen.fl(0, 1)) * (xs[i + 1] - xs[i]))
        elif k == 2 and xs:
            q.append(draw(st.sampled_from([xs[0] * 0.5, xs[-1] * 2 + 1, xs[0], xs[-1]])))
        elif k == 3 and xs:
            q.append(draw(st.sampled_from(xs)) + draw(st.sampled_from([2e-6, 1e-5, -1e-7, 1e-3])))
        else:
            q.append(draw(gen.logfl(1e-3, 1000.)))
    return {"tabs": tabs, "q": [max(x, 0.0) for x in q], "map": draw(st.booleans()), "perm": draw(st.integers(0, 10 ** 6)),
            "name": draw(st.sampled_from(["", "table"])), "comment": draw(st.sampled_from(["", "a comment"]))}


def value(xs, ys, x):
    """interpolation of the given points; a repeated energy is a step, the lower value at the energy itself"""
    if not xs:
        return 1.0, True
    n = len(xs)
    if x <= xs[0]:
        first = 0
        return ys[first], True
    if x > xs[-1]:
        return ys[-1], xs.count(xs[-1]) == 1 or x - xs[-1] > 1.5e-6
    for i in range(n - 1):
        if xs[i] < x <= xs[i + 1]:
            step = i > 0 and xs[i - 1] == xs[i] and x - xs[i] < 1.5e-6      # inside the step itself
            if x == xs[i + 1]:
                return ys[i + 1], not step
            x0 = xs[i] + (1e-6 if i > 0 and xs[i - 1] == xs[i] else 0.0)
            t = (x - x0) / (xs[i + 1] - x0) if xs[i + 1] > x0 else 1.0
            return ys[i] + t * (ys[i + 1] - ys[i]), not step and xs[i + 1] - xs[i] > 1e-5
    raise AssertionError


def run(c):
    import fisx
    import vfx_ext
    t, p = vfx_ext.CTable(), fisx.TransmissionTable()
    eq(t.get(3.0), 1.0, "transmission of a new table")
    labels = []
    ncall = 0
    for xs, ys in c["tabs"]:
        use_map = c["map"] and len(set(xs)) == len(xs)
        name, comment = (c["name"], c["comment"]) if ncall == 0 else ("", "")
        ncall += 1
        if use_map:
            items = list(zip(xs, ys))
            import random
            random.Random(c["perm"]).shuffle(items)
            t.setMap(dict(items), name, comment)
            p.setTransmissionTable(dict(items), name, comment)
        else:
            t.setLists(xs, ys, name, comment)
            p.setTransmissionTableFromLists(xs, ys, name, comment)
    xs, ys = c["tabs"][-1]
    both = len(set(xs)) == len(xs)
    eq(t.getName(), c["name"], "name")
    eq(t.getComment(), c["comment"], "comment")
    eq(p.getName(), c["name"], "name (Python)")
    other = None
    if both:
        eq(t.getTable(), dict(zip(xs, ys)), "table kept")
        eq(dict(p.getTransmissionTable()), dict(zip(xs, ys)), "table kept (Python)")
        other = vfx_ext.CTable()
        (other.setLists(xs, ys) if c["map"] else other.setMap(dict(zip(xs, ys))))
    v, pv = t.getV(c["q"]), p.getTransmission(c["q"])
    lo, hi = (min(ys), max(ys)) if ys else (1.0, 1.0)
    for i, x in enumerate(c["q"]):
        want, sure = value(xs, ys, x)
        got = t.get(x)
        if sure:
            eq(got, want, "transmission at %r of %r" % (x, c["tabs"][-1]), rel=1e-9, abs_=1e-9)
            if x in xs and xs.count(x) == 1:
                eq(got, ys[xs.index(x)], "transmission at table energy %r" % x, rel=1e-14)
        check(lo - 1e-12 <= got <= hi + 1e-12, "transmission %r at %r outside the values of the table" % (got, x))
        eq(v[i], got, "transmission at [%d]=%r" % (i, x), rel=1e-15)
        eq(pv[i], got, "transmission at [%d]=%r (Python)" % (i, x), rel=1e-15)
        eq(p.getTransmission(x), got, "transmission at %r (Python)" % x, rel=1e-15)
        if other is not None:
            eq(other.get(x), got, "transmission at %r, lists or mapping" % x, rel=1e-15)
        if xs and xs[0] < x < xs[-1]:
            labels.append("nt")
    if not both:
        labels.append("step")
    return labels


@st.composite
def bad_cases(draw):
    t = draw(table())
    k = draw(st.sampled_from(["order", "size", "energy", "value", "name", "comment"]))
    return {"good": t, "bad": draw(table()), "kind": k, "i": draw(st.integers(0, 20)), "q": draw(gen.logfl(0.01, 500.)), "map": draw(st.booleans())}


def run_bad(c):
    import vfx_ext
    t = vfx_ext.CTable()
    t.setLists(c["good"][0], c["good"][1], "first", "comment")
    before, tab = t.get(c["q"]), t.getTable()
    xs, ys = [list(x) for x in c["bad"]]
    k, name, comment = c["kind"], "", ""
    if k == "order":
        if len(set(xs)) < 2:
            return []
        xs = xs[::-1]
    elif k == "size":
        xs = xs + [1000.]
    elif k == "energy":
        if not xs:
            return []
        xs[0] = -1.0
    elif k == "value":
        if not xs:
            return []
        ys[c["i"] % len(ys)] = -0.5
    elif k == "name":
        name = "second"
    else:
        comment = "second"
    use_map = c["map"] and k not in ("order", "size") and len(set(xs)) == len(xs)
    r = rejects(t.setMap, dict(zip(xs, ys)), name, comment) if use_map else rejects(t.setLists, xs, ys, name, comment)
    check(r, "table accepted (%s): %r %r" % (k, xs, ys))
    eq(t.getTable(), tab, "table after a rejected one")
    eq(t.get(c["q"]), before, "transmission after a rejected table")
    eq(t.getName(), "first", "name after a rejected table")
    return ["nt"]


TESTS = [Test("tables", cases(), run, 8000, rule="one or two tables set in sequence, as lists or mappings, repeated energies; non-trivial: a query strictly inside"),
         Test("rejected", bad_cases(), run_bad, 2000, rule="inadmissible tables must be rejected leaving the previous one")]
