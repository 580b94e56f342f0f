"""C08 vacancy cascade and X-ray emission follow the transfer ratios"""
from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, eq, rejects
from ..model import ElementModel
from ..universe import SUBSHELLS

vac = st.one_of(st.just(0.0), st.just(1.0), gen.fl(0, 1), gen.logfl(1e-6, 1e3))


@st.composite
def dist(draw, keys=SUBSHELLS):
    d = {}
    for k in draw(st.lists(st.sampled_from(keys + ["all other"]), unique=True, max_size=6)):
        d[k] = draw(vac)
    return d


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    keys = SUBSHELLS
    return {"uid": uid, "z": z, "d": draw(dist(keys)), "d2": draw(dist(keys)), "k": draw(gen.logfl(1e-3, 1e3))}


def verify(get_cascade, get_lines, em, c, what):
    d, d2, k = c["d"], c["d2"], c["k"]
    labels = []
    want = em.cascade(d)
    got = get_cascade(d)
    eq(got, want, "%s cascade of %r" % (what, d))
    for s, v in got.items():
        check(v >= d.get(s, 0.0), "%s: the cascade of %r takes vacancies from %s" % (what, d, s))
    if any(want[s] > d.get(s, 0.0) for s in want):
        labels.append("cascade")
    # linear in the vacancies
    mixed = {s: k * d.get(s, 0.0) + d2.get(s, 0.0) for s in set(d) | set(d2)}
    g2, gm = get_cascade(d2), get_cascade(mixed)
    for s in got:
        eq(gm[s], k * got[s] + g2[s], "%s linearity %s" % (what, s))
    for cas in (0, 1):
        for fl in (0, 1):
            w = em.lines(d, cas, fl)
            r = get_lines(d, cas, fl)
            eq(r, w, "%s lines of %r cascade=%d yield=%d" % (what, d, cas, fl))
            if w and cas and fl:
                labels.append("nt")
    a, b = get_lines(d, 1, 1), get_lines(got, 0, 1)
    eq(a, b, "%s emission with cascade vs emission of the cascaded distribution" % what)
    return labels


def run(c):
    u = universe.get(c["uid"])
    name = gen.sym(c["z"])
    em = gen.model(c["uid"]).el(name)
    lib, py = gen.lib(c["uid"]), gen.pylib(c["uid"])
    labels = verify(lambda d: lib.getCascade(name, d), lambda d, a, b: lib.getLines(name, d, a, b), em, c, "%s (C++)" % name)
    verify(lambda d: py.getCascadeModifiedVacancyDistribution(name, d),
           lambda d, a, b: py.getXRayLinesFromVacancyDistribution(name, d, cascade=a, useFluorescenceYield=b), em, c,
           "%s (Python)" % name)
    e = lib.getElementCopy(name)
    verify(e.getCascade, lambda d, a, b: e.getLines(d, a, b), em, c, "%s (element)" % name)
    # line energies on their own
    for s in em.keys():
        for t in em.shells[s].fluo():
            if em.binding[s] > 0:
                eq(e.getTransitionEnergy(t), em.transition_energy(t), "energy of %s %s" % (name, t))
    return labels


@st.composite
def custom(draw):
    """an element entered by hand"""
    nshell = draw(st.sampled_from([1, 2, 4, 9]))
    keys = SUBSHELLS[:nshell]
    if draw(st.integers(0, 3)) == 0:
        keys = sorted(draw(st.lists(st.sampled_from(SUBSHELLS), unique=True, min_size=1, max_size=5)), key=SUBSHELLS.index)
    e = draw(gen.logfl(0.5, 90.0))
    b = {}
    for s in keys + ["N1", "N2", "N3"]:
        b[s] = e
        e = gen.round_sig(e * draw(st.sampled_from([0.9, 0.8, 0.5, 0.2])))
    zero = draw(st.sampled_from([None, None, "N1", "N3"]))
    if zero:
        b[zero] = 0.0
    shells = {}
    for s in keys:
        rest = SUBSHELLS[SUBSHELLS.index(s) + 1:] + ["N1", "N2", "N3", "O1"]
        rad = {s + o: draw(gen.logfl(1e-3, 10.)) for o in draw(st.lists(st.sampled_from(rest), unique=True, max_size=4))}
        non = {}
        for a, o in draw(st.lists(st.tuples(st.sampled_from(rest), st.sampled_from(rest)), unique=True, max_size=6)):
            non["%s-%s%s" % (s, a, o)] = draw(gen.logfl(1e-3, 10.))
        const = {}
        left = 1.0
        m = ElementModel("X", 1)
        m.set_binding({s: 1.0})
        for k in sorted(m.shells[s].const):
            v = draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.9])) * left
            const[k] = v
            left -= v
        shells[s] = [const, rad, non]
    return {"b": b, "shells": shells, "d": draw(dist()), "d2": draw(dist()), "k": draw(gen.logfl(1e-2, 1e2))}


def make_custom(c):
    import vfx_ext
    e, m = vfx_ext.CElement("Xx", 50), ElementModel("Xx", 50)
    e.setBindingEnergies(c["b"])
    m.set_binding(c["b"])
    for s, (const, rad, non) in c["shells"].items():
        if not c["b"][s] > 0:
            # unknown binding energy: no transitions
            check(rejects(e.setRadiativeTransitions, s, rad), "radiative transitions to %s of binding energy 0" % s + " accepted")
            check(rejects(e.setNonradiativeTransitions, s, non), "nonradiative transitions to %s of binding energy 0" % s + " accepted")
            e.setShellConstants(s, const)
            m.shells[s].set_const(const)
            continue
        e.setRadiativeTransitions(s, rad)
        e.setNonradiativeTransitions(s, non)
        e.setShellConstants(s, const)
        m.shells[s].set_rad(sorted(rad.items()))
        m.shells[s].set_non(sorted(non.items()))
        m.shells[s].set_const(const)
    return e, m


def run_custom(c):
    e, m = make_custom(c)
    labels = verify(e.getCascade, lambda d, a, b: e.getLines(d, a, b), m, c, "custom element")
    for s in m.shells:
        eq(e.getFluorescenceRatios(s), m.shells[s].fluo(), "fluorescence ratios of " + s)
        eq(e.getXRayLines(s), m.shells[s].fluo(), "X-ray lines of " + s)
        for k, w in (("Radiative", m.shells[s].rad), ("Nonradiative", m.shells[s].non)):
            eq(getattr(e, "get%sTransitions" % k)(s), w, "%s transitions of %s" % (k, s))
    # the cascade is order free: tables given in another order mean the same
    import vfx_ext
    e2 = vfx_ext.CElement("Xx", 50)
    e2.setBindingEnergiesV(list(c["b"])[::-1], list(c["b"].values())[::-1])
    for s, (const, rad, non) in sorted(c["shells"].items(), reverse=True):
        e2.setShellConstants(s, const)
        e2.setNonradiativeTransitionsV(s, list(non)[::-1], list(non.values())[::-1])
        e2.setRadiativeTransitionsV(s, list(rad)[::-1], list(rad.values())[::-1])
    eq(e2.getLines(c["d"], 1, 1), m.lines(c["d"]), "lines, tables entered as lists in reverse order")
    return labels


TESTS = [Test("library", cases(), run, 4000, rule="element of a synthetic library and vacancy distributions; non-trivial: lines are emitted"),
         Test("custom", custom(), run_custom, 3000, rule="element entered by hand; non-trivial: lines are emitted")]
