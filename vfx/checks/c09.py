"""C09 excitation factors combine photoionisation, cascade, yield and weight"""
from hypothesis import strategies as st

from .. import gen, universe
from ..harness import Test, check, eq
from ..universe import PARTIALS, SUBSHELLS
from .c06 import near_edge


@st.composite
def cases(draw):
    uid = draw(gen.uids)
    z = draw(gen.element(uid))
    es = draw(gen.lists(gen.energies(uid, z, lo=0.0015, hi=990.), 1, 5))
    ws = draw(st.one_of(st.none(), st.just("one"), st.just("each")))
    if ws == "one":
        ws = [draw(gen.fl(0, 3))]
    elif ws == "each":
        ws = [draw(st.one_of(gen.fl(0, 3), st.just(0.0), st.just(1.0))) for _ in es]
    return {"uid": uid, "z": z, "e": es, "w": ws}


def run(c):
    u = universe.get(c["uid"])
    name = gen.sym(c["z"])
    em = gen.model(c["uid"]).el(name)
    lib, py = gen.lib(c["uid"]), gen.pylib(c["uid"])
    e = lib.getElementCopy(name)
    es, w = c["e"], c["w"]
    labels = []
    weights = [1.0 / len(es)] * len(es) if w is None else (w * len(es) if len(w) == 1 else w)
    if len(es) > 1:
        labels.append("list")
    iv = lib.getInitialV(name, es)
    ev = e.getInitialV(es)
    fv = lib.getFactorsV(name, es, [] if w is None else w)
    fe = e.getFactorsV(es, [] if w is None else w)
    eq(len(fv), len(es), "number of entries")
    eq(len(fe), len(es), "number of entries")
    for i, x in enumerate(es):
        rel = 1e-6 if near_edge(c["uid"], [name], x) else 1e-9
        want = em.initial(x)
        tot = em.get_mu(x)["photoelectric"]
        got = lib.getInitial(name, x)
        eq(got, want, "%s initial vacancies at %r" % (name, x), rel=rel, abs_=1e-11)
        eq(e.getInitial(x), want, "%s initial vacancies at %r (element)" % (name, x), rel=rel, abs_=1e-11)
        eq(py.getInitialPhotoelectricVacancyDistribution(name, x), want, "%s initial vacancies at %r (Python)" % (name, x), rel=rel, abs_=1e-11)
        for s in PARTIALS:
            eq(iv[s][i], want[s], "%s initial vacancies list [%d]=%r %s" % (name, i, x, s), rel=rel, abs_=1e-11)
            eq(ev[s][i], want[s], "%s initial vacancies list [%d]=%r %s (element)" % (name, i, x, s), rel=rel, abs_=1e-11)
        for s in SUBSHELLS:
            b = u.binding[c["z"]][s]
            if b <= 0 or x < b:
                check(got[s] == 0.0, "%s at %r: vacancy in %s (binding %r)" % (name, x, s, b))
        if tot > 0:
            eq(sum(got.values()), 1.0, "%s initial vacancies sum at %r" % (name, x))
        f = em.factors(x, weights[i])
        if f:
            labels.append("nt")
        eq(fv[i], f, "%s factors list[%d]=%r weights %r" % (name, i, x, w), rel=rel)
        eq(fe[i], f, "%s factors list[%d]=%r weights %r (element)" % (name, i, x, w), rel=rel)
        eq(lib.getFactors(name, x, weights[i]), f, "%s factors at %r weight %r" % (name, x, weights[i]), rel=rel)
        eq(e.getFactors(x, weights[i]), f, "%s factors at %r weight %r (element)" % (name, x, weights[i]), rel=rel)
    return labels


TESTS = [Test("factors", cases(), run, 6000, rule="element, energies (edges included) and weights; non-trivial: some line is excited")]
