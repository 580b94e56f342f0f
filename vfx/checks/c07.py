"""C07 shell transition tables become normalised branching ratios"""
from hypothesis import strategies as st

from ..harness import Test, check, eq, rejects
from ..model import ShellModel
from ..universe import SUBSHELLS

OUTER = ["N1", "N2", "N3", "O1", "P1"]
val = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(1e-3, 1e3), st.floats(1e-3, 1.0))


@st.composite
def shell_case(draw):
    s = draw(st.sampled_from(SUBSHELLS))
    rest = SUBSHELLS[SUBSHELLS.index(s) + 1:] + OUTER
    rad = draw(st.lists(st.sampled_from(rest), unique=True, max_size=6))
    rad = [[s + o, draw(val)] for o in rad]
    extra = draw(st.sampled_from(["", "", "", "O45", "P10", "two", "total", "lower"]))
    if extra == "O45" and s != "K":
        rad.append([s + "O45", draw(val)])
    if extra == "P10" and s != "K":
        # labels that share their first four characters
        rad += [[s + "P10", draw(val)], [s + "P11", draw(st.sampled_from([0.0, 0.25]))]]
        if draw(st.booleans()):
            rad = [[s + "P10", 0.5], [s + "O2", 0.0]] + [r for r in rad if r[0] not in (s + "P10", s + "O2")]
    if extra == "two" and s == "K":
        rad += [[k, draw(val)] for k in draw(st.sampled_from([["KO"], ["KP"], ["KO", "KP"]]))]
    if extra == "total" or draw(st.booleans()):
        rad.append(["TOTAL", draw(st.floats(0, 1e3))])
    if extra == "lower":
        rad = [[k.lower(), v] for k, v in rad]
    non = draw(st.lists(st.tuples(st.sampled_from(rest), st.sampled_from(rest)), unique=True, max_size=10))
    non = [["%s-%s%s" % (s, a, b), draw(val)] for a, b in non]
    if draw(st.integers(0, 3)) == 0:
        t = sum(v for _, v in non)
        non.append(["TOTAL", t * draw(st.floats(1.0, 2.0)) + draw(st.sampled_from([0.0, 1.0]))])
    non = [non[i] for i in draw(st.permutations(range(len(non))))]
    m = ShellModel(s)
    const = {}
    left = 1.0
    for k in sorted(m.const):
        if draw(st.booleans()) or k == "omega":
            v = draw(st.one_of(st.just(0.0), st.floats(0, 1))) * left
            const[k] = v
            left -= v
    if not draw(st.integers(0, 5)):
        # values adding to one, up to the rounding of floating point numbers
        w = [draw(st.integers(1, 1000)) for _ in m.const]
        const = {k: x / sum(w) for k, x in zip(sorted(m.const), w)}
    over = draw(st.integers(0, 9)) == 0
    dest = [d for d in SUBSHELLS if d != "K"]
    return {"s": s, "rad": rad, "non": non, "const": const, "over": over, "dest": dest,
            "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0]))}


def build(c, vec):
    import vfx_ext
    sh = vfx_ext.CShell(c["s"])
    k = c["scale"]
    rad, non = [(a, v * k) for a, v in c["rad"]], [(a, v * k) for a, v in c["non"]]
    if vec == 2:
        sh.setRadiativeTransitionsC([a for a, _ in rad], [v for _, v in rad])
        sh.setNonradiativeTransitionsC([a for a, _ in non], [v for _, v in non])
    elif vec:
        sh.setRadiativeTransitionsV([a for a, _ in rad], [v for _, v in rad])
        sh.setNonradiativeTransitionsV([a for a, _ in non], [v for _, v in non])
    else:
        sh.setRadiativeTransitions(dict(rad))
        sh.setNonradiativeTransitions(dict(non))
    sh.setShellConstants(c["const"])
    return sh


BAD_NAMES = ["", "K1", "L", "M", "L0", "L4", "L9", "M0", "M6", "N1", "O1", "L-", "La", "M10", "L1 ", " K", "KL", "-1"]


def run_shell(c):
    import fisx
    import vfx_ext
    m = ShellModel(c["s"])
    m.set_rad(sorted((a, v) for a, v in c["rad"]))
    m.set_non(sorted((a, v) for a, v in c["non"]))
    m.set_const(c["const"])
    tol = 1e-12 * sum(m.non.values())
    labels = []
    if m.fluo() and len(m.auger()) > 1:
        labels.append("nt")
    if any(len(d) > 1 for d in m.ck().values()):
        labels.append("coster-kronig")
    k = c["scale"]
    py = fisx.Shell(c["s"])
    py.setRadiativeTransitions([a for a, _ in c["rad"]], [v * k for _, v in c["rad"]])
    py.setNonradiativeTransitions([a for a, _ in c["non"]], [v * k for _, v in c["non"]])
    py.setShellConstants(c["const"])
    for what, sh in (("map", build(c, False)), ("lists", build(c, True)), ("arrays", build(c, 2)), ("python", py)):
        dec = dekey
        f = dec(sh.getFluorescenceRatios())
        eq(f, m.fluo(), "%s fluorescence ratios" % what)
        if f:
            eq(sum(f.values()), 1.0, "sum of fluorescence ratios")
        eq(scaled_total(dec(sh.getAugerRatios()), k), m.auger(), "%s Auger ratios" % what, rel=1e-7, abs_=tol)
        ck = {a: scaled_total(dec(b), k) for a, b in dec(sh.getCosterKronigRatios()).items()}
        eq(ck, m.ck(), "%s Coster-Kronig ratios" % what, rel=1e-7, abs_=tol)
        for a, b in ck.items():
            r = [v for q, v in b.items() if q != "TOTAL"]
            if r:
                eq(sum(r), 1.0, "sum of Coster-Kronig ratios " + a)
        eq(dec(sh.getRadiativeTransitions()), {a: v * k for a, v in m.rad.items()}, "%s radiative transitions" % what)
        eq(dec(sh.getNonradiativeTransitions()), {a: v * k for a, v in m.non.items()}, "%s nonradiative transitions" % what)
        eq(dec(sh.getShellConstants()), m.const, "%s constants" % what)
        if what != "python":
            eq(sh.getFluorescenceYield(), m.const["omega"], "%s yield" % what)
        for d in c["dest"]:
            eq(dec(sh.getDirectVacancyTransferRatios(d)), m.transfer(d), "%s transfer %s to %s" % (what, c["s"], d),
               rel=1e-7, abs_=1e-13)
        if c["over"]:
            bad = dict(c["const"])
            bad["omega"] = 1.001 + sum(v for q, v in m.const.items() if q != "omega") * 0
            check(rejects(lambda: (sh.setShellConstants(bad), sh.getDirectVacancyTransferRatios("L2"))),
                  "yields adding to more than one are accepted: %r" % bad)
    for bad in BAD_NAMES:
        check(rejects(lambda: vfx_ext.CShell(bad)), "a shell %r is accepted" % bad)
        check(rejects(lambda: fisx.Shell(bad)), "a shell %r is accepted (python)" % bad)
    check(rejects(lambda: build(c, False).setShellConstants({"f99": 0.1})), "an unknown constant is accepted")
    check(rejects(lambda: build(c, False).getDirectVacancyTransferRatios("L")), "a destination without index is accepted")
    return labels


def dekey(d):
    return {(k.decode() if isinstance(k, bytes) else k): v for k, v in d.items()}


def scaled_total(d, k):
    d = dict(d)
    if "TOTAL" in d:
        d["TOTAL"] /= k
    return d


@st.composite
def resets(draw):
    a, b = draw(shell_case()), draw(shell_case())
    b["s"] = a["s"]
    n = len(a["s"])
    b["rad"] = [[(a["s"] + k[len(b_name(b, k)):]) if k.upper() != "TOTAL" else k, v] for k, v in b["rad"]]
    return {"a": a, "b": b, "form": draw(st.integers(0, 2)), "bad": draw(st.integers(0, 7))}


def state(sh, dest):
    return [sh.getRadiativeTransitions(), sh.getNonradiativeTransitions(), sh.getFluorescenceRatios(), sh.getAugerRatios(),
            sh.getCosterKronigRatios(), sh.getShellConstants(), [sh.getDirectVacancyTransferRatios(d) for d in dest]]


def bad_tables(s, rad, non, k):
    """inadmissible arguments -> (what, call)"""
    l, v = list(rad), list(rad.values())
    other = "M3" if s != "M3" else "L1"
    if k == 0:
        yield "more labels than rates", lambda sh: sh.setRadiativeTransitionsV(l + [s + "N3"], v)
        yield "more rates than labels", lambda sh: sh.setRadiativeTransitionsV(l, v + [1.0])
    if k == 1:
        yield "more labels than rates (non-radiative)", lambda sh: sh.setNonradiativeTransitionsV(list(non) + [s + "-N1N2"], list(non.values()))
        yield "more rates than labels (non-radiative)", lambda sh: sh.setNonradiativeTransitionsV(list(non), list(non.values()) + [1.])
    if k == 2:
        yield "a transition of another shell", lambda sh: sh.setRadiativeTransitionsV(l + [other + "N3"], v + [1.0])
        yield "a transition of another shell", lambda sh: sh.setRadiativeTransitions(dict(rad, **{other + "N3": 1.0}))
    if k == 3:
        yield "a transition of another shell", lambda sh: sh.setRadiativeTransitionsC([other + "O45"] + l, [1.0] + v)
    if k == 4:
        yield "a label of five characters", lambda sh: sh.setRadiativeTransitionsV(l + [s[:1] + "1ABC"], v + [1.0])
    if k == 5:
        yield "an unknown constant", lambda sh: sh.setShellConstants({"omega": 0.5, "x": 0.1})


def b_name(b, k):
    return k[:1] if k[:1].upper() == "K" else k[:2]


def run_reset(c):
    """setting again replaces tables completely (the constants not given keep their value)"""
    import vfx_ext
    a, b = c["a"], c["b"]
    s = a["s"]
    b = dict(b)
    b["rad"] = [x for x in b["rad"] if x[0].upper() == "TOTAL" or (x[0].upper().startswith(s) and len(x[0]) > len(s) + 1)]
    b["non"] = [[s + "-" + k.split("-")[-1], v] if k != "TOTAL" else [k, v] for k, v in b["non"]]
    sh = build(dict(a, scale=1.0), True)
    m = ShellModel(s)
    m.set_rad(sorted(map(tuple, b["rad"])))
    seen = {}
    for k, v in b["non"]:
        seen[k] = v
    if "TOTAL" in seen:
        seen["TOTAL"] = max(seen["TOTAL"], sum(v for k, v in seen.items() if k != "TOTAL"))
    m.set_non(sorted(seen.items()))
    m.set_const(a["const"])
    r = dict(map(tuple, b["rad"]))
    before = state(sh, a["dest"])
    for what, f in bad_tables(s, r, seen, c["bad"]):
        check(rejects(lambda: f(sh)), "%s: not rejected" % what)
        eq(state(sh, a["dest"]), before, "shell after rejecting " + what, rel=0)
    form = c["form"]
    if form == 0:
        sh.setRadiativeTransitions(r)
        sh.setNonradiativeTransitions(seen)
    elif form == 1:
        sh.setRadiativeTransitionsV(list(r), list(r.values()))
        sh.setNonradiativeTransitionsV(list(seen), list(seen.values()))
    else:
        sh.setRadiativeTransitionsC(list(r), list(r.values()))
        sh.setNonradiativeTransitionsC(list(seen), list(seen.values()))
    eq(sh.getFluorescenceRatios(), m.fluo(), "fluorescence ratios after replacement")
    eq(sh.getAugerRatios(), m.auger(), "Auger ratios after replacement", rel=1e-7, abs_=1e-12 * sum(seen.values()))
    for d in a["dest"]:
        eq(sh.getDirectVacancyTransferRatios(d), m.transfer(d), "transfer to %s after replacement" % d, rel=1e-7, abs_=1e-12)
    return ["nt"] if m.fluo() or len(seen) > 2 else []


TESTS = [Test("shell", shell_case(), run_shell, 6000, rule="random shell, transition tables (any subset, scale, totals, label forms) and yields; non-trivial: radiative and Auger transitions present"),
         Test("replace", resets(), run_reset, 3000, rule="two tables set one after the other, something inadmissible given in between; non-trivial: the second one has transitions")]
