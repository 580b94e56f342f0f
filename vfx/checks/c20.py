"""C20 reported intensities are complete and self-consistent"""
import math

from hypothesis import strategies as st

from .. import gen, xrfgen
from ..harness import Test, check, close, eq
from ..xrfmodel import Model, build, register, table_value
from .c06 import near_edge
from .c18 import ask, plain
from .c19 import FIXED


@st.composite
def cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=2, hi=draw(st.sampled_from([1.0, 10.0, 60.0]))))
    r = draw(xrfgen.requests(s, maxn=4))
    return {"s": s, "r": r, "sec": draw(st.sampled_from([0, 1, 1, 2, 2])), "geo": draw(st.integers(0, 1)), "mf": draw(st.integers(0, 1)),
            "form": draw(st.integers(0, 2)), "perm": draw(st.permutations(list(range(len(r))))), "dup": draw(st.integers(0, len(r) - 1)),
            "beam": draw(st.booleans())}


def clean(d):
    """without empty entries"""
    return {k: {i: x for i, x in v.items() if x} for k, v in d.items() if any(v.values())}


def without_tertiary(d):
    out = {}
    for k, v in d.items():
        out[k] = {}
        for i, x in v.items():
            out[k][i] = {}
            for line, y in x.items():
                y = dict(y)
                t = y.pop("tertiary", 0.0)
                ps = y["primary"] + y["secondary"]
                if ps + t != 0:
                    y["rate"] *= ps / (ps + t)
                out[k][i][line] = y
    return out


def is_escape(line):
    return "esc" in line


def run(c):
    import vfx_ext
    s, reqs, sec, geo, mf = c["s"], c["r"], c["sec"], c["geo"], c["mf"]
    lib, m = gen.lib(s["uid"]), Model(s, gen.model(s["uid"]))
    labels = set()
    try:
        register(lib, s, vfx_ext)
        xrf = build(s, vfx_ext)
        got = ask(xrf, lib, reqs, sec, geo, mf, form=c["form"] % 2)
        again = ask(xrf, lib, reqs, sec, geo, mf, form=c["form"] % 2)
        check(got == again, "the same question gives different answers")
        G = clean(got)
        # --- independence from the other requests, the order, the form and repetitions
        one = without_tertiary(G)
        other = [reqs[i] for i in c["perm"]]
        variants = {"other order": (other, 0), "vectors": (other, 1), "one by one": (reqs, 2),
                    "repeated": (reqs + [reqs[c["dup"]]], 0),
                    "repeated in a layer": (reqs + [reqs[c["dup"]][:2] + [0]], 1)}
        for k, (r, form) in variants.items():
            a = without_tertiary(clean(ask(xrf, lib, r, sec, geo, mf, form=form)))
            if k == "repeated in a layer" and reqs[c["dup"]][2] > 0:
                a.get(" ".join(reqs[c["dup"]][:2]), {}).pop(0, None)
                a = clean(a)
            eq(a, one, "answer asked as '%s'" % k, rel=1e-9, abs_=1e-300)
        for r in reqs:
            a = without_tertiary(clean(ask(xrf, lib, [r], sec, geo, mf, form=0)))
            key = r[0] + " " + r[1]
            eq(a, {key: one[key]} if key in one else {}, "answer to %r alone" % (r,), rel=1e-9, abs_=1e-300)
            if r[2] < 0:
                # the union of the individual layers
                u = {}
                for i in range(len(s["sample"])):
                    for k, v in ask(xrf, lib, [r[:2] + [i]], sec, geo, mf, form=1).items():
                        for n, x in v.items():
                            check(n == i or not x, "asked layer %d, got layer %d" % (i, n))
                            if n == i:
                                u.setdefault(k, {})[n] = x
                eq(without_tertiary(clean(u)), a, "answer to %r layer by layer" % (r,), rel=1e-9, abs_=1e-300)
        if c["beam"]:
            b = vfx_ext.CBeam()
            b.setBeam([e for e, _ in s["beam"]], [w for _, w in s["beam"]])
            x2 = build(dict(s, beam=[[77.7, 1.0]]), vfx_ext)
            eq(clean(ask(x2, lib, reqs, sec, geo, mf, form=c["form"], beam=b)), clean(ask(xrf, lib, reqs, sec, geo, mf, form=c["form"])),
               "with the beam given in the call", rel=1e-9, abs_=1e-300)
            eq(clean(ask(x2, lib, reqs, sec, geo, mf, form=c["form"])), clean(ask(build(dict(s, beam=[[77.7, 1.0]]), vfx_ext), lib, reqs, sec, geo, mf, form=c["form"])),
               "after a beam was given in another call")
        # --- mass fractions
        if mf == 0:
            a = clean(ask(xrf, lib, reqs, sec, geo, 1, form=0))
            for key in G:
                for i in G[key]:
                    fr = m.comp[i].get(key.split(" ")[0], 0.0)
                    if fr == 0:
                        check(i not in a.get(key, {}), "%s in layer %d although it is not there" % (key, i))
                        continue
                    check(i in a.get(key, {}), "%s missing in layer %d with mass fractions" % (key, i))
                    scaled = {l: {k: v * fr if k not in ("energy", "energy_threshold", "efficiency", "mu_1_i", "massFraction", "ratio") else v
                                  for k, v in d.items()} for l, d in G[key][i].items()}
                    eq(a[key][i], scaled, "%s in layer %d with mass fractions" % (key, i), rel=1e-8, abs_=1e-290)
                    labels.add("mass fractions")
        # --- each line that is excited, and no other one
        known = set()
        for el, fam, lay in reqs:
            key = el + " " + fam
            known.add(key)
            for i in range(len(s["sample"])):
                if lay >= 0 and i != lay and not any(r[:2] == [el, fam] and r[2] in (-1, i) for r in reqs):
                    check(not plain(G.get(key, {}).get(i, {})), "%s not asked in layer %d" % (key, i))
                    continue
                want = m.lines(el, fam, i, mf)
                g = plain(G.get(key, {}).get(i, {}))
                for x in set(g) ^ set(want):
                    check(g.get(x, want.get(x))["primary"] == 0, "%s in layer %d: lines %r, expected %r" % (key, i, sorted(g), sorted(want)))
                for x in set(g) & set(want):
                    eq(g[x]["energy"], want[x]["energy"], "energy of %s %s in layer %d" % (key, x, i))
        check(set(G) <= known, "not asked: %r" % sorted(set(G) - known))
        # --- each line
        factors = {}
        for key in G:
            for i in G[key]:
                for line, d in plain(G[key][i]).items():
                    if d["primary"] > 0:
                        f = (d["primary"] + d["secondary"]) / d["primary"]
                        if d["massFraction"] >= 5e-3 and f >= 1.01:
                            factors["%s %s %02d" % (key.split(" ")[0], line, i)] = f
        for key in G:
            for i in G[key]:
                lines = G[key][i]
                for line, d in plain(lines).items():
                    what = "%s %s in layer %d" % (key, line, i)
                    e = d["energy"]
                    want = m.efficiency(i, e, geo)
                    rel = 1e-9 * (1 - math.log(want) if 1e-300 < want < 1 else 1)
                    others = [l["comp"] for l in s["sample"][:i] + s.get("attenuators", [])] + ([s["det"]["layer"]["comp"]] if s.get("det") and s["det"]["layer"] else [])
                    near = any(near_edge(s["uid"], x, e) for x in others)
                    if near:
                        rel = 1e-4
                    tabs = all(table_value(t[0], t[1], e)[1] for t in s.get("uatt", []))
                    if tabs and want > 1e-290:
                        # (the absorption of a transparent detector is a difference of almost equal numbers)
                        dl = (s.get("det") or {}).get("layer")
                        x = gen.model(s["uid"]).mu_total(dl["comp"], e) * dl["rho"] * dl["t"] if dl else 1.0
                        eq(d["efficiency"], want, "efficiency of " + what, rel=rel + 1e-15 / max(min(x, 1.0), 1e-12), abs_=1e-290)
                    esc, it = m.escape(e)
                    mine = {k[len(line) + 1:]: v for k, v in lines.items() if is_escape(k) and k.startswith(line + " ")}
                    tot = 0.0
                    for k, (en, raw, ratio, r2) in esc.items():
                        if abs(raw - it) < 1e-4 * it:
                            continue
                        check((k in mine) == (raw > it), "%s: escape peak %s %s, ratio %r" % (what, k, "present" if k in mine else "missing", raw))
                        if k in mine:
                            eq(mine[k]["ratio"], ratio, "%s: ratio of escape peak %s" % (what, k), rel=max(r2, 1e-4 if near else 0), abs_=1e-18)
                            eq(mine[k]["energy"], en, "%s: energy of escape peak %s" % (what, k), rel=1e-9, abs_=1e-9)
                    ter = d.get("tertiary", 0.0)
                    for k, x in mine.items():
                        check(k in esc, "%s: unexpected escape peak %s" % (what, k))
                        tot += x["ratio"]
                        full = (d["primary"] + d["secondary"] + ter) * d["efficiency"]
                        eq(x["rate"], x["ratio"] * full, "%s: rate of escape peak %s" % (what, k), rel=1e-9, abs_=1e-290)
                        for q in ("primary", "secondary"):
                            eq(x[q], x["ratio"] * d[q], "%s: %s of escape peak %s" % (what, q, k), rel=1e-9, abs_=1e-290)
                        labels.add("escape")
                    full = (d["primary"] + d["secondary"] + ter) * d["efficiency"]
                    eq(d["rate"], full * (1 - tot), "rate of " + what, rel=1e-9, abs_=1e-290)
                    eq(d["rate"] + sum(x["rate"] for x in mine.values()), full, "rate of %s and its escape peaks" % what, rel=1e-9, abs_=1e-290)
                    if sec < 2:
                        check(ter == 0, "tertiary intensity of %s not asked for" % what)
                    elif d["primary"] > 0:
                        f = (d["primary"] + d["secondary"]) / d["primary"]
                        if abs(f - 1.01) > 1e-9 and all(abs(x - 1.01) > 1e-9 for x in factors.values()):
                            w = sum(v * (factors[k] - 1) for k, v in d.items() if k in factors) if f >= 1.01 else 0.0
                            eq(ter, w, "tertiary intensity of " + what, rel=1e-9, abs_=1e-290)
                            if w > 0:
                                labels.add("tertiary")
                    contrib = sum(v for k, v in d.items() if k not in FIXED)
                    eq(d["secondary"], contrib, "secondary of %s against its contributions" % what, rel=1e-9, abs_=1e-12 * abs(contrib) + 1e-300)
                    if sec == 0:
                        eq(d["secondary"], 0.0, "secondary of " + what)
                    if d["rate"] > 1e-200:
                        labels.add("nt")
                orphan = [k for k in lines if is_escape(k) and k.split(" ")[0] not in lines]
                check(not orphan, "%s layer %d: escape peaks %r without line" % (key, i, orphan))
    finally:
        lib.removeMaterials()
    return sorted(labels)


TESTS = [Test("consistency", cases(), run, 1200, rule="set-ups with filters, attenuators, tables and detector; 1..4 requests in every form; non-trivial: a line with intensity")]
