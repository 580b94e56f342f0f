"""C21 intensities are invariant under physically equivalent set-ups"""
import copy

from hypothesis import strategies as st

from .. import gen, xrfgen
from ..harness import Test, check, eq
from ..xrfmodel import Model, build, build_layer, build_table, register, steps
from .c18 import ask
from .c19 import FIXED
from .c20 import clean, without_tertiary

NEVER = ("energy", "energy_threshold", "massFraction", "mu_1_i", "ratio")


def summed(answer, pieces=None):
    """{request: {layer: {line: rate}}}, renumbering (and summing) the layers by pieces {new index: old index}"""
    out = {}
    for k, v in answer.items():
        for i, d in v.items():
            j = pieces.get(i, None) if pieces else i
            if j is None:
                check(not d, "intensity of %s from a layer that is not there: %r" % (k, sorted(d)))
                continue
            o = out.setdefault(k, {}).setdefault(j, {})
            for line, x in d.items():
                o[line] = o.get(line, 0.0) + x["rate"]
    return clean(out)


def compare(a, b, what, rel=1e-8, small=0.0):
    """two sums; small: fraction of the largest one below which they may differ or be missing"""
    for k in sorted(set(a) | set(b)):
        for i in sorted(set(a.get(k, {})) | set(b.get(k, {}))):
            x, y = a.get(k, {}).get(i, {}), b.get(k, {}).get(i, {})
            top = max(list(map(abs, x.values())) + list(map(abs, y.values())) + [0.0])
            for line in sorted(set(x) | set(y)):
                eq(x.get(line, 0.0), y.get(line, 0.0), "%s: rate of %s %s in layer %d" % (what, k, line, i), rel=rel, abs_=small * top + 1e-290)


# ------------------------------------------------------------------ equivalent set-ups
PARTS = ("filters", "sample", "attenuators")


@st.composite
def equiv_cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=3, hi=draw(st.sampled_from([1.0, 10.0, 60.0]))))
    r = draw(xrfgen.requests(s, maxn=3))
    c = {"s": s, "r": r, "sec": draw(st.sampled_from([0, 0, 1])), "mf": draw(st.integers(0, 1)),
         "split": [draw(st.integers(0, len(s["sample"]) - 1)), draw(gen.fl(0.02, 0.98, 3)), draw(st.integers(0, 1))],
         "k": [draw(st.sampled_from([0.5, 2.0, 0.1, 3.7, 1e-3, 1e3])) for _ in range(8)],
         "scale": draw(st.sampled_from([2.0, 0.1, 1e-6, 1e6])),
         "kinds": [draw(st.sampled_from(["material", "named"])) for _ in range(10)],
         "null": [draw(st.sampled_from(PARTS)), draw(st.integers(0, 3)), draw(st.sampled_from(["t", "rho", "f"]))],
         "order": draw(st.permutations(list(range(len(s["beam"]))))), "cut": [draw(st.integers(0, len(s["beam"]) - 1)), draw(gen.fl(0.05, 0.95, 3))],
         "wscale": draw(st.sampled_from([2.0, 1e-3, 1e5])), "rot": draw(st.integers(1, 3))}
    return c


def relabel(c, s):
    """the same materials, given in another way"""
    t = copy.deepcopy(s)
    ls = list(t.get("filters", [])) + list(t["sample"]) + list(t.get("attenuators", []))
    if (t.get("det") or {}).get("layer"):
        ls.append(t["det"]["layer"])
    for i, l in enumerate(ls):
        kind = c["kinds"][i % len(c["kinds"])]
        l["comp"] = {k: v * c["scale"] for k, v in l["comp"].items()}
        l["kind"], l["name"] = kind, "Other%d" % i
        if len(l["comp"]) == 1 and i % 2:
            l["kind"], l["name"] = "element", list(l["comp"])[0]
    return t


def run_equiv(c):
    import vfx_ext
    s, sec, mf = c["s"], c["sec"], c["mf"]
    reqs = [[r[0], r[1], -1] for r in c["r"]]
    reqs = [r for i, r in enumerate(reqs) if r not in reqs[:i]]
    lib = gen.lib(s["uid"])
    labels = set()

    def rates(t, geo=0, sec=sec, pieces=None):
        lib.removeMaterials()
        register(lib, t, vfx_ext)
        return summed(ask(build(t, vfx_ext), lib, reqs, sec, geo, mf, form=1), pieces)

    try:
        base = {g: rates(s, g) for g in (0, 1)}
        if any(x > 1e-200 for v in base[0].values() for d in v.values() for x in d.values()):
            labels.add("nt")
        prim = base[0] if sec == 0 else rates(s, 0, 0)
        n = len(s["sample"])
        # the approximations of the enhancement integrals amplify rounding
        rel = 1e-9 if sec == 0 else 1e-6
        # --- density against thickness
        t = copy.deepcopy(s)
        for i, l in enumerate(list(t["sample"]) + t.get("filters", []) + t.get("attenuators", []) + [x for x in [(t.get("det") or {}).get("layer")] if x]):
            k = c["k"][i % len(c["k"])]
            l["rho"], l["t"] = l["rho"] * k, l["t"] / k
        compare(rates(t), base[0], "density against thickness", rel)
        # --- the same materials in other forms
        compare(rates(relabel(c, s), 1), base[1], "other material forms", rel)
        # --- a layer that absorbs nothing
        part, pos, how = c["null"]
        t = copy.deepcopy(s)
        null = {"comp": dict(s["sample"][0]["comp"]), "kind": "material", "name": "", "rho": 1.0, "t": 1.0, "f": 1.0}
        # (0 stands for the default of the material)
        if how == "rho":
            null["rho"] = 1e-30
        elif how == "f" and part != "sample":
            null["f"] = 0.0
        else:
            null["t"] = 1e-30
        lst = t.setdefault(part, [])
        pos = min(pos, len(lst))
        lst.insert(pos, null)
        if part == "sample":
            if t.get("ref", 0) >= pos:
                t["ref"] = t.get("ref", 0) + 1
            # (primary: the enhancement in an infinitely thin layer is rounding noise)
            a = rates(t, 0, 0, {i: (i if i < pos else i - 1 if i > pos else 100) for i in range(n + 1)})
            for k in a:
                for line, x in a[k].pop(100, {}).items():
                    check(abs(x) <= 1e-20, "a layer with nothing in it emits %s %s: %r" % (k, line, x))
            compare(clean(a), prim, "with a void sample layer")
        else:
            compare(rates(t, 1), base[1], "with a void layer among the %s" % part, rel)
        labels.add("void " + part)
        # --- order of filters and attenuators
        t = copy.deepcopy(s)
        for part in ("filters", "ufilters", "attenuators", "uatt"):
            if t.get(part):
                k = c["rot"] % len(t[part])
                t[part] = t[part][k:] + t[part][:k]
                labels.add("order")
        compare(rates(t, 1), base[1], "filters in another order", rel)
        # --- rays
        t = copy.deepcopy(s)
        t["beam"] = [s["beam"][i] for i in c["order"]]
        compare(rates(t, 1), base[1], "rays in another order", 1e-9)
        t["beam"] = [[e, w * c["wscale"]] for e, w in s["beam"]]
        compare(rates(t, 1), base[1], "weights scaled", 1e-9)
        i, f = c["cut"]
        t["beam"] = copy.deepcopy(s["beam"])
        e, w = t["beam"][i]
        t["beam"][i] = [e, w * f]
        t["beam"].append([e, w * (1 - f)])
        compare(rates(t, 1), base[1], "with a ray given in two parts", 1e-9)
        tot = sum(w for _, w in s["beam"])
        acc = {}
        for e, w in s["beam"]:
            t["beam"] = [[e, 3.0]]
            for k, v in rates(t, 1).items():
                for i, d in v.items():
                    for line, x in d.items():
                        o = acc.setdefault(k, {}).setdefault(i, {})
                        o[line] = o.get(line, 0.0) + x * w / tot
        compare(acc, base[1], "sum of the single rays", 1e-9)
        if len(s["beam"]) > 1:
            labels.add("several rays")
        # --- a layer split in two
        i, f, which = c["split"]
        t = copy.deepcopy(s)
        a, b = t["sample"][i], copy.deepcopy(t["sample"][i])
        thick = a["t"]
        a["t"], b["t"] = thick * f, thick - thick * f
        t["sample"].insert(i + 1, b)
        # (a layer given half a funny factor is not two such layers: sample layers have none here)
        compare(rates(t, 0, 0, {j: j if j <= i else j - 1 for j in range(n + 1)}), prim, "layer %d split at %g" % (i, f), 1e-9, 1e-12)
        labels.add("split")
    finally:
        lib.removeMaterials()
    return sorted(labels)


# ------------------------------------------------------------------ enhancement of a layer split in two
@st.composite
def split_cases(draw):
    s = draw(xrfgen.setup(maxlayers=2, maxrays=1, hi=5.0, extras=False, detector=False, maxn=3, big=False))
    return {"s": s, "r": draw(xrfgen.requests(s, maxn=1, big=False)), "split": [draw(st.integers(0, len(s["sample"]) - 1)), draw(gen.fl(0.1, 0.9, 3))]}


def run_split(c):
    import vfx_ext
    s = c["s"]
    lib, m = gen.lib(s["uid"]), Model(s, gen.model(s["uid"]))
    el, fam, _ = c["r"][0]
    key = el + " " + fam
    i, f = c["split"]
    labels = set()
    t = copy.deepcopy(s)
    b = copy.deepcopy(t["sample"][i])
    thick = b["t"]
    t["sample"][i]["t"], b["t"] = thick * f, thick - thick * f
    t["sample"].insert(i + 1, b)

    def sums(x, where):
        """detected enhancement by the elements of the layer itself: {line: value}, and its lines"""
        out = {}
        for j in where:
            for line, d in x.get(key, {}).get(j, {}).items():
                v = sum(y for k, y in d.items() if k not in FIXED and int(k[-2:]) in where)
                out[line] = out.get(line, 0.0) + v * d["efficiency"]
        return out

    try:
        register(lib, s, vfx_ext)
        one = ask(build(s, vfx_ext), lib, [[el, fam, -1]], 1, 0, 0, form=1)
        two = ask(build(t, vfx_ext), lib, [[el, fam, -1]], 1, 0, 0, form=1)
    finally:
        lib.removeMaterials()
    e = s["beam"][0][0]
    a, b = sums(one, [i]), sums(two, [i, i + 1])
    for line in sorted(set(a) & set(b)):
        en = one[key][i][line]["energy"]
        ml, mo = m.mu(i, e) / m.sin_in, m.mu(i, en) / m.sin_out
        d = m.rt(i)
        # outside the cut-offs (thin layers, opaque pieces)
        if min(f, 1 - f) * (ml + mo) * d < 0.0101 or (ml + mo) * d > 6.0 or min(m.mu(i, x) for x in (e, en)) <= 0:
            continue
        eq(b[line], a[line], "enhancement of %s %s within layer %d split at %g" % (key, line, i, f), rel=2e-3, abs_=1e-6 * one[key][i][line]["primary"])
        if a[line] > 1e-4 * one[key][i][line]["primary"]:
            labels.add("nt")
    return sorted(labels)


# ------------------------------------------------------------------ the set-up in force
@st.composite
def history_cases(draw):
    uid_setup = draw(xrfgen.setup(maxlayers=3, maxrays=2))
    others = [draw(xrfgen.setup(maxlayers=3, maxrays=2)) for _ in range(draw(st.integers(1, 2)))]
    r = draw(xrfgen.requests(uid_setup, maxn=2))
    n = 1 + len(others)
    ops = [[draw(st.sampled_from(["beam", "beamO", "filters", "ufilters", "sample", "sampleL", "attenuators", "uatt", "geo", "det", "ask", "ask", "ask", "redefine", "all"])),
            draw(st.integers(0, n - 1)), draw(st.integers(0, 2))] for _ in range(draw(st.integers(1, 10)))]
    return {"s": [uid_setup] + others, "r": r, "ops": ops, "sec": draw(st.sampled_from([0, 1, 2]))}


def run_history(c):
    import vfx_ext
    base = c["s"][0]
    uid = base["uid"]
    # (compositions only name elements, so that every set-up is usable with the data of the first one)
    rich = set(gen.sym(z) for z in xrfgen.usable(uid))
    sets = []
    for i, s in enumerate(c["s"]):
        s = copy.deepcopy(s)
        for l in list(s.get("filters", [])) + s["sample"] + s.get("attenuators", []) + [x for x in [(s.get("det") or {}).get("layer")] if x]:
            l["comp"] = {k: v for k, v in l["comp"].items() if k in rich} or dict(base["sample"][0]["comp"])
            if l["kind"] == "element" and list(l["comp"]) != [l["name"]]:
                l["kind"] = "material"
            if l["kind"] == "named":
                l["name"] = "S%d%s" % (i, l["name"])
        sets.append(s)
    lib = gen.lib(uid)
    labels = set()
    cur = copy.deepcopy(sets[0])
    sec = c["sec"]

    def compare_now(xrf, what):
        n = len(cur["sample"])
        reqs = [[el, f, -1 if l >= n else l] for el, f, l in c["r"]]
        a = clean(ask(xrf, lib, reqs, sec, 1, 1, form=1))
        b = clean(ask(build(cur, vfx_ext), lib, reqs, sec, 1, 1, form=1))
        eq(a, b, what, rel=1e-12)
        if any(y["rate"] > 1e-200 for v in a.values() for d in v.values() for y in d.values()):
            labels.add("nt")

    try:
        for s in sets:
            register(lib, s, vfx_ext)
        xrf = build(cur, vfx_ext)
        for n, (op, i, k) in enumerate(c["ops"]):
            s = sets[i % len(sets)]
            x = copy.deepcopy(s)
            if op == "ask":
                compare_now(xrf, "after %d steps" % n)
                labels.add("ask")
            elif op == "all":
                for f in steps(x, vfx_ext).values():
                    f(xrf)
                det = cur.get("det")
                cur = x
                if not x.get("det") and det:
                    cur["det"] = det
            elif op == "beamO":
                cur["beam"] = x["beam"]
                b = vfx_ext.CBeam()
                b.setBeam([e for e, _ in x["beam"]], [w for _, w in x["beam"]])
                xrf.setBeamO(b)
            elif op == "sampleL":
                cur["sample"], cur["ref"] = [x["sample"][0]], 0
                xrf.setSampleL(build_layer(vfx_ext.CLayer, x["sample"][0], vfx_ext))
            elif op == "redefine":
                ls = [l for l in cur["sample"] + cur.get("filters", []) + cur.get("attenuators", []) if l["kind"] == "named"]
                if ls:
                    name = ls[k % len(ls)]["name"]
                    comp = {q: v * (1 + 0.5 * j) for j, (q, v) in enumerate(sorted(x["sample"][0]["comp"].items()))}
                    mat = vfx_ext.CMaterial(name, 1.0, 1.0, "")
                    mat.setComposition(comp)
                    lib.addMaterial(mat, 0)
                    for y in [cur] + sets:
                        for l in y["sample"] + y.get("filters", []) + y.get("attenuators", []):
                            if l["kind"] == "named" and l["name"] == name:
                                l["comp"] = comp
                    labels.add("redefined")
            else:
                st_ = steps(x, vfx_ext)
                if op not in st_:
                    continue
                st_[op](xrf)
                for q in {"sample": ("sample", "ref")}.get(op, (op,)):
                    cur.pop(q, None)
                    if q in x:
                        cur[q] = x[q]
                labels.add(op)
        compare_now(xrf, "at the end")
        # and against the model, so that both being wrong is seen
        m = Model(cur, gen.model(uid))
        from .c06 import near_edge
        got = ask(xrf, lib, [[el, f, -1] for el, f, _ in c["r"]], 0, 1, 1, form=1)
        for el, fam, _ in c["r"]:
            for i in range(len(cur["sample"])):
                for line, w in m.lines(el, fam, i, 1).items():
                    g = got.get(el + " " + fam, {}).get(i, {}).get(line)
                    if w["primary"] > 1e-200:
                        loose = any(near_edge(uid, sorted(set(k for l in cur["sample"] + cur.get("filters", []) for k in l["comp"])), e) for e, _ in cur["beam"])
                        check(g is not None, "%s %s %s missing in layer %d" % (el, fam, line, i))
                        eq(g["primary"], w["primary"], "primary of %s %s in layer %d at the end" % (el, line, i), rel=0, abs_=w["tol"] + (1e-5 * w["primary"] if loose else 0))
    finally:
        lib.removeMaterials()
    return sorted(labels)


TESTS = [Test("equivalent", equiv_cases(), run_equiv, 600, rule="twelve equivalent forms of every set-up; non-trivial: some intensity"),
         Test("split", split_cases(), run_split, 600, rule="enhancement within a layer against that within and between its two parts; non-trivial: above 1e-4 of the primary"),
         Test("history", history_cases(), run_history, 800, rule="1..10 changes and questions against a set-up built afresh; non-trivial: some intensity")]
