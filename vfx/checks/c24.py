"""C24 a PyMca configuration file becomes the equivalent set-up"""
import copy
import math
import os
import tempfile

from hypothesis import strategies as st

from .. import gen, xrfgen
from ..harness import Test, check, close, eq, rejects
from ..model import normalise
from ..xrfmodel import build
from .c18 import ask
from .c20 import clean

MATNAMES = ["Mat one", "steel.304", "My-Mat", "mix_1", "mix_2", "Foil 2.5 um", "Foil 2.5 mm", "zz", "mat ONE!", "(alloy)"] + ["spare%d" % i for i in range(6)]
ATTNAMES = ["atmosphere", "deadlayer", "absorbers", "window", "contact", "Filter6", "Filter7", "Be window", "a", "z"]


@st.composite
def config(draw, uid=None):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=3))
    ls = list(s.get("filters", [])) + s["sample"] + s.get("attenuators", []) + [x for x in [(s.get("det") or {}).get("layer")] if x]
    names = draw(st.permutations(MATNAMES))
    mats, k = {}, 0
    for l in ls:
        # materials are user-defined ones, elements, or formulas
        if l["kind"] == "element":
            continue
        if k < len(names) and draw(st.integers(0, 3)):
            l["kind"], l["name"] = "user", names[k]
            mats[names[k]] = {"comp": dict(l["comp"]), "density": draw(st.sampled_from([1.0, 2.5, 0.1])), "thickness": draw(st.sampled_from([1.0, 0.01])), "nested": None,
                              "keys": draw(st.sampled_from(["all", "all", "nocomment", "nodensity", "nothickness"])), "case": draw(st.integers(0, 2))}
            k += 1
        else:
            el = sorted(l["comp"])[0]
            l["kind"], l["name"], l["comp"] = "element", el, {el: 1.0}
    # a material made of another one
    if len(mats) > 1 and draw(st.booleans()):
        a, b = sorted(mats)[:2]
        f = draw(st.sampled_from([0.5, 0.25, 2.0]))
        mats[a]["nested"] = [b, f]
    for n in range(draw(gen.count(0, 2, 14, often=5))):
        if k < len(names):
            mats[names[k]] = {"comp": {draw(st.sampled_from(["Fe", "Pb", "O"])): 1.0}, "density": 7.0, "thickness": 3.0, "nested": None, "keys": "all", "case": 0}
            k += 1
    if s.get("det"):
        s["det"]["it"] = None
    c = {"s": s, "mats": mats, "zero": draw(st.lists(st.integers(0, 5), min_size=3, max_size=8)),
         "off": draw(st.lists(st.sampled_from(["energy", "energy", "none", "filter", "attenuator", "layer", "ufilter", "uatt", "detector", "matrix"]), max_size=5)),
         "multi": draw(st.booleans()), "missing": draw(st.lists(st.sampled_from(["energyweight", "energyflag", "energyscatter"]), max_size=2)),
         "scat": draw(st.sampled_from([None, 0.0, 90.0, 33.5])), "perm": draw(st.randoms(use_true_random=False)).random(), "style": draw(st.integers(0, 5)),
         "eol": draw(st.sampled_from(["\n", "\r\n"])), "case": draw(st.integers(0, 3)), "scatter": draw(st.lists(st.integers(0, 1), min_size=4, max_size=4)),
         "nosample": draw(st.integers(0, 9)) == 0}
    return c


def flat(c, name):
    m = c["mats"][name]
    comp = normalise(m["comp"])
    if m["nested"]:
        b, f = m["nested"]
        t = sum(m["comp"].values()) + f
        comp = {k: v / t for k, v in m["comp"].items()}
        for k, v in flat(c, b).items():
            comp[k] = comp.get(k, 0.0) + v * f / t
    return comp


def prepare(c):
    """the set-up entered by hand, and the text of the file"""
    import random
    s = dict(copy.deepcopy(c["s"]), ref=0)          # (the first layer is the reference one)
    rnd = random.Random(c["perm"])
    z = [0]

    def zero():
        z[0] += 1
        return c["zero"][z[0] % len(c["zero"])]

    def line(l, tail):
        """fields of the line of a layer; adjusts the layer to what they mean"""
        rho, t = l["rho"], l["t"]
        if l["kind"] == "user":
            m = c["mats"][l["name"]]
            l["comp"] = flat(c, l["name"])
            # 0 stands for the default value of the material
            if zero() == 0:
                rho, l["rho"] = 0.0, m["density"] if m["keys"] != "nodensity" else 1.0
            if zero() == 0:
                t, l["t"] = 0.0, m["thickness"] if m["keys"] != "nothickness" else 1.0
        return ["1", l["name"], repr(rho), repr(t)] + tail

    def extra():
        return [rnd.choice(["0", "0", "0.0"]), rnd.choice(["-", "Fe", "Nosuch", "MULTILAYER"]), repr(rnd.choice([0.0, 1.0, 3.5])), repr(rnd.choice([0.0, 0.1])), rnd.choice(["1.0", "0.5"])]

    sections = {}
    # ---- beam
    e = [[repr(x), repr(w), "1"] for x, w in s["beam"]]
    if "energyweight" in c["missing"]:
        s["beam"] = [[x, 1.0] for x, w in s["beam"]]
    if "energyflag" not in c["missing"]:
        for o in c["off"]:
            if o == "energy":
                e.insert(rnd.randrange(len(e) + 1), [rnd.choice(["5.5", "None", "0.0", "-3.0"]), rnd.choice(["1.0", "0.0"]), "0"])
            elif o == "none":
                e.insert(rnd.randrange(len(e) + 1), ["None", "1.0", "1"])
    else:
        for o in c["off"]:
            if o == "none":
                e.insert(rnd.randrange(len(e) + 1), ["None", "1.0", "1"])
    s["flags"] = sorted((float(x[0]), 1 if "energyscatter" in c["missing"] else c["scatter"][i % 4]) for i, x in enumerate(e) if x[0] != "None" and ("energyflag" in c["missing"] or x[2] == "1"))
    fit = [["energy", ", ".join(x[0] for x in e)], ["energyweight", ", ".join(x[1] for x in e)], ["energyflag", ", ".join(x[2] for x in e)],
           ["energyscatter", ", ".join(str(c["scatter"][i % 4]) for i in range(len(e)))], ["use_limit", "1"], ["fitweight", "1"]]
    sections["fit"] = [x for x in fit if x[0] not in c["missing"]]
    # ---- layers
    att = []
    nums = rnd.sample(range(10), 10)
    for i, l in enumerate(s.get("filters", [])):
        att.append(["BeamFilter%d" % nums.pop(), line(l, [repr(l["f"])])])
    names = list(ATTNAMES)
    rnd.shuffle(names)
    for l in s.get("attenuators", []):
        att.append([names.pop(), line(l, [repr(l["f"])])])
    for o in c["off"]:
        if o == "filter" and nums:
            att.append(["BeamFilter%d" % nums.pop(), extra()])
        elif o == "attenuator":
            att.append([names.pop(), extra()])
    det = s.get("det")
    if det and det.get("layer"):
        att.append(["Detector", line(det["layer"], ["1.0"])])
    elif "detector" in c["off"]:
        att.append(["Detector", extra()])
    a, b = s["geo"][:2]
    scat = a + b if c["scat"] is None else c["scat"]
    s["geo"] = [a, b, scat if scat else 0.0]
    geo = [repr(a), repr(b), "0" if c["scat"] is None else "1", repr(90.0 if c["scat"] is None else scat)]
    if c["nosample"]:
        s["sample"], s["geo"] = [], None
        if "matrix" in c["off"]:
            att.append(["Matrix", ["0", "MULTILAYER", "0.0", "0.0"] + geo])
    elif len(s["sample"]) > 1 or c["multi"]:
        att.append(["Matrix", ["1", "MULTILAYER", "0.0", "0.0"] + geo])
        nums = sorted(rnd.sample(range(10), len(s["sample"])))
        free = [i for i in range(10) if i not in nums]
        lay = []
        for i, l in zip(nums, s["sample"]):
            lay.append(["Layer%d" % i, line(l, [])])
        for o in c["off"]:
            if o == "layer":
                lay.append(["Layer%d" % free.pop(), extra()[:4]])
        sections["multilayer"] = [[k, ", ".join(v)] for k, v in lay]
    else:
        att.append(["Matrix", line(s["sample"][0], geo)])
        if "layer" in c["off"]:
            sections["multilayer"] = [["Layer0", "1, Fe, 1.0, 1.0"]]       # not asked for
    if "layer" in c["off"] and c["nosample"]:
        sections["multilayer"] = [["Layer0", "1, Fe, 1.0, 1.0"]]
    sections["attenuators"] = [[k, ", ".join(v)] for k, v in att]
    # ---- tables
    for key, sec, off in (("ufilters", "UserBeamFilters", "ufilter"), ("uatt", "UserAttenuators", "uatt")):
        for i, t in enumerate(s.get(key, [])):
            sections["%s.Table %d" % (sec, i)] = [["energy", ", ".join(map(repr, t[0]))], ["transmission", ", ".join(map(repr, t[1]))], ["use", "1"], ["comment", "table %d" % i]]
        if off in c["off"]:
            sections[sec + ".unused"] = [["energy", "1.0, 2.0"], ["transmission", "0.0, 0.1"], ["use", "0"]]
        if off in c["off"] and zero() < 3:
            sections[sec] = []
    # ---- materials
    for n, m in c["mats"].items():
        comp = sorted(m["comp"].items())
        if m["nested"]:
            comp.insert(rnd.randrange(len(comp) + 1), tuple(m["nested"]))
        sec = [["CompoundList", ", ".join(k for k, _ in comp)], ["CompoundFraction" + ("s" if m["case"] == 1 else ""), ", ".join(repr(v) for _, v in comp)]]
        if m["keys"] != "nocomment":
            sec.append(["Comment", "about " + n])
        if m["keys"] != "nodensity":
            sec.append(["Density", repr(m["density"])])
        if m["keys"] != "nothickness":
            sec.append(["Thickness", repr(m["thickness"])])
        if m["case"] == 2:
            sec = [[k.lower(), v] for k, v in sec]
        sections["Materials." + n] = sec
    # ---- detector
    if det:
        con = []
        if det.get("distance"):
            con.append(["distance", repr(det["distance"])])
        if det.get("diameter"):
            con.append(["area", repr(math.pi * det["diameter"] ** 2 / 4)])
        con += [["flux", "1e10"], ["time", "1.0"], ["usematrix", "0"]]
        sections["concentrations"] = con
    sections["peaks"] = [["Fe", "K"], ["Pb", "L3, L2, M"]]
    sections["detector"] = [["gain", "0.01"], ["zero", "0.0"]]
    # ---- the text
    order = list(sections)
    rnd.shuffle(order)
    out = []
    for sec in order:
        name = sec
        if c["case"] == 1 and sec in ("fit", "attenuators", "multilayer", "concentrations"):
            name = sec.capitalize()
        elif c["case"] == 2 and sec in ("fit", "attenuators", "multilayer", "concentrations"):
            name = sec.upper()
        elif c["case"] == 3 and "." in sec:
            name = sec[:sec.index(".")].lower() + sec[sec.index("."):]
        out.append("[%s]" % name)
        keys = list(sections[sec])
        rnd.shuffle(keys)
        for k, v in keys:
            if c["style"] == 1:
                out.append("# " + k)
            if c["style"] == 2 and ", " in v:
                h = v.split(", ")
                n = len(h) // 2 or 1
                out += ["%s = %s," % (k, ", ".join(h[:n])), "\t" + ", ".join(h[n:])]
            elif c["style"] == 3:
                out.append("%s=%s" % (k, v.replace(", ", ",")))
            elif c["style"] == 4:
                out.append("  %s  =  %s  ; %s" % (k, v, k))
            else:
                out.append("%s = %s" % (k, v))
        if c["style"] in (0, 5):
            out.append("")
    # (for the layers set after reading, by name)
    s["by name"] = {k: [[l["name"], l["rho"], l["t"], l.get("f", 1.0)] for l in s.get(k, [])] for k in ("filters", "sample", "attenuators")}
    # by hand: every material inline
    for l in s.get("filters", []) + s["sample"] + s.get("attenuators", []) + ([det["layer"]] if det and det.get("layer") else []):
        if l["kind"] == "user":
            l["kind"] = "material"
    return s, c["eol"].join(out) + c["eol"]


def layers(xs):
    return sorted([(x.getMaterialName(), x.getDensity(), x.getThickness(), x.getFunnyFactor()) for x in xs])


def expected(s):
    """the getters after reading"""
    return {"filters": sorted((l["name"], l["rho"], l["t"], l["f"]) for l in s.get("filters", [])),
            "sample": [(l["name"], l["rho"], l["t"]) for l in s["sample"]],
            "attenuators": sorted((l["name"], l["rho"], l["t"], l["f"]) for l in s.get("attenuators", []))}


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    cs = [draw(config()) for _ in range(n)]
    return {"files": cs, "r": [draw(xrfgen.requests(c["s"], maxn=2)) for c in cs], "sec": draw(st.sampled_from([0, 0, 1])), "how": draw(st.integers(0, 2)), "later": draw(st.integers(0, 2))}


def run(c):
    import vfx_ext
    import fisx
    labels = set()
    d = tempfile.mkdtemp(prefix="cfg")
    path = os.path.join(d, "a.cfg")
    try:
        xrf, py = None, None
        for n, f in enumerate(c["files"]):
            hand, body = prepare(f)
            hand0 = copy.deepcopy(hand)
            with open(path, "wb") as fh:
                fh.write(body.encode("ascii"))
            if xrf is None:
                if c["how"] == 0:
                    xrf, py = vfx_ext.CXRF(path), fisx.XRF()
                    py.readConfigurationFromFile(path)
                else:
                    xrf, py = vfx_ext.CXRF(), fisx.XRF()
                    if c["how"] == 1:
                        xrf.setGeometry(12., 13., 14.)
                    xrf.readConfigurationFromFile(path)
                    py.readConfigurationFromFile(path.encode())
            else:
                xrf.readConfigurationFromFile(path)
                py.readConfigurationFromFile(path)
                labels.add("read again")
            what = "file %d" % n
            # --- getters
            tot = sum(w for _, w in hand["beam"])
            beam = xrf.getBeam()
            want = sorted((e, w / tot) for e, w in hand["beam"])
            eq(sorted(zip(beam[0], beam[1])), want, "beam of " + what, rel=1e-12)
            eq(sorted(zip(beam[0], beam[2])), hand["flags"], "characteristic flags of the beam of " + what)
            x = expected(hand)
            eq(layers(xrf.getBeamFilters()), x["filters"], "beam filters of " + what, rel=1e-12)
            eq([(l.getMaterialName(), l.getDensity(), l.getThickness()) for l in xrf.getSample()], x["sample"], "sample of " + what, rel=1e-12)
            eq(layers(xrf.getAttenuators()), x["attenuators"], "attenuators of " + what, rel=1e-12)
            geo = hand["geo"] or [45.0, 45.0, 90.0]
            eq([xrf.getAlphaIn(), xrf.getAlphaOut(), xrf.getScatteringAngle()], geo, "geometry of " + what)
            for key, got in (("ufilters", xrf.getUserBeamFilters()), ("uatt", xrf.getUserAttenuators())):
                eq(sorted((t[0], t[1].strip(), sorted(t[2].items())) for t in got), [("Table %d" % i, "table %d" % i, sorted(zip(*t))) for i, t in enumerate(hand.get(key, []))], "tables of " + what)
            mats = {m.getName(): m for m in xrf.getMaterials()}
            eq(sorted(mats), sorted(f["mats"]), "materials of " + what)
            for name, m in f["mats"].items():
                g = mats[name]
                comp = dict(m["comp"])
                if m["nested"]:
                    comp[m["nested"][0]] = comp.get(m["nested"][0], 0.0) + m["nested"][1]
                eq(g.getComposition(), normalise(comp), "composition of %s of %s" % (name, what), rel=1e-12)
                eq(g.getDefaultDensity(), m["density"] if m["keys"] != "nodensity" else 1.0, "density of %s" % name)
                eq(g.getDefaultThickness(), m["thickness"] if m["keys"] != "nothickness" else 1.0, "thickness of %s" % name)
                eq(g.getComment().strip(), "about " + name if m["keys"] != "nocomment" else "", "comment of %s" % name)
            det = xrf.getDetector()
            hd = hand.get("det") or {}
            eq(det.getDiameter(), hd.get("diameter") or 0.0, "detector diameter of " + what, rel=1e-9, abs_=1e-12)
            if hd.get("distance"):
                eq(det.getDistance(), hd["distance"], "detector distance of " + what)
            if hd.get("layer"):
                eq([det.getMaterialName(), det.getDensity(), det.getThickness()], [hd["layer"]["name"], hd["layer"]["rho"], hd["layer"]["t"]], "detector of " + what, rel=1e-12)
            check(hand == hand0, "case changed")
            # --- intensities
            if hand["geo"] is None:
                continue
            lib = gen.lib(f["s"]["uid"])
            lib.removeMaterials()
            other = build(hand, vfx_ext)
            for geo in (0, 1):
                a = clean(ask(xrf, lib, c["r"][n], c["sec"], geo, 1, form=1))
                b = clean(ask(other, lib, c["r"][n], c["sec"], geo, 1, form=1))
                eq(a, b, "intensities of " + what, rel=1e-9 if c["sec"] == 0 else 1e-6, abs_=1e-290 if c["sec"] == 0 else 1e-14)
                if any(y["rate"] > 1e-200 for v in a.values() for w in v.values() for y in w.values()):
                    labels.add("nt")
            # --- layers set afterwards can name the materials of the file
            if c["later"] and f["mats"]:
                L = {k: [vfx_ext.CLayer(l[0], l[1], l[2], 1.0 if k == "sample" else l[3]) for l in v] for k, v in hand["by name"].items()}
                later = xrf if c["later"] == 2 and n + 1 == len(c["files"]) else vfx_ext.CXRF(path)
                if later is not xrf:
                    later.setGeometry(*hand["geo"])
                later.setBeamFilters(L["filters"])
                later.setSample(L["sample"], 0)
                later.setAttenuators(L["attenuators"])
                b = clean(ask(later, lib, c["r"][n], c["sec"], 1, 1, form=1))
                eq(b, a, "intensities of %s with the layers set again by name" % what, rel=1e-9 if c["sec"] == 0 else 1e-6, abs_=1e-290 if c["sec"] == 0 else 1e-14)
                labels.add("later")
            if len(hand["sample"]) > 1:
                labels.add("multilayer")
            if f["mats"]:
                labels.add("materials")
            # --- and through Python
            plib = gen.pylib(f["s"]["uid"])
            a = py.getMultilayerFluorescence([[r[0], r[1], r[2]] if False else "%s %s" % (r[0], r[1]) for r in c["r"][n]], plib, c["sec"], 1, 1)
            b = ask(other, lib, [[r[0], r[1], -1] for r in c["r"][n]], c["sec"], 1, 1, form=0)
            a = clean({_t(k): {i: {_t(l): {_t(q): z for q, z in y.items()} for l, y in w.items()} for i, w in v.items()} for k, v in a.items()})
            eq(a, clean(b), "intensities of %s in Python" % what, rel=1e-9 if c["sec"] == 0 else 1e-6, abs_=1e-290 if c["sec"] == 0 else 1e-14)
            labels.add("python")
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    return sorted(labels)


def _t(x):
    return x.decode() if isinstance(x, bytes) else x


TESTS = [Test("configuration", cases(), run, 1500, rule="generated configuration files (switched-off entries, missing keys, any order, case and style), read alone or one after the other; non-trivial: intensities compared")]
