"""C03 the element library reproduces the data files it was given"""
import json
import os

from hypothesis import strategies as st

from .. import gen, universe
from ..build import REPO
from ..harness import Test, check, eq, rejects
from ..model import ShellModel
from ..universe import SUBSHELLS, SYMBOLS

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "element_table.json")))
SUB = {"K": ["K"], "L": ["L1", "L2", "L3"], "M": ["M1", "M2", "M3", "M4", "M5"]}
KINDS = ["consts", "rad", "nonrad"]


def constants(row, s):
    """columns of a constants file -> what is kept"""
    c = dict(ShellModel(s).const)
    for k, v in row.items():
        if k.startswith("omega"):
            c["omega"] = v
        elif len(k) <= 4 and k != "Z":
            c[k] = v
    return c


def radiative(row, s):
    m = ShellModel(s)
    m.set_rad(sorted(row.items()))
    return m.rad


def nonradiative(row, s):
    m = ShellModel(s)
    m.set_non(sorted(row.items()))
    return m.non


class State:
    """what the library has to report: per element and shell"""

    def __init__(self, binding):
        self.binding = binding                                     # z -> shell -> energy
        self.consts = [{} for _ in range(109)]
        self.rad = [{} for _ in range(109)]
        self.nonrad = [{} for _ in range(109)]
        self.files = {k: {m: None for m in "KLM"} for k in KINDS}

    def load(self, kind, main, tables, fname):
        """tables: subshell -> list of rows (dict label -> value, without Z)"""
        for s in SUB[main]:
            for n, row in enumerate(tables[s]):
                if kind == "consts":
                    self.consts[n][s] = constants(row, s)
                elif self.binding[n + 1].get(s, 0.0) > 0:
                    getattr(self, kind)[n][s] = (radiative if kind == "rad" else nonradiative)(row, s)
        self.files[kind][main] = fname


def tables_of(u, kind, main, nrows=None):
    t = {"consts": u.consts, "rad": u.rad, "nonrad": u.nonrad}[kind]
    n = nrows or u.NROWS
    return {s: [dict(t[z][s]) for z in range(1, n + 1)] for s in SUB[main]}


def text_of(tables, kind, main, cols, title="x", first=1):
    """the same rows with the columns in the order given by the numbers cols"""
    import random
    scans = []
    for i, s in enumerate(SUB[main]):
        keys = sorted(tables[s][0])
        random.Random(cols * 31 + i).shuffle(keys)
        labs = ["Z"] + [("omega" + s if k == "omega" else k) for k in keys]
        scans.append((title, labs, [[z + 1] + [r[k] for k in keys] for z, r in enumerate(tables[s])]))
    return universe.spec_text(scans)


def compare(lib, py, stt, zs, what):
    for z in zs:
        sy = SYMBOLS[z - 1]
        b = stt.binding[z]
        e = lib.getElementCopy(sy)
        got = lib.getBindingEnergies(sy)
        eq({k: v for k, v in got.items() if k in b}, b, "%s: binding energies of %s" % (what, sy))
        eq(e.getBindingEnergies(), got, "%s: binding energies of %s (element)" % (what, sy))
        if py:
            eq({k: v for k, v in py.getBindingEnergies(sy).items() if k in b}, b, "%s: Python binding energies of %s" % (what, sy))
        for s in SUBSHELLS:
            n = z - 1
            if s not in b:
                continue
            w = stt.consts[n].get(s, ShellModel(s).const)
            g = lib.getShellConstants(sy, s)
            eq({k: v for k, v in g.items() if k in w}, w, "%s: shell constants of %s %s" % (what, sy, s))
            eq(e.getShellConstants(s), g, "%s: shell constants of %s %s (element)" % (what, sy, s))
            eq(lib.getRadiativeTransitions(sy, s), stt.rad[n].get(s, {}), "%s: radiative transitions of %s %s" % (what, sy, s))
            eq(lib.getNonradiativeTransitions(sy, s), stt.nonrad[n].get(s, {}), "%s: non-radiative transitions of %s %s" % (what, sy, s))
            if py:
                eq(py.getShellConstants(sy, s), g, "%s: Python shell constants of %s %s" % (what, sy, s))
                eq(py.getRadiativeTransitions(sy, s), stt.rad[n].get(s, {}), "%s: Python radiative transitions of %s %s" % (what, sy, s))
                eq(py.getNonradiativeTransitions(sy, s), stt.nonrad[n].get(s, {}), "%s: Python non-radiative of %s %s" % (what, sy, s))


def rows_binding(u, zmax=109):
    return {z: dict(u.binding[min(z, u.NROWS)]) for z in range(1, zmax + 1)}


def start(u):
    stt = State(rows_binding(u))
    for kind in KINDS:
        for m in "KLM":
            stt.load(kind, m, tables_of(u, kind, m), None)
    return stt


anyuid = st.integers(0, 1500).map(lambda i: (gen.SEED % 100000) * 10000 + i)
load = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "main": st.sampled_from("KLM"), "src": anyuid,
                              "cols": st.integers(0, 99), "rows": st.sampled_from([100, 100, 100, 109, 40, 6, 3, 1]),
                              "bad": st.integers(0, 9)})


@st.composite
def cases(draw):
    return {"uid": draw(anyuid), "bind": draw(st.one_of(st.none(), anyuid)), "loads": draw(st.lists(load, max_size=6)),
            "mu": draw(st.booleans()), "zs": draw(st.lists(st.integers(1, 109), min_size=1, max_size=4)), "py": draw(st.booleans())}


def put(name, text):
    p = os.path.join(universe.scratch(), name)
    with open(p, "w") as f:
        f.write(text)
    return p


def run(c):
    import fisx
    import vfx_ext
    u = universe.get(c["uid"])
    d = u.dir
    args, stt = [], start(u)
    if c["bind"] is not None:
        ub = universe.get(c["bind"])
        args = [put("bind.dat", ub.binding_text())]
        stt = State(rows_binding(ub))
        for kind in KINDS:
            for m in "KLM":
                stt.load(kind, m, tables_of(u, kind, m), None)
    lib = vfx_ext.CElements(d, *args)
    py = fisx.Elements(d, *args) if c["py"] else None
    labels = ["nt"] if c["loads"] else []
    zs = sorted(set(u.rich[:3] + c["zs"] + (ub.rich[:2] if c["bind"] is not None else [])))
    compare(lib, py, stt, range(1, 110), "new library")
    for m in "KLM":
        for f, n in ((lib.getShellConstantsFile, "ShellConstants"), (lib.getShellRadiativeTransitionsFile, "ShellRadiativeRates"),
                     (lib.getShellNonradiativeTransitionsFile, "ShellNonradiativeRates")):
            check(os.path.basename(f(m)) == "EADL97_%s%s.dat" % (m, n) and os.path.realpath(os.path.dirname(f(m))) == os.path.realpath(d),
                  "reported file %r" % f(m))
    mus = {SYMBOLS[z - 1]: lib.getMuTable(SYMBOLS[z - 1]) for z in zs}
    for k, l in enumerate(c["loads"]):
        us = universe.get(l["src"])
        kind, main = l["kind"], l["main"]
        src = tables_of(us, kind, main)
        nr = l["rows"]
        t = {s: (src[s] * 2)[:nr] for s in SUB[main]}
        fname = put("load%d.dat" % k, text_of(t, kind, main, l["cols"]))
        setc = {"consts": "setShellConstantsFile", "rad": "setShellRadiativeTransitionsFile", "nonrad": "setShellNonradiativeTransitionsFile"}[kind]
        setp = {"consts": "setShellConstantsFile", "rad": "setShellRadiativeTransitionsFile", "nonrad": None}[kind]
        if l["bad"] == 0:
            other = {"K": "L", "L": "M", "M": "K"}[main]
            check(rejects(getattr(lib, setc), other, fname), "a file for %s accepted for %s" % (main, other))
            check(rejects(getattr(lib, setc), main, fname + "x"), "missing file accepted")
            check(rejects(getattr(lib, setc), main + "1", fname), "shell %s1 accepted" % main)
        else:
            getattr(lib, setc)(main, fname)
            stt.load(kind, main, t, fname)
            if py is not None and setp:
                getattr(py, setp)(main, fname)
            elif py is not None:
                py = None
        get = {"consts": lib.getShellConstantsFile, "rad": lib.getShellRadiativeTransitionsFile, "nonrad": lib.getShellNonradiativeTransitionsFile}[kind]
        if stt.files[kind][main]:
            eq(get(main), stt.files[kind][main], "reported file")
        compare(lib, py, stt, range(1, 110), "after loading %s %s" % (kind, main))
    for n, w in mus.items():
        eq(lib.getMuTable(n), w, "attenuation tables of %s after loading shell data" % n, rel=0)
    return labels


@st.composite
def mu_cases(draw):
    return {"uid": draw(anyuid), "src": draw(anyuid), "n": draw(st.sampled_from([1, 3, 20, 99])), "cols": draw(st.integers(0, 50)),
            "pair": draw(st.sampled_from([0, 1, 2])), "lacks": draw(st.integers(0, 3)), "scan": draw(st.integers(0, 98)), "names": draw(st.integers(0, 2)), "route": draw(st.sampled_from(["call", "ctor", "py", "pycall"]))}


def run_mu(c):
    """a cross sections file is the same as giving each table by hand"""
    import random

    import fisx
    import vfx_ext
    u, us = universe.get(c["uid"]), universe.get(c["src"])
    heads = [["PhotonEnergy[keV]", "Rayleigh(coherent)[cm2/g]", "Compton(incoherent)[cm2/g]", "Photoelectric[cm2/g]", "PairProduction[cm2/g]"],
             ["ENERGY(keV)", "RAYLEIGH", "COMPTON", "PHOTO", "PAIR"],
             ["energy", "coherent", "compton", "photoelectric", "pair"]][c["names"]]
    order = list(range(len(heads)))
    random.Random(c["cols"]).shuffle(order)
    scans, ref = [], []
    haspair = lambda z: c["pair"] == 1 or (c["pair"] == 2 and z % 3 == 1)  # 2: only some of the elements have it
    full = order
    for z in range(1, c["n"] + 1):
        rows = [[r[0], r[1], r[2], max(r[4], 1e-6), 1e-3 * k] for k, r in enumerate(us.epdl[z])]
        rows = [[float("%.6E" % v) for v in r] for r in rows]
        ref.append(rows)
        order = full if haspair(z) else [i for i in full if i != 4]
        scans.append(("Z%d" % z, [heads[i] for i in order], [[r[i] for i in order] for r in rows]))
    f = put("xs.dat", universe.spec_text(scans))
    if c["route"] == "ctor":
        bnd = put("b.dat", u.binding_text())
        lib = vfx_ext.CElements(u.dir, bnd, f)
    elif c["route"] == "call":
        lib = vfx_ext.CElements(u.dir)
        lib.setMassAttenuationCoefficientsFile(f)
    elif c["route"] == "py":
        lib = fisx.Elements(u.dir, put("b.dat", u.binding_text()), f)
    else:
        lib = fisx.Elements(u.dir)
        lib.setMassAttenuationCoefficientsFile(f.encode() if c["cols"] % 2 else f)
    byhand = vfx_ext.CElements(u.dir)
    for z, rows in enumerate(ref):
        cols = list(zip(*rows))
        byhand.setMu(SYMBOLS[z], cols[0], cols[3], cols[1], cols[2], cols[4] if haspair(z + 1) else [0.0] * len(rows))
    es = [0.0123, 0.5, 3.3, 12.0, 77.0]
    for z in sorted(set(list(range(0, c["n"], 7)) + [c["n"] - 1] + [x - 1 for x in u.rich])):
        sy = SYMBOLS[z]
        a = lib.getElementMassAttenuationCoefficients(sy, es) if c["route"].startswith("py") else lib.getMuV(sy, es)
        a = {(k.decode() if isinstance(k, bytes) else k): v for k, v in a.items()}
        b = byhand.getMuV(sy, es)
        for k in b:
            eq(a[k], b[k], "%s %s from a file / by hand" % (sy, k), rel=1e-9)
    # one element without one of the needed columns
    k = c["scan"] % len(scans)
    t, h, rows = scans[k]
    out = h.index(heads[c["lacks"]])
    scans[k] = (t, [x for i, x in enumerate(h) if i != out], [[x for i, x in enumerate(r) if i != out] for r in rows])
    g = put("xs2.dat", universe.spec_text(scans))
    check(rejects(lambda: vfx_ext.CElements(u.dir).setMassAttenuationCoefficientsFile(g)),
          "scan %d of %d has no column %s: not rejected" % (k + 1, len(scans), heads[c["lacks"]]))
    return ["nt"]


# ------------------------------------------------------------------------------------------------ distributed files
_real = {}


def parse_spec(fname):
    """independent reader of the distributed files"""
    scans, cur = [], None
    for line in open(fname):
        line = line.rstrip("\r\n")
        if line.startswith("#S"):
            cur = {"labels": None, "rows": []}
            scans.append(cur)
        elif cur is not None and line.startswith("#L"):
            cur["labels"] = [x.strip() for x in line[3:].strip().split("  ") if x.strip()]
        elif cur is not None and line.strip() and not line.startswith("#"):
            cur["rows"].append([float(x) for x in line.split()])
    return scans


def real(pymca):
    import vfx_ext
    if pymca not in _real:
        src = os.path.join(REPO, "fisx_data")
        d = os.path.join(universe.scratch(), "real%d" % pymca)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(src):
            p = os.path.join(d, f)
            if not os.path.exists(p):
                os.symlink(os.path.join(src, f), p)
        p = os.path.join(d, "EPDL97_CrossSections.dat")
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write(universe.get(7).epdl_text())
        lib = vfx_ext.CElements(d, pymca=pymca)
        pre, post = ("", "Rates") if pymca else ("EADL97_", "RadiativeRates")
        sc = parse_spec(os.path.join(d, pre + "BindingEnergies.dat"))[0]
        bind = {}
        for z in range(1, 110):
            row = sc["rows"][min(z, len(sc["rows"])) - 1]
            bind[z] = {l.split("(")[0]: v for l, v in zip(sc["labels"], row) if l != "Z"}
        stt = State(bind)

        def tabs(f, main):
            return {s: [{k: v for k, v in zip(x["labels"], r) if k != "Z"} for r in x["rows"]]
                    for s, x in zip(SUB[main], parse_spec(os.path.join(d, f)))}
        for m in "KLM":
            stt.load("consts", m, tabs("EADL97_%sShellConstants.dat" % m, m), None)
            stt.load("nonrad", m, tabs("EADL97_%sShellNonradiativeRates.dat" % m, m), None)
            stt.load("rad", m, tabs("EADL97_%sShellRadiativeRates.dat" % m, m), None)
            if pymca:
                t = tabs("%sShellConstants.dat" % m, m)
                for s in t:
                    # gamma columns are not part of the constants
                    t[s] = [{k: v for k, v in r.items() if not k.startswith("gamma")} for r in t[s]]
                stt.load("consts", m, t, None)
                stt.load("rad", m, tabs("%sShellRates.dat" % m, m), None)
        _real[pymca] = lib, stt
    return _real[pymca]


real_cases = st.fixed_dictionaries({"z": st.integers(1, 109), "pymca": st.integers(0, 1)})


def run_real(c):
    lib, stt = real(c["pymca"])
    compare(lib, None, stt, [c["z"]], "distributed files (pymca=%d)" % c["pymca"])
    return ["nt"]


info_cases = st.fixed_dictionaries({"z": st.integers(1, 109), "uid": gen.uids})


def run_info(c):
    lib, py = gen.lib(c["uid"]), gen.pylib(c["uid"])
    sy, z, col, row, name, mass, dens = TABLE[c["z"] - 1]
    e = lib.getElementCopy(sy)
    dens = dens / 1000. if dens > 0 else 1.0
    eq(lib.getAtomicNumber(sy), z, "atomic number of %s" % sy)
    eq(lib.getColumn(sy), col, "column of %s" % sy)
    eq(lib.getRow(sy), row, "row of %s" % sy)
    eq(lib.getLongName(sy), name, "name of %s" % sy)
    eq(lib.getAtomicMass(sy), mass, "mass of %s" % sy)
    eq(lib.getDensity(sy), dens, "density of %s" % sy)
    eq([e.getName(), e.getAtomicNumber(), e.getAtomicMass(), e.getDensity()], [sy, z, mass, dens], "element %s" % sy)
    eq(py.getAtomicMass(sy), mass, "Python mass of %s" % sy)
    eq(py.getAtomicNumber(sy), z, "Python atomic number of %s" % sy)
    eq(list(lib.getElementNames()), SYMBOLS[:109], "element names")
    for n in (sy, sy.lower(), sy + "x", "", "Xx"):
        eq(bool(lib.isElementNameDefined(n)), n in SYMBOLS[:109], "isElementNameDefined(%r)" % n)
    return ["nt"]


TESTS = [Test("files", cases(), run, 250, rule="synthetic data directories, another binding energies file, up to six shell file loads with any column order and number of rows; all elements compared; non-trivial: some file was loaded afterwards", cpu_limit=200),
         Test("cross_sections", mu_cases(), run_mu, 120, rule="cross section files (column order, names, number of elements) against the same tables given by hand"),
         Test("distributed", real_cases, run_real, 218, rule="the distributed EADL97 and PyMca tables, element by element"),
         Test("elements", info_cases, run_info, 400, rule="built-in element table")]
