"""C25 any input text is handled or rejected cleanly"""
import os
import random
import shutil
import tempfile

from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import seed as hseed
from hypothesis import strategies as st

from .. import gen, universe
from ..harness import FUZZ_UID, FuzzTest, Test, check, eq, fail
from ..universe import SUBSHELLS
from . import c22, c23

# ------------------------------------------------------------------ inputs the fuzzers start from


def examples(strategy, n, seed):
    out = []

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
    @given(strategy)
    def f(x):
        out.append(x)
    f()
    return out


def specfile_seeds(seed):
    return [c22.text(f).encode("latin-1", "replace") for f in examples(c22.specfile(), 30, seed)]


def ini_seeds(seed):
    out = [c23.text(f) for f in examples(c23.inifile(), 30, seed)]
    return [(t if isinstance(t, str) else t[0]).encode("latin-1", "replace") for t in out] + config_seeds(seed)[:4]


CONFIG = """[fit]
energy = 20.0, 15.0
energyweight = 1.0, 0.5
energyflag = 1, 1
energyscatter = 1, 0
[attenuators]
Matrix = 1, MULTILAYER, 5.0, 0.01, 45.0, 30.0, 0, 90.0
Detector = 1, Si, 2.33, 0.05, 1.0
air = 1, C, 0.001, 1.0, 1.0
BeamFilter0 = 1, Al, 0.001, 1.0, 1.0
[multilayer]
Layer0 = 1, Mat, 1.0, 0.1
Layer1 = 1, Fe, 1.0, 0.1
[Materials.Mat]
Comment = x
CompoundList = Fe, S
CompoundFraction = 0.7, 0.3
Density = 1.0
Thickness = 1.0
[UserBeamFilters.a]
energy=1,2,30
transmission=0.1,0.4,0.5
use=1
comment=c
[UserAttenuators.a]
energy=1,2,30
transmission=0.1,0.4,0.5
use=1
[concentrations]
distance = 5.0
area = 0.3
"""


def config_seeds(seed):
    from . import c24
    out = [CONFIG]
    for c in examples(c24.config(), 12, seed):
        try:
            t = c24.prepare(c)[1]
        except Exception:
            continue
        out.append(t)
    return [t.encode("latin-1", "replace") for t in out if len(t) < 3000]


NAMES = ["fFe2O3\nfCa(OH)2\neFe\nmMat\tFe=0.5\tH2O=0.5\nuMat\npFe\nxFe\nqFe K\tPb L 1\nsL1\tL1\n",
         "sPb\tL1\ncL1=0.5\tK=1\ntKL3\nSL1\nTL1M3=1\tL1M2=2\nNL1-M1M2=1\tL1-L2M1=3\nComega=0.1\tf12=0.3\nDL2\nBK=10\tL1=3\nlSiO2\nECdTe\ndK\nQFe K\n",
         "mA\tB=1\nmB\tA=1\nuA\nlB\nqFe K\n", "mA\tA=1\nuA\nfA\n", "qFe Ka\tS Kb\tPb L3\tPb M 0\n", "tKP10\ntL1M45\ntL1O45\ntMN\n"]


def name_seeds(seed):
    rnd = random.Random(seed)
    ops = "femrupxscStTNCDBqQlEd"
    words = ["Fe", "Pb", "S", "Cd", "H2O", "Ca(OH)2", "Fe0.5S1e-3", "K", "L", "L1", "L3", "M5", "KL3", "L1M3", "K-L1L2", "TOTAL", "omega", "f12", "Mat", "Fe K", "Pb L 1", "Fe=0.5", "Mat=1", "L1=2", "X",
             "((O))", "1e5", "all", "all other", "energy", ""]
    out = list(NAMES)
    for _ in range(12):
        out.append("\n".join(rnd.choice(ops) + "\t".join(rnd.choice(words) for _ in range(rnd.randint(1, 3))) for _ in range(rnd.randint(1, 6))))
    return [t.encode() for t in out]


def loader_seeds(seed):
    rnd = random.Random(seed)
    u = universe.get(FUZZ_UID)

    def cut(text, nrow):
        """only some rows of every scan"""
        out, n = [], 0
        for line in text.split("\n"):
            if line[:1].isdigit():
                n += 1
                if n > nrow:
                    continue
            elif line.startswith("#S"):
                n = 0
            out.append(line)
        return "\n".join(out)
    out = []
    for i, m in enumerate("KLM"):
        for k, f in ((i, u.consts_text), (3 + i, u.rad_text), (6 + i, u.nonrad_text)):
            out.append(bytes([k]) + cut(f(m), rnd.choice([1, 2, 3])).encode())
            out.append(bytes([k]) + cut(f(m), 3).encode().replace(b"  ", b"   ", 1))
    mu = "".join("#S %d a\n#N 5\n#L PhotonEnergy  Rayleigh  Compton  CoherPlusIncoh  Photoelectric  PairProduction\n1 .1 .2 0 1 0\n2 .3 .2 0 1 0\n2 .3 .2 0 5 0\n100 .3 .2 .1 .1 0\n\n" % (i + 1) for i in range(3))
    out.append(b"\x09" + mu.encode())
    out.append(b"\x0a" + cut(u.binding_text(), 3).encode())
    labels = "energy  compton  coherent  photoelectric  total  K  L1  L2  L3  M1  M2  M3  M4  M5  allother".split()
    s = "#S 1 a\n#N 15\n#L " + "  ".join(labels) + "\n1 .1 .1 1 1.2 .5 0 0 0 0 0 0 0 0 .5\n9 .1 .1 1 1.2 .5 .1 0 0 0 0 0 0 0 .4\n100 .1 .1 1 1.2 .5 .1 0 0 0 0 0 0 0 .4\n"
    out += [b"\x0b" + s.encode(), b"\x0b" + s.encode() + b"\x01" + s.encode()]
    return [b for b in out if len(b) < 4000]


# ------------------------------------------------------------------ texts through the Python interface

ELEMENTS = ["H", "C", "S", "Fe", "Pb", "Cd", "Xx", "fe", "FE"]
FORMULAS = ["H2O", "Ca(OH)2", "Fe2(SO4)3", "(Fe", "Fe)", "()", "Fe()2", "Fe0", "Fe-1", "Fe1e400", "2Fe", "Fe 2", "Fe2.5.1", "((((Fe))))2", "Fe2O", "fe2o3", "Fe" * 200, "(" * 3000 + "Fe" + ")" * 3000, "C12H22O11",
            "Fe.5", "H2(O", "Mat.1", "1", "(1)2", "Fe1e5", "Fe1E-5O", ")(", "Fe)(O"]
WORDS = st.one_of(
    st.sampled_from(ELEMENTS), st.sampled_from(FORMULAS), st.sampled_from(["K", "L", "M", "L1", "L4", "M5", "N1", "KL3", "KL", "K-L1L2", "all other", "Fe K", "Fe K 0", "Fe Ka", "Pb L3 7", "Fe K x", "Mat", "", " ", "\0", "Fe\0"]),
    st.text(alphabet="FeOHCa()123. \t-+eE", max_size=12),
    st.text(max_size=8))
# (lone surrogates cannot be converted to bytes: Python itself refuses them)
FORMS = st.sampled_from(["text", "text", "bytes", "none", "number", "list"])
AMOUNT = st.sampled_from([1.0, 0.5, 0.0, 1e-300, 1e300, 2.0])


@st.composite
def operation(draw):
    op = draw(st.sampled_from(["composition", "element", "material", "mu", "families", "factors", "shell", "cascade", "lines", "escape", "layer", "fluorescence", "Element", "Shell", "Material", "table", "files", "ini", "cache", "vector"]))
    return [op, [draw(WORDS) for _ in range(draw(st.integers(1, 3)))], [draw(FORMS) for _ in range(3)], draw(AMOUNT), draw(st.integers(0, 5))]


@st.composite
def histories(draw):
    return {"ops": draw(st.lists(operation(), min_size=1, max_size=8))}


def form(w, f):
    if f == "bytes":
        return w.encode("utf-8", "replace")
    if f == "none":
        return None
    if f == "number":
        return 3
    if f == "list":
        return [w, w]
    return w


def calls(op, words, forms, amount, k, lib, xrf, made):
    """what one operation calls: functions without arguments"""
    import fisx
    w = [form(x, f) for x, f in zip(words, forms)] + ["Fe", "K", "L1"][len(words) - 1:]
    a, b = w[0], w[1]
    d = {x: amount for x in words}
    if forms[0] == "bytes":
        d = {x.encode("utf-8", "replace"): amount for x in words}
    if op == "composition":
        return [lambda: lib.getComposition(a)]
    if op == "element":
        return [lambda f=f: f(a) for f in (lib.getAtomicMass, lib.getAtomicNumber, lib.getDensity, lib.getLongName, lib.getColumn, lib.getRow, lib.getBindingEnergies, lib.getEmittedXRayLines, lib.isCacheEnabled, lib.getCacheSize)]
    if op == "material":
        def f():
            m = fisx.Material(a, amount, 1.0, "")
            m.setComposition(d)
            lib.addMaterial(m, k % 2)
            made.add(words[0])

        def g():
            m = fisx.Material(a, 1.0, 1.0)
            m.setCompositionFromLists(words, [amount] * len(words))
            lib.addMaterial(m, 0)
        return [f, g]
    if op == "mu":
        return [lambda: lib.getMassAttenuationCoefficients(a), lambda: lib.getMassAttenuationCoefficients(a, 12.0), lambda: lib.getMassAttenuationCoefficients(d, [12.0, 3.0]),
                lambda: lib.getElementMassAttenuationCoefficients(a, 5.0), lambda: lib.getElementMassAttenuationCoefficients(a)]
    if op == "families":
        return [lambda: lib.getPeakFamilies(a, 30.0), lambda: lib.getPeakFamilies(words, 30.0)]
    if op == "factors":
        return [lambda: lib.getExcitationFactors(a, 30.0), lambda: lib.getExcitationFactors(a, [30.0, 20.0], [1.0, 2.0]), lambda: lib.getInitialPhotoelectricVacancyDistribution(a, 30.0)]
    if op == "shell":
        return [lambda f=f: f(a, b) for f in (lib.getShellConstants, lib.getRadiativeTransitions, lib.getNonradiativeTransitions)]
    if op == "cascade":
        return [lambda: lib.getCascadeModifiedVacancyDistribution("Pb", d), lambda: lib.getCascadeModifiedVacancyDistribution(a, {b"K": 1.0})]
    if op == "lines":
        return [lambda: lib.getXRayLinesFromVacancyDistribution("Pb", d), lambda: lib.getXRayLinesFromVacancyDistribution(a, {b"K": 1.0}, 1, 1)]
    if op == "escape":
        return [lambda: lib.getEscape(d, 20.0), lambda: lib.updateEscapeCache(d, [20.0])]
    if op == "layer":
        def f():
            l = fisx.Layer(a, 1.0, 0.1)
            for q in (lambda: l.getComposition(lib), lambda: l.getTransmission(20.0, lib), lambda: l.getPeakFamilies(20.0, lib), lambda: xrf.getLayerComposition(l, lib)):
                attempt(q)
            made.add("sample")
            xrf.setSample([l])
        return [f]
    if op == "fluorescence":
        return [lambda: xrf.getMultilayerFluorescence(words, lib, k % 2), lambda: xrf.getMultilayerFluorescence(a, lib), lambda: xrf.getFluorescence(words, lib, 0, [b] * len(words)), lambda: xrf.getFluorescence([a], lib, [k - 1], [b])]
    if op == "Element":
        def f():
            e = fisx.Element(a, 26)
            for q in (lambda: e.setBindingEnergies(d), lambda: e.setRadiativeTransitions(b, words, [amount] * len(words)), lambda: e.setNonradiativeTransitions(b, words, [amount] * len(words)),
                      lambda: e.getRadiativeTransitions(b), lambda: e.getNonradiativeTransitions(b), lambda: e.setShellConstants(b, d), lambda: e.getShellConstants(b), e.getBindingEnergies, e.getAtomicNumber):
                attempt(q)
        return [f]
    if op == "Shell":
        def f():
            s = fisx.Shell(a)
            for q in (lambda: s.setRadiativeTransitions(words, [amount] * len(words)), lambda: s.setNonradiativeTransitions(words, [amount] * len(words)), lambda: s.setShellConstants(d), s.getAugerRatios, s.getCosterKronigRatios,
                      s.getFluorescenceRatios, s.getFluorescenceYield, s.getShellConstants):
                attempt(q)
        return [f]
    if op == "Material":
        def f():
            m = fisx.Material(a, 1.0, 1.0, b)
            for q in (lambda: m.setName(b), lambda: m.setComposition(d), m.getComposition):
                attempt(q)
        return [f]
    if op == "table":
        def f():
            t = fisx.TransmissionTable()
            for q in (lambda: t.setName(a), lambda: t.setComment(b), lambda: t.setTransmissionTable({1.0: 0.5}, a, b), lambda: t.setTransmissionTableFromLists([1.0], [0.5], b, a), t.getName, t.getComment):
                attempt(q)
        return [f]
    if op == "files":
        return [lambda f=f: f(a, b) for f in (lib.setShellConstantsFile, lib.setShellRadiativeTransitionsFile)] + \
               [lambda f=f: f(a) for f in (lib.getShellConstantsFile, lib.getShellRadiativeTransitionsFile, lib.getShellNonradiativeTransitionsFile, lib.setMassAttenuationCoefficientsFile,
                                           fisx.SimpleSpecfile, xrf.readConfigurationFromFile, fisx.Elements, fisx.EPDL97)]
    if op == "ini":
        return [lambda: fisx.SimpleIni(a)]
    if op == "cache":
        return [lambda: lib.fillCache(a, [12.0]), lambda: lib.updateCache(a, [13.0]), lambda: lib.setCacheEnabled(a, k % 2), lambda: lib.clearCache(a), lambda: lib.setElementCascadeCacheEnabled(a, k % 2), lambda: lib.emptyElementCascadeCache(a)]
    return [lambda: fisx.Detector(a, 1.0, 0.1), lambda: xrf.setBeamFilters([[a, 1.0, 0.1, 1.0]]), lambda: xrf.setAttenuators([[a, 1.0, 0.1]]), lambda: xrf.setUserBeamFilters([[{1.0: 0.5}, a, b]])]


def attempt(f):
    """True when the call returned"""
    try:
        f()
    except MemoryError:
        fail("MemoryError")
    except SystemError as e:
        fail("SystemError: %s" % e)
    except Exception:
        return False
    return True


def probe(lib):
    import fisx
    x = fisx.XRF()
    x.setBeam([20.0], [1.0])
    x.setSample([["FeS2", 5.0, 0.01], ["Pb", 11.0, 0.01]])
    x.setGeometry(45., 45.)
    return [lib.getComposition("CaSO4"), lib.getMassAttenuationCoefficients({b"Fe": 0.5, b"Pb": 0.5}, [12.0]), lib.getExcitationFactors("Pb", [30.0]), lib.getEscape({b"Cd": 0.5, b"Te": 0.5}, 35.0),
            x.getMultilayerFluorescence(["Fe K", "S K", "Pb L"], lib, 0, 0, 1)]


_probe = []


def run_texts(c):
    import fisx
    d = universe.get(FUZZ_UID).dir
    lib = fisx.Elements(d)
    if not _probe:
        _probe.append(probe(fisx.Elements(d)))
    xrf = fisx.XRF()
    xrf.setBeam([20.0], [1.0])
    xrf.setSample([["FeS2", 5.0, 0.01], ["Pb", 11.0, 0.01]])
    xrf.setGeometry(45., 45.)
    made, ok, bad = set(), 0, 0
    cwd = os.getcwd()
    os.chdir(universe.scratch())
    try:
        for o in c["ops"]:
            for f in calls(*o, lib, xrf, made):
                if attempt(f):
                    ok += 1
                else:
                    bad += 1
    finally:
        os.chdir(cwd)
    # user materials called as the elements and formulas of the probe would be used for them
    if not made & {"CaSO4", "FeS2", "Pb", "Fe", "Cd", "Te", "S", "Ca", "O"}:
        eq(probe(lib), _probe[0], "results afterwards")
    return ["nt"] if bad else []


# ------------------------------------------------------------------ data directories with something wrong

FILES = ["EADL97_BindingEnergies.dat", "EPDL97_CrossSections.dat"] + ["EADL97_%sShell%s.dat" % (m, k) for m in "KLM" for k in ("Constants", "RadiativeRates", "NonradiativeRates")]


@st.composite
def directories(draw):
    return {"uid": draw(gen.uids), "file": draw(st.sampled_from(FILES)),
            "edits": draw(st.lists(st.tuples(st.sampled_from(["droprow", "dropcolumn", "relabel", "value", "droplabel", "dropvalue", "addvalue", "dropscan", "addscan", "empty", "truncate", "dropdata", "relabel", "value", "removed", "norows", "shuffle", "binary", "directory", "addrow"]),
                                             st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)), min_size=1, max_size=draw(st.sampled_from([1, 1, 3]))))}


def edit(text, kind, i, j):
    lines = text.split("\n")
    scans = [n for n, l in enumerate(lines) if l.startswith("#S")]
    labels = [n for n, l in enumerate(lines) if l.startswith("#L")]
    data = [n for n, l in enumerate(lines) if l[:1] in "-.0123456789" and l]
    if kind == "droprow" and data:
        del lines[data[i % len(data)]]
    elif kind == "addrow" and data:
        n = data[i % len(data)]
        lines[n:n] = [lines[n]] * (1 + j % 150)
    elif kind in ("droplabel", "relabel") and labels:
        n = labels[i % len(labels)]
        f = lines[n][3:].split("  ")
        if kind == "droplabel":
            del f[j % len(f)]
        else:
            f[j % len(f)] = ["Z", "X", "K", "L1", "TOTAL", "KL", "K(", "L3M45", "M1", "-", "f12", "all other", "omegaL1", "KL3extra", "K-", "K-L1", "L1-L2L3M1"][i % 17]
        lines[n] = "#L " + "  ".join(f)
    elif kind in ("dropvalue", "addvalue", "value") and data:
        n = data[i % len(data)]
        f = lines[n].split()
        if kind == "dropvalue":
            del f[j % len(f)]
        elif kind == "addvalue":
            f.insert(j % len(f), "1.0")
        else:
            f[j % len(f)] = ["-1.0", "0", "1e308", "abc", "1e", "nan", "inf", "1e400", "-0.5", "1.0E-320"][i % 10]
        lines[n] = " ".join(f)
    elif kind in ("dropscan", "dropdata", "addscan") and scans:
        k = i % len(scans)
        end = scans[k + 1] if k + 1 < len(scans) else len(lines)
        if kind == "dropscan":
            del lines[scans[k]:end]
        elif kind == "dropdata":
            lines[scans[k]:end] = [l for l in lines[scans[k]:end] if l.startswith("#") or not l]
        else:
            lines[end:end] = lines[scans[k]:end] * (1 + j % 12)
    elif kind == "dropcolumn" and labels:
        n = labels[i % len(labels)]
        f = lines[n][3:].split("  ")
        k = j % len(f)
        lines[n] = "#L " + "  ".join(f[:k] + f[k + 1:])
        for n in data:
            if n > labels[i % len(labels)] and (i % len(labels) + 1 == len(labels) or n < labels[i % len(labels) + 1]):
                g = lines[n].split()
                lines[n] = " ".join(g[:k] + g[k + 1:])
    elif kind == "norows":
        lines = [l for l in lines if l.startswith("#") or not l]
    elif kind == "empty":
        lines = []
    elif kind == "truncate":
        return text[:j % (len(text) + 1)]
    elif kind == "shuffle":
        random.Random(i).shuffle(lines)
    elif kind == "binary":
        r = random.Random(i)
        b = bytearray(text.encode("latin-1"))
        for _ in range(1 + j % 8):
            if b:
                b[r.randrange(len(b))] = r.randrange(256)
        return b.decode("latin-1")
    return "\n".join(lines)


def run_directory(c):
    import fisx
    u = universe.get(c["uid"])
    top = tempfile.mkdtemp(dir=universe.scratch())
    try:
        d = os.path.join(top, "d")
        os.mkdir(d)
        for f in FILES:
            if f != c["file"]:
                os.symlink(os.path.join(u.dir, f), os.path.join(d, f))
        with open(os.path.join(u.dir, c["file"]), encoding="latin-1") as f:
            text = f.read()
        p = os.path.join(d, c["file"])
        write = True
        for kind, i, j in c["edits"]:
            if kind == "removed":
                write = False
            elif kind == "directory" and write:
                write = False
                os.mkdir(p)
            else:
                text = edit(text, kind, i, j)
        if write:
            with open(p, "w", encoding="latin-1", newline="") as f:
                f.write(text)
        labels = ["nt"]
        box = []
        symbols = u.symbols[:3] + u.symbols[-3:] + ["H", "Bk"]
        if attempt(lambda: box.append(fisx.Elements(d))):
            labels.append("directory accepted")
            ask_library(box[0], symbols)
        else:
            labels.append("directory rejected")
        # the same file given to a library that works already
        lib = fisx.Elements(u.dir)
        name = c["file"]
        fs = []
        if "Shell" in name:
            m = name[7]
            if "Constants" in name:
                fs = [lambda: lib.setShellConstantsFile(m, p)]
            elif "Nonradiative" not in name:
                fs = [lambda: lib.setShellRadiativeTransitionsFile(m, p)]
        else:
            e = fisx.EPDL97(u.dir)
            z = u.rich[-1]
            before = [e.getMassAttenuationCoefficients(z, 12.0), e.getBindingEnergies(z), e.getPhotoelectricWeights(z, [12.0])]
            if attempt(lambda: e.setDataDirectory(d)):
                for zz in u.rich[:2] + u.rich[-2:] + [100, 120]:
                    for f in (lambda: e.getBindingEnergies(zz), lambda: e.getMassAttenuationCoefficients(zz), lambda: e.getMassAttenuationCoefficients(zz, [0.001, 12.0, 900.0]), lambda: e.getPhotoelectricWeights(zz, [0.001, 12.0]),
                              lambda: e.setBindingEnergies(zz, {b"K": 1.0})):
                        attempt(f)
            else:
                eq([e.getMassAttenuationCoefficients(z, 12.0), e.getBindingEnergies(z), e.getPhotoelectricWeights(z, [12.0])], before, "EPDL97 after a rejected directory", rel=0)
            fs = [lambda: lib.setMassAttenuationCoefficientsFile(p)] if "Cross" in name else [lambda: ask_library(fisx.Elements(u.dir, p), symbols)]
        for f in fs:
            attempt(f)
        ask_library(lib, symbols)
        return labels
    finally:
        shutil.rmtree(top, ignore_errors=True)


def ask_library(lib, symbols):
    for s in symbols:
        for f in (lambda: lib.getExcitationFactors(s, [30.0, 3.0]), lambda: lib.getMassAttenuationCoefficients(s, 12.0), lambda: lib.getMassAttenuationCoefficients(s), lambda: lib.getEmittedXRayLines(s),
                  lambda: lib.getEscape({s.encode(): 1.0}, 30.0), lambda: lib.getPeakFamilies(s, 30.0)):
            attempt(f)
        for sh in SUBSHELLS[:4]:
            for f in (lambda: lib.getShellConstants(s, sh), lambda: lib.getRadiativeTransitions(s, sh), lambda: lib.getNonradiativeTransitions(s, sh)):
                attempt(f)


# ------------------------------------------------------------------ materials referring to each other

@st.composite
def graphs(draw):
    n = draw(st.integers(1, 5))
    return {"edges": [[draw(st.sampled_from(["Fe", "SiO2", "M0", "M1", "M2", "M3", "M4", "M9"])) for _ in range(draw(st.integers(1, 2)))] for _ in range(n)], "where": draw(st.sampled_from(["library", "library", "configuration"]))}


def run_graph(c):
    """a chain of user materials ends at elements, or is refused"""
    import fisx
    lib = fisx.Elements(universe.get(FUZZ_UID).dir)
    n = len(c["edges"])

    def ends(i, seen):
        if i in seen or i >= n:
            return False
        return all(ends(int(x[1]), seen | {i}) for x in c["edges"][i] if x[0] == "M")
    x = fisx.XRF()
    accepted = set(range(n))
    if c["where"] == "library":
        for i, e in enumerate(c["edges"]):
            m = fisx.Material("M%d" % i, 1.0, 1.0)
            comp = {k: e.count(k) / len(e) for k in e}
            if not attempt(lambda: m.setComposition(comp)):
                accepted.discard(i)
                continue
            if not attempt(lambda: lib.addMaterial(m, 0)):
                accepted.discard(i)
    else:
        p = os.path.join(universe.scratch(), "graph%d.cfg" % os.getpid())
        with open(p, "w") as f:
            f.write("[fit]\nenergy = 20.0\nenergyweight = 1.0\nenergyflag = 1\nenergyscatter = 1\n[attenuators]\nMatrix = 1, M0, 1.0, 0.1, 45.0, 45.0, 0, 90.0\n")
            for i, e in enumerate(c["edges"]):
                u = sorted(set(e))
                f.write("[Materials.M%d]\nComment = a\nCompoundList = %s\nCompoundFraction = %s\nDensity = 1.0\nThickness = 1.0\n" % (i, ", ".join(u), ", ".join(repr(e.count(k) / len(e)) for k in u)))
        if not attempt(lambda: x.readConfigurationFromFile(p)):
            return []
    labels = []
    for i in range(n):
        l = fisx.Layer("M%d" % i, 1.0, 0.1)
        q = (lambda: lib.getComposition("M%d" % i)) if c["where"] == "library" else (lambda: x.getLayerComposition(l, lib))
        try:
            got = q()
        except Exception:
            got = None
        if i in accepted and all(int(z[1]) in accepted for e in c["edges"] for z in e if z[0] == "M" and int(z[1]) < n):
            if ends(i, frozenset()):
                check(got is not None and abs(sum(got.values()) - 1.0) < 1e-6 and set(got) <= {"Fe", "Si", "O"}, "composition of M%d: %r" % (i, got))
            elif not any(z[0] == "M" and int(z[1]) >= n for e in c["edges"] for z in e):
                labels.append("nt")
                check(got is None or not got or set(got) <= {"Fe", "Si", "O"}, "composition of a material that contains itself: %r" % (got,))
        for f in (lambda: lib.getMassAttenuationCoefficients("M%d" % i, 12.0), lambda: l.getTransmission(12.0, lib), lambda: x.getLayerMassAttenuationCoefficients(l, 12.0, lib)):
            attempt(f)
    x.setBeam([20.0], [1.0])
    x.setSample([["M0", 1.0, 0.1]])
    x.setGeometry(45., 45.)
    attempt(lambda: x.getMultilayerFluorescence(["Fe K"], lib, 0, 0, 0))
    return labels[:1]


TESTS = [
    Test("texts", histories(), run_texts, quick=4000, rule="some call was rejected"),
    Test("directories", directories(), run_directory, quick=1200, rule="every case: a data file is edited, removed or replaced"),
    Test("materials", graphs(), run_graph, quick=1500, rule="a material contains itself through others"),
    FuzzTest("specfile", specfile_seeds, quick=8),
    FuzzTest("ini", ini_seeds, quick=8),
    FuzzTest("config", config_seeds, quick=15, max_len=3000),
    FuzzTest("names", name_seeds, quick=15, max_len=400),
    FuzzTest("loaders", loader_seeds, quick=15, max_len=4000),
]
