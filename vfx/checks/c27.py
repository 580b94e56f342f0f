"""C27 concurrent calculations on shared objects give the sequential results"""
import atexit
import os
import re
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from hypothesis import strategies as st

from .. import build, gen, universe, xrfgen
from ..harness import Test, check, eq, fail
from ..xrfmodel import all_layers
from .c22 import specfile, text as spec_text
from .c23 import inifile, text as ini_text

KINDS = ["fluo", "list", "own", "mu", "element", "composition", "escape", "layer", "table", "math", "ini", "spec"]


@st.composite
def queries(draw, s, els, config, heavy):
    kind = draw(st.sampled_from(["fluo", "fluo", "list", "list"] + KINDS if heavy else KINDS))
    q = {"kind": kind, "els": [], "fams": [], "lays": [], "e": [], "w": [], "a": 0, "b": 0, "c": 0, "x": 0.0, "comp": {}}
    e0 = s["beam"][0][0]
    energy = st.one_of(st.sampled_from([e for e, _ in s["beam"]]), gen.logfl(0.3, 120., 4), gen.fl(0.5, 1.0, 3).map(lambda f: gen.round_sig(f * e0, 6)))
    if kind in ("fluo", "list", "own"):
        r = draw(xrfgen.requests(s))
        q.update(els=[x[0] for x in r], fams=[x[1] for x in r], lays=[x[2] for x in r], a=draw(st.sampled_from([0, 1, 1, 2])), b=draw(st.integers(0, 1)), c=draw(st.integers(0, 1)))
        if draw(st.integers(0, 2)):
            q["e"] = draw(st.lists(energy, min_size=1, max_size=2, unique=True))
            q["w"] = [draw(st.sampled_from([1.0, 0.5, 0.1])) for _ in q["e"]]
    elif kind in ("mu", "escape"):
        q.update(els=draw(st.lists(st.sampled_from(els), min_size=1, max_size=2)), e=draw(st.lists(energy, min_size=1, max_size=3)),
                 comp={k: draw(st.sampled_from([1.0, 0.5, 0.01])) for k in draw(st.lists(st.sampled_from(els), min_size=1, max_size=3, unique=True))},
                 x=draw(st.sampled_from([90., 45., 30.])))
    elif kind in ("element", "composition"):
        q.update(els=draw(st.lists(st.sampled_from(els), min_size=1, max_size=3)), e=draw(st.lists(energy, min_size=1, max_size=3)))
    elif kind in ("layer", "table"):
        q.update(e=draw(st.lists(energy, min_size=1, max_size=3)), x=draw(st.sampled_from([90., 45., 30.])))
    elif kind == "math":
        q.update(e=draw(st.lists(gen.logfl(1e-3, 30., 4), min_size=1, max_size=4)), x=draw(gen.logfl(0.01, 10., 3)))
    return q


@st.composite
def cases(draw, heavy=False):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=2, hi=10., maxn=2 if heavy else 3, big=False))
    uid = s["uid"]
    els = sorted(set(k for l in all_layers(s) for k in l["comp"]))
    els = sorted(set(els + [gen.sym(draw(gen.element(uid, minz=5)))]))
    c = {"s": s, "cached": {}, "cascade": draw(st.integers(0, 1)), "escape": draw(st.integers(0, 1)), "ini": None, "spec": None}
    for el in draw(st.lists(st.sampled_from(els), max_size=3, unique=True)):
        c["cached"][el] = draw(st.lists(st.one_of(st.sampled_from([e for e, _ in s["beam"]]), gen.logfl(0.5, 100., 4)), min_size=1, max_size=4))
    if not heavy:
        if draw(st.booleans()):
            c["ini"] = draw(inifile())
        if draw(st.booleans()):
            c["spec"] = draw(specfile())
    n = draw(st.integers(2, 5))
    same = draw(st.integers(0, 2)) == 0
    c["threads"] = []
    for i in range(n):
        if same and i:
            c["threads"].append(c["threads"][0])
        else:
            c["threads"].append([draw(queries(s, els, c, heavy)) for _ in range(draw(st.integers(1, 3 if heavy else 4)))])
    return c


# ------------------------------------------------------------------ the driver's language
def W(x):
    x = str(x)
    return x if x else "-"


def N(v):
    return [str(len(v))] + [repr(float(x)) for x in v]


def words(v):
    return [str(len(v))] + [W(x) for x in v]


def mapping(d):
    r = [str(len(d))]
    for k in sorted(d):
        r += [W(k), repr(float(d[k]))]
    return r


def layer(l):
    return [W(l["name"]), "1" if l["kind"] == "material" else "0"] + mapping(l["comp"]) + [repr(float(l["rho"])), repr(float(l["t"])), repr(float(l.get("f", 1.0)))]


def layers(v):
    return sum((layer(l) for l in v), [str(len(v))])


def tables(v):
    return sum((N(t[0]) + N(t[1]) for t in v), [str(len(v))])


def message(c, ini, spec):
    s = c["s"]
    r = ["case"] + N([e for e, _ in s["beam"]]) + N([w for _, w in s["beam"]])
    r += layers(s.get("filters", [])) + layers(s["sample"]) + [str(s.get("ref", 0))] + layers(s.get("attenuators", []))
    r += tables(s.get("ufilters", [])) + tables(s.get("uatt", []))
    r += N(s["geo"])
    d = s.get("det")
    r += N([d.get("diameter") or 0.0, d.get("distance") or 0.0, d.get("it") or 0.0] if d else [])
    r += layers([d["layer"]] if d and d.get("layer") else [])
    named = {l["name"]: l["comp"] for l in all_layers(s) if l["kind"] == "named"}
    r.append(str(len(named)))
    for k in sorted(named):
        r += [k] + mapping(named[k])
    r.append(str(len(c["cached"])))
    for k in sorted(c["cached"]):
        r += [k] + N(c["cached"][k])
    r += [str(c["cascade"]), str(c["escape"]), W(ini), W(spec), str(len(c["threads"]))]
    for t in c["threads"]:
        r.append(str(len(t)))
        for q in t:
            r += [q["kind"]] + words(q["els"]) + words(q["fams"]) + words(q["lays"]) + N(q["e"]) + N(q["w"])
            r += [str(q["a"]), str(q["b"]), str(q["c"]), repr(float(q["x"]))] + mapping(q["comp"])
    return " ".join(r) + "\n"


class Driver:
    def __init__(self, uid):
        self.log = os.path.join(universe.scratch(), "threads.%d.%d" % (os.getpid(), uid))
        r, w = os.pipe()
        env = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1", MALLOC_PERTURB_="0")

        def limits():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            resource.setrlimit(resource.RLIMIT_CPU, (3000, 3000))
        cmd = [build.build_threads(), universe.get(uid).dir, str(w)]
        for pre in ([], ["setarch", "-R"]):
            self.p = subprocess.Popen(pre + cmd, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=open(self.log, "wb"),
                                      pass_fds=[w], env=env, preexec_fn=limits)
            ready = self._first(r, w)
            if ready:
                break
        os.close(w)
        self.out = os.fdopen(r, "r")
        line = self.out.readline()
        if line != "ready\n":
            raise RuntimeError("the driver does not start: %s" % open(self.log).read()[-500:])
        atexit.register(self.end)

    def _first(self, r, w):
        """wait until there is an answer, or the process ended"""
        import select
        while True:
            if select.select([r], [], [], 0.2)[0]:
                return True
            if self.p.poll() is not None:
                return bool(select.select([r], [], [], 0.0)[0])

    def end(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass

    def ask(self, text):
        try:
            self.p.stdin.write(text.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        a = self.out.readline()
        if a:
            return a
        self.p.wait()
        with open(self.log, errors="replace") as f:
            t = f.read()
        return "died %d %s" % (self.p.returncode, report(t))


def report(t):
    """what the sanitizer says, in one line"""
    keep = [l.strip() for l in t.splitlines() if l.startswith(("WARNING: Thread", "SUMMARY", "ThreadSanitizer", "terminate", "  what"))
            or re.match(r" +(Write|Read|Previous|Atomic)", l) or re.match(r" +#[0-4] .*fisx_", l)]
    keep = [re.sub(r"0x[0-9a-f]+", "", re.sub(r"\(threads?\+.*|\([0-9a-f]{10,}.*", "", x)) for x in keep]
    return "; ".join(keep[:14])[:1200]


DRIVERS = {}


def driver(uid):
    if uid not in DRIVERS:
        if len(DRIVERS) >= 4:
            DRIVERS.pop(next(iter(DRIVERS))).end()
        DRIVERS[uid] = Driver(uid)
    return DRIVERS[uid]


def run(c):
    uid = c["s"]["uid"]
    d = driver(uid)
    ini = spec = ""
    if c["ini"]:
        ini = os.path.join(universe.scratch(), "t%d.ini" % os.getpid())
        with open(ini, "wb") as f:
            f.write(ini_text(c["ini"]).encode("ascii"))
    if c["spec"]:
        spec = os.path.join(universe.scratch(), "t%d.spec" % os.getpid())
        with open(spec, "wb") as f:
            f.write(spec_text(c["spec"]).encode("ascii"))
    a = d.ask(message(c, ini, spec))
    if a.startswith("died"):
        DRIVERS.pop(uid, None)
        d.end()
        fail("threads on a shared set-up: %s" % a)
    if a.startswith("diff"):
        fail("the answer to a thread is not the one obtained alone: %s" % a[5:])
    if a.startswith("skip"):
        return ["skip"]
    labels = set("kind " + q["kind"] for t in c["threads"] for q in t)
    _, n, filled = a.split()
    if int(filled) >= 2:
        labels.add("nt")
    return labels


# ------------------------------------------------------------------ through Python, which lets other threads run meanwhile
@st.composite
def py_cases(draw):
    s = draw(xrfgen.setup(maxlayers=3, maxrays=3, hi=10.))
    e0 = s["beam"][0][0]
    es = draw(st.lists(st.one_of(st.sampled_from([e for e, _ in s["beam"]]), gen.fl(0.9, 4.0, 3).map(lambda f: gen.round_sig(f * e0, 6))), min_size=2, max_size=6))
    els = sorted(set(k for l in all_layers(s) for k in l["comp"]))
    return {"s": s, "r": draw(xrfgen.requests(s)), "e": es, "sec": draw(st.sampled_from([0, 1, 1, 2])), "geo": draw(st.integers(0, 1)),
            "mf": draw(st.integers(0, 1)), "form": [draw(st.integers(0, 1)) for _ in es], "threads": draw(st.integers(2, 5)), "els": els,
            "cached": draw(st.lists(st.sampled_from(els), max_size=2, unique=True)), "busy": draw(st.integers(0, 1))}


def py_layer(cls, l, fisx):
    x = cls(l["name"] if l["kind"] != "material" else "", l["rho"], l["t"], l.get("f", 1.0))
    if l["kind"] == "material":
        m = fisx.Material("mat", 1.0, 1.0, "")
        m.setComposition(l["comp"])
        x.setMaterial(m)
    return x


def py_objects(c, fisx):
    s = c["s"]
    lib, xrf = gen.fresh_pylib(s["uid"]), fisx.XRF()
    for l in all_layers(s):
        if l["kind"] == "named":
            m = fisx.Material(l["name"], 1.0, 1.0, "")
            m.setComposition(l["comp"])
            lib.addMaterial(m, 0)
    for el in c["cached"]:
        lib.fillCache(el, c["e"])
        lib.setCacheEnabled(el, 1)
    L = lambda k: [py_layer(fisx.Layer, l, fisx) for l in s.get(k, [])]
    T = lambda k: [table(t, fisx) for t in s.get(k, [])]
    xrf.setBeam([e for e, _ in s["beam"]], [w for _, w in s["beam"]])
    xrf.setBeamFilters(L("filters"))
    xrf.setUserBeamFilters(T("ufilters"))
    xrf.setSample(L("sample"), s.get("ref", 0))
    xrf.setAttenuators(L("attenuators"))
    xrf.setUserAttenuators(T("uatt"))
    xrf.setGeometry(*s["geo"])
    d = s.get("det")
    if d:
        x = fisx.Detector("", 0.0, 0.0)
        if d.get("layer"):
            # detectors of their own material are for C++ only
            m = fisx.Material("Crystal", 1.0, 1.0, "")
            m.setComposition(d["layer"]["comp"])
            lib.addMaterial(m, 0)
            x = fisx.Detector("Crystal", d["layer"]["rho"], d["layer"]["t"], d["layer"].get("f", 1.0))
        if d.get("diameter"):
            x.setDiameter(d["diameter"])
        if d.get("distance"):
            x.setDistance(d["distance"])
        xrf.setDetector(x)
    return xrf, lib


def table(t, fisx):
    x = fisx.TransmissionTable()
    x.setTransmissionTableFromLists(t[0], t[1])
    return x


def run_py(c):
    import fisx
    reqs = c["r"]

    def one(i, xrf, lib):
        b = fisx.Beam()
        b.setBeam([c["e"][i]], [1.0])
        if c["form"][i]:
            return xrf.getMultilayerFluorescence(["%s %s" % tuple(r[:2]) if r[2] < 0 else "%s %s %d" % tuple(r) for r in reqs], lib, c["sec"], c["geo"], c["mf"], 0.0, b)
        return xrf.getFluorescence([r[0] for r in reqs], lib, [r[2] for r in reqs], [r[1] for r in reqs], c["sec"], c["geo"], c["mf"], 0.0, b)
    try:
        xrf, lib = py_objects(c, fisx)
    except Exception as e:
        if "Invalid total mass" in str(e):
            return ["skip"]
        raise
    n = len(c["e"])

    def guarded(i, xrf, lib):
        try:
            return one(i, xrf, lib)
        except Exception as e:
            return "exception " + str(e)

    def mu():
        return [dict(lib.getMassAttenuationCoefficients(el, c["e"])) for el in c["els"]]
    busy = []
    with ThreadPoolExecutor(c["threads"]) as ex:
        fs = [ex.submit(guarded, i, xrf, lib) for i in list(range(n)) * 2]
        if c["busy"]:
            for _ in range(3):
                busy.append(mu())
                py_objects(c, fisx)
        got = [f.result() for f in fs]
    for b in busy:
        eq(b, mu(), "coefficients asked meanwhile", rel=0.0, abs_=0.0)
    xrf2, lib2 = py_objects(c, fisx)
    labels = set(["busy"] if c["busy"] else [])
    for i in range(n):
        want = guarded(i, xrf2, lib2)
        for k in (i, i + n):
            if isinstance(want, str) or isinstance(got[k], str):
                check(want == got[k], "energy %r: got %.300r, alone %.300r" % (c["e"][i], got[k], want))
            else:
                eq(got[k], want, "energy %r asked by a thread" % c["e"][i], rel=0.0, abs_=0.0)
        if not isinstance(want, str) and sum(bool(x) for v in want.values() for x in v.values()):
            labels.add("nt")
    return labels


TESTS = [Test("shared", cases(), run, 1200, rule="2 to 5 threads, each with its own queries of 12 kinds on one set-up and one library, under the thread sanitizer, against the same queries alone; non-trivial: at least two answers with content", cpu_limit=120),
         Test("intensities", cases(heavy=True), run, 500, rule="the same, mostly fluorescence calculations with the energies divided over the threads", cpu_limit=120),
         Test("python", py_cases(), run_py, 600, rule="energies divided over 2 to 5 Python threads, the main one busy with the library, against one after the other; non-trivial: a line is emitted", cpu_limit=120)]
