"""What the check modules use: Violation, Test, comparison helpers."""
import json
import math


class Violation(Exception):
    """the property does not hold for this case.  key identifies a listed known finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Test:
    """One generated check.

    strategy: Hypothesis strategy of JSON-able cases
    run(case) -> iterable of labels; the label "nt" marks the case as non-trivial; raises Violation
    quick / thorough: number of cases per tier (in total over all shards)
    """

    def __init__(self, name, strategy, run, quick=2000, thorough=None, rule="", cpu_limit=60):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.rule = rule
        self.cpu_limit = cpu_limit


class FuzzTest(Test):
    """Coverage-guided search (libFuzzer, address and undefined behaviour sanitizers) on fuzz/<name>.cpp.

    seeds(n, seed) -> list of inputs (bytes) to start from; quick / thorough: seconds per shard
    """

    def __init__(self, name, seeds, quick=12, thorough=400, max_len=2000, rule=""):
        Test.__init__(self, name, None, self.execute, quick, thorough,
                      rule or "an input is non-trivial when it reaches code, or counts of it, that no earlier one reached")
        self.seeds, self.max_len = seeds, max_len

    def command(self, *args):
        from . import build
        return [build.build_fuzzer(self.name), "-close_fd_mask=1", "-timeout=60", "-rss_limit_mb=3000",
                "-print_final_stats=1"] + list(args)

    def environment(self):
        from . import universe
        import os
        return dict(os.environ, FISX_FUZZ_DATA=universe.get(FUZZ_UID).dir, TMPDIR=universe.scratch(), MALLOC_PERTURB_="0",
                    ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:handle_abort=1", UBSAN_OPTIONS="print_stacktrace=1")

    @staticmethod
    def limits(cpu=None):
        def f():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        return f

    def execute(self, case):
        """one input, in a process of its own"""
        import os
        import subprocess
        from . import universe
        p = os.path.join(universe.scratch(), "input.%d" % os.getpid())
        with open(p, "wb") as f:
            f.write(case["data"].encode("latin-1"))
        r = subprocess.run(self.command(p), env=self.environment(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           preexec_fn=self.limits(100), cwd=universe.scratch())
        os.remove(p)
        if r.returncode:
            fail("%s: %s" % (self.name, summary(r.stderr.decode("latin-1"), r.returncode)))
        return []


FUZZ_UID = -36          # a library that defines the elements the fuzz targets name


def summary(text, code):
    keep = [l.strip() for l in text.splitlines()
            if "ORACLE:" in l or "ERROR:" in l or "runtime error:" in l or "what():" in l or l.startswith("SUMMARY:") or "Assertion" in l]
    frames = [l.strip() for l in text.splitlines() if "/src/fisx_" in l][:3]
    return ("; ".join(keep[:4] + frames) or "exit status %s" % code)[:1200]


def fail(msg, key=None):
    raise Violation(msg, key)


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def close(a, b, rel=1e-9, abs_=0.0):
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return (math.isnan(a) and math.isnan(b))
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def eq(a, b, what="", rel=1e-9, abs_=1e-300, key=None):
    """deep comparison of library value a with expected b; floats by tolerance, containers exactly"""
    if isinstance(b, bool) or isinstance(a, bool):
        if bool(a) != bool(b):
            fail("%s: got %r, expected %r" % (what, a, b), key)
        return
    if isinstance(b, (int, float)):
        if not isinstance(a, (int, float)):
            try:
                a = float(a)
            except Exception:
                fail("%s: got %r, expected %r" % (what, a, b), key)
        if not close(float(a), float(b), rel, abs_):
            fail("%s: got %r, expected %r" % (what, a, b), key)
        return
    if isinstance(b, dict):
        if not isinstance(a, dict):
            fail("%s: got %r, expected a mapping" % (what, a), key)
        if set(a) != set(b):
            extra, miss = sorted(set(a) - set(b), key=str), sorted(set(b) - set(a), key=str)
            fail("%s: keys differ: unexpected %r, missing %r" % (what, extra[:6], miss[:6]), key)
        for k in b:
            eq(a[k], b[k], "%s[%r]" % (what, k), rel, abs_, key)
        return
    if isinstance(b, (list, tuple)):
        if isinstance(a, (str, bytes)) or not hasattr(a, "__len__"):
            fail("%s: got %r, expected a sequence" % (what, a), key)
        if len(a) != len(b):
            fail("%s: got length %d, expected %d (%r / %r)" % (what, len(a), len(b), short(a), short(b)), key)
        for i in range(len(b)):
            eq(a[i], b[i], "%s[%d]" % (what, i), rel, abs_, key)
        return
    if a != b:
        fail("%s: got %r, expected %r" % (what, a, b), key)


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def rejects(f, *a, **k):
    """True when the call raised a (Python visible) error"""
    try:
        f(*a, **k)
    except (MemoryError, SystemError):
        raise
    except Exception:
        return True
    return False


def dumps(case):
    return json.dumps(case, sort_keys=True)
