"""Runs the tests of one property in one process.  Invoked by check.py; results go to a file as JSON."""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import resource
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JSIZE = 4 * 1024 * 1024


class Failure(Exception):
    pass


def setup(pkg, quiet=True):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, pkg)
    sys.setrecursionlimit(5000)
    if quiet:
        # the library talks on std::cout
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


def load(prop):
    return importlib.import_module("vfx.checks.%s" % prop.lower())


def known_keys(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return set()
    with open(p) as f:
        return set(k["key"] for k in json.load(f).get("findings", []) if k["property"] == prop)


def guard(seconds):
    # CPU time, so that machine load cannot trigger it; default action ends the process
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def run_case(test, case):
    from vfx.harness import Violation
    try:
        return None, list(test.run(case) or [])
    except Violation as e:
        return e, []
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-3:]
        where = " <- ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb))
        return Violation("unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)), []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--pkg", required=True)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--journal")
    ap.add_argument("--deadline", type=float, default=300.)
    ap.add_argument("--isolate", default="")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    setup(a.pkg, quiet=not os.environ.get("VFX_LOUD"))
    mod = load(a.prop)
    tests = {t.name: t for t in mod.TESTS}

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        t = tests[rec["test"]]
        guard(t.cpu_limit)
        err, _ = run_case(t, rec["case"])
        guard(0)
        res = {"violation": err is not None, "message": str(err) if err else "", "key": getattr(err, "key", None)}
        with open(a.out, "w") as f:
            json.dump(res, f)
        sys.stdout.flush()
        sys.exit(1 if err is not None else 0)

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    keys = known_keys(a.prop)
    jf = os.open(a.journal, os.O_RDWR | os.O_CREAT)
    os.ftruncate(jf, JSIZE)
    jm = mmap.mmap(jf, JSIZE)
    t0 = time.time()
    only = os.environ.get("VFX_ONLY")
    if only:
        tests = {k: v for k, v in tests.items() if k == only}
    result = {"tests": {}, "violation": None, "cut": False, "known": {},
              "rules": {k: v.rule for k, v in tests.items()}}

    def journal(name, text):
        b = json.dumps({"test": name}).encode() + b"\n" + text.encode()
        b = b[:JSIZE - 16]
        jm[8:8 + len(b)] = b
        jm[0:8] = len(b).to_bytes(8, "little")

    def journal_done():
        jm[0:8] = (0).to_bytes(8, "little")

    def dump():
        tmp = a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.replace(tmp, a.out)

    names = [a.isolate] if a.isolate else list(tests)
    for name in names:
        t = tests[name]
        total = t.quick if a.tier == "quick" else t.thorough
        n = max(1, int(total * a.scale) // a.shards)
        st = {"evaluations": 0, "nontrivial": 0, "labels": {}, "hashes": [], "samples": [], "skipped": 0}
        result["tests"][name] = st
        seen = set()
        best = {"size": None}
        if hasattr(t, "seeds"):
            left = a.deadline - (time.time() - t0)
            try:
                err = fuzz(t, a, total * a.scale, st) if left > 5 and not a.isolate else None
            except Exception as e:
                result["error"] = "%s: %s" % (type(e).__name__, e)
                dump()
                sys.exit(4)
            if err is not None:
                result["violation"] = dict(err, test=name)
                break
            continue
        shrink_from = [None]
        plain = []                  # accepted non trivial cases, for the samples

        def body(case):
            if shrink_from[0] is None and time.time() - t0 > a.deadline:
                st["skipped"] += 1
                result["cut"] = True
                return
            if shrink_from[0] is not None and time.time() - shrink_from[0] > 45.:
                result["violation"] = {"test": name, "case": best["case"], "message": best["msg"]}
                dump()
                os._exit(3)
            text = json.dumps(case, sort_keys=True)
            journal(name, text)
            guard(t.cpu_limit)
            if a.isolate:
                err, labels = isolated(t, case)
            else:
                err, labels = run_case(t, case)
            guard(0)
            journal_done()
            st["evaluations"] += 1
            if err is not None and getattr(err, "key", None) in keys and err.key:
                result["known"][err.key] = result["known"].get(err.key, 0) + 1
                return
            if err is not None:
                if shrink_from[0] is None:
                    shrink_from[0] = time.time()
                if best["size"] is None or len(text) <= best["size"]:
                    best.update(size=len(text), case=json.loads(text), msg=str(err))
                raise Failure("violation")
            nt = False
            for l in labels:
                if l == "nt":
                    nt = True
                else:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
            if nt:
                h = hashlib.sha1(text.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    st["nontrivial"] += 1
                    if len(plain) < 3 or (st["nontrivial"] % 97 == 0 and len(plain) < 6):
                        if len(text) < 1500:
                            plain.append(json.loads(text))

        f = given(t.strategy)(body)
        f = hypothesis.seed((a.seed * 1000003 + a.shard * 7919 + hash_name(name)) & 0x7fffffff)(f)
        f = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                     report_multiple_bugs=False, print_blob=False)(f)
        try:
            f()
        except Failure:
            pass
        except BaseException as e:
            if best["size"] is None:
                import traceback
                result["error"] = "%s: %s" % (type(e).__name__, traceback.format_exc()[-3000:])
                dump()
                sys.exit(4)
        st["hashes"] = sorted(seen)
        st["samples"] = plain
        if best["size"] is not None:
            result["violation"] = {"test": name, "case": best["case"], "message": best["msg"]}
            break
    result["wall"] = time.time() - t0
    dump()
    # no interpreter teardown: it only costs time
    from vfx import universe
    if universe._scratch:
        import shutil
        shutil.rmtree(universe._scratch, ignore_errors=True)
    os._exit(0)


def fuzz(t, a, seconds, st):
    """the fuzzer for some seconds; returns the failing input, made small"""
    import re
    import shutil
    import subprocess
    import tempfile
    from vfx.harness import summary
    d = tempfile.mkdtemp(prefix="fuzz_")
    corpus = os.path.join(d, "corpus")
    os.mkdir(corpus)
    seed = (a.seed * 1000003 + a.shard * 7919 + hash_name(t.name)) & 0x7fffffff
    for i, b in enumerate(t.seeds(seed)):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(b)
    n0 = len(os.listdir(corpus))
    cmd = t.command("-seed=%d" % (seed or 1), "-max_total_time=%d" % max(1, int(seconds)), "-max_len=%d" % t.max_len,
                    "-reload=0", "-artifact_prefix=%s/" % d, corpus)
    r = subprocess.run(cmd, env=t.environment(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       preexec_fn=t.limits(), cwd=d)
    text = r.stderr.decode("latin-1")
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
    st["evaluations"] += int(m.group(1)) if m else 0
    names = os.listdir(corpus)
    st["nontrivial"] = len(names)
    for n in sorted(names):
        with open(os.path.join(corpus, n), "rb") as f:
            b = f.read()
        st["hashes"].append(hashlib.sha1(b).hexdigest()[:16])
        if not n.startswith("seed") and len(st["samples"]) < 2 and len(b) < 600:
            st["samples"].append({"data": b.decode("latin-1")})
    cov = re.findall(r"cov: (\d+)", text)
    if cov:
        st["labels"]["code edges reached (summed over processes)"] = int(cov[-1])
    st["labels"]["inputs to start from"] = n0
    art = [f for f in os.listdir(d) if f.split("-")[0] in ("crash", "timeout", "oom")]
    out = None
    if art:
        p = os.path.join(d, art[0])
        msg = summary(text, r.returncode)
        with open(p, "rb") as f:
            best = f.read()
        if art[0].startswith("crash"):
            m = os.path.join(d, "minimised")
            subprocess.run(t.command("-minimize_crash=1", "-max_total_time=30", "-exact_artifact_path=" + m, p),
                           env=t.environment(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=t.limits(), cwd=d)
            if os.path.exists(m):
                with open(m, "rb") as f:
                    small = f.read()
                err, _ = run_case(t, {"data": small.decode("latin-1")})
                if err is not None and len(small) <= len(best):
                    best = small
        out = {"case": {"data": best.decode("latin-1")}, "message": msg}
    elif r.returncode:
        raise RuntimeError("fuzzer exit %d: %s" % (r.returncode, text[-1500:]))
    shutil.rmtree(d, ignore_errors=True)
    return out


def hash_name(n):
    return int(hashlib.sha1(n.encode()).hexdigest()[:8], 16)


def isolated(t, case):
    """the case in a child, so that a crash can be shrunk"""
    from vfx.harness import Violation
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            guard(t.cpu_limit)
            err, _ = run_case(t, case)
            if err is not None:
                os.write(w, str(err).encode()[:4000])
                code = 7
        except BaseException:
            code = 7
        os._exit(code)
    os.close(w)
    msg = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return Violation(describe_signal(s)), []
    if os.WEXITSTATUS(status):
        return Violation(msg.decode(errors="replace") or "exit status %d" % os.WEXITSTATUS(status)), []
    return None, []


def describe_signal(s):
    if s == signal.SIGVTALRM:
        return "the call does not return (CPU time limit)"
    return "the process was ended by %s" % signal.Signals(s).name


if __name__ == "__main__":
    main()
