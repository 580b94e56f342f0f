#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
other : the check itself could not run
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vfx import build  # noqa: E402
from vfx.worker import describe_signal  # noqa: E402

PY = "/opt/veriftools/pyvenv/bin/python"
SHARDS = 8


def worker_env():
    env = dict(os.environ)
    env.update({"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                "PYTHONDONTWRITEBYTECODE": "1", "MALLOC_PERTURB_": "165"})
    return env


def cmd(a, pkg, extra):
    return [PY, "-m", "vfx.worker", "--prop", a.property, "--pkg", pkg] + extra


def replay_shard(a, pkg, sh, tmp):
    """a whole shard again: for failures that need the history of the process"""
    out, jr = os.path.join(tmp, "sh.json"), os.path.join(tmp, "shj")
    for f in (out, jr):
        if os.path.exists(f):
            os.remove(f)
    env = worker_env()
    env["VFX_ONLY"] = sh["test"]
    p = subprocess.run(cmd(a, pkg, ["--shard", str(sh["shard"]), "--shards", str(sh["shards"]), "--seed",
                                    str(sh["seed"]), "--tier", sh["tier"], "--scale", str(sh["scale"]),
                                    "--out", out, "--journal", jr, "--deadline", "420"]),
                       cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode < 0:
        rec = read_journal(jr)
        return True, describe_signal(-p.returncode) + (" at " + json.dumps(rec)[:600] if rec else ""), None
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        if r.get("violation"):
            return True, r["violation"]["message"] + " (depends on what the process did before; last case %s)" % \
                json.dumps(r["violation"]["case"])[:600], None
        if not r.get("error"):
            return False, "", None
    return None, "no answer", None


def replay_once(a, pkg, path, tmp):
    with open(path) as f:
        rec = json.load(f)
    if "shard" in rec:
        return replay_shard(a, pkg, rec["shard"], tmp)
    out = os.path.join(tmp, "replay.json")
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(cmd(a, pkg, ["--replay", path, "--out", out]), cwd=VERIF, env=worker_env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode < 0:
        return True, describe_signal(-p.returncode), None
    if p.returncode in (0, 1) and os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
        return r["violation"], r["message"], r.get("key")
    return None, "replay exit %d" % p.returncode, None


def confirm(a, pkg, rec, tmp, times=3):
    """the failing case has to fail three times in fresh processes"""
    path = os.path.join(tmp, "case.json")
    with open(path, "w") as f:
        json.dump(rec, f)
    msg = ""
    for _ in range(times):
        bad, msg, key = replay_once(a, pkg, path, tmp)
        if not bad:
            return None
    return msg


def save(a, rec, msg):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    rec = dict(rec, property=a.property, message=msg)
    text = json.dumps(rec, sort_keys=True, indent=1)
    p = os.path.join(d, "%s-%s.json" % (a.property, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(text)
    return p


def read_journal(path):
    try:
        with open(path, "rb") as f:
            n = int.from_bytes(f.read(8), "little")
            if not n:
                return None
            b = f.read(n)
        h, c = b.split(b"\n", 1)
        return {"test": json.loads(h)["test"], "case": json.loads(c)}
    except Exception:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--test")
    a = ap.parse_args()
    a.property = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    try:
        pkg = build.build_package()
        with open(os.path.join(VERIF, "vfx", "checks", a.property.lower() + ".py")) as f:
            text = f.read()
        if "FuzzTest(" in text:
            for n in build.fuzzers():
                build.build_fuzzer(n)
        if "build_threads(" in text:
            build.build_threads()
    except build.BuildError as e:
        print("the working tree does not build: %s" % e)
        return 2
    tmp = tempfile.mkdtemp(prefix="vfxrun_")
    os.environ["TMPDIR"] = tmp           # workers put their scratch there; removed with it
    try:
        if a.replay:
            bad, msg, key = replay_once(a, pkg, os.path.abspath(a.replay), tmp)
            print(msg)
            if bad:
                print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
                return 1
            return 0 if bad is False else 2
        return explore(a, pkg, tmp, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            build.prune()
        except Exception:
            pass


def explore(a, pkg, tmp, seed, t0):
    if a.test:
        os.environ["VFX_ONLY"] = a.test
    deadline = 420. if a.tier == "quick" else float(os.environ.get("VFX_THOROUGH_S", "3000"))
    procs = []
    for i in range(SHARDS):
        out = os.path.join(tmp, "out%d.json" % i)
        jr = os.path.join(tmp, "journal%d" % i)
        err = open(os.path.join(tmp, "err%d" % i), "wb")
        c = cmd(a, pkg, ["--shard", str(i), "--shards", str(SHARDS), "--seed", str(seed), "--tier", a.tier,
                         "--out", out, "--journal", jr, "--deadline", str(deadline), "--scale", str(a.scale)])
        procs.append((subprocess.Popen(c, cwd=VERIF, env=worker_env(), stderr=err, stdout=subprocess.DEVNULL), out, jr, err.name))
    crash, results, broken = None, [], None
    pending = list(procs)
    found = None
    while pending:
        for p in list(pending):
            if p[0].poll() is None:
                continue
            pending.remove(p)
            pr, out, jr, errname = p
            if pr.returncode < 0:
                rec = read_journal(jr)
                if rec is None:
                    broken = "a worker was ended by signal %d outside a case" % -pr.returncode
                else:
                    crash = dict(rec, message=describe_signal(-pr.returncode), index=procs.index(p))
            elif os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r.get("error"):
                    broken = r["error"]
                elif r["violation"] and found is None:
                    found = dict(r["violation"], index=procs.index(p))
            else:
                with open(errname, "rb") as f:
                    broken = "worker exit %d: %s" % (pr.returncode, f.read()[-2000:].decode(errors="replace"))
        if (found or crash or broken) and pending:
            # one failure is enough
            for p in pending:
                p[0].kill()
            for p in pending:
                p[0].wait()
            pending = []
        time.sleep(0.02)
    rc, violations, replay = 0, 0, None
    if crash and not found:
        best = crash
        # shrink the crash with one process per case
        out = os.path.join(tmp, "iso.json")
        try:
            subprocess.run(cmd(a, pkg, ["--isolate", crash["test"], "--shard", "0", "--shards", str(SHARDS), "--seed",
                                        str(seed), "--tier", "quick", "--out", out, "--journal",
                                        os.path.join(tmp, "jiso"), "--deadline", "60"]),
                           cwd=VERIF, env=worker_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           timeout=180)
            with open(out) as f:
                r = json.load(f)
            if r["violation"] and confirm(a, pkg, r["violation"], tmp):
                best = dict(r["violation"], index=crash["index"])
        except Exception:
            pass
        found = best
    if found:
        rec = {"test": found["test"], "case": found["case"]}
        msg = confirm(a, pkg, rec, tmp)
        if msg is None:
            # what earlier cases leave behind in the process can matter: the shard is then the history to replay
            rec = {"test": found["test"], "shard": {"test": found["test"], "shard": found["index"], "shards": SHARDS,
                                                    "seed": seed, "tier": a.tier, "scale": a.scale}}
            msg = confirm(a, pkg, rec, tmp, 2)
        if msg is None:
            broken = "a failure did not reproduce: %s" % json.dumps(found)[:1500]
        else:
            replay = save(a, rec, msg)
            violations, rc = 1, 1
            broken = None
    write_evidence(a, seed, results, violations, t0, broken)
    for k in known(a.property):
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    if rc == 1:
        print("test %s: %s" % (rec["test"], msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
        return 1
    if broken:
        print("the check could not complete: %s" % broken)
        return 2
    ev = sum(st["evaluations"] for r in results for st in r["tests"].values())
    print("property=%s held on %d cases (%.0f s)" % (a.property, ev, time.time() - t0))
    return 0


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


def write_evidence(a, seed, results, violations, t0, broken):
    tests, hashes, samples = {}, set(), []
    cut = False
    knownhits = {}
    for r in results:
        cut = cut or r.get("cut", False)
        for k, v in r.get("known", {}).items():
            knownhits[k] = knownhits.get(k, 0) + v
        for name, st in r["tests"].items():
            t = tests.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "skipped": 0, "_h": set()})
            t["evaluations"] += st["evaluations"]
            t["skipped"] += st["skipped"]
            t["_h"].update(st["hashes"])
            for l, c in st["labels"].items():
                t["labels"][l] = t["labels"].get(l, 0) + c
            if len([s for s in samples if s["test"] == name]) < 3:
                samples += [{"test": name, "case": c} for c in st["samples"][:2]]
    rules = {}
    for r in results:
        rules.update(r.get("rules", {}))
    nt = 0
    for t in tests.values():
        t["distinct_nontrivial"] = len(t["_h"])
        nt += len(t.pop("_h"))
    doc = {"property": a.property, "tier": a.tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": sum(t["evaluations"] for t in tests.values()),
                        "distinct_nontrivial": nt,
                        "rule": " | ".join("%s: %s" % (k, v) for k, v in sorted(rules.items())) or
                                "cases drawn by Hypothesis; non-trivial as labelled by each test",
                        "samples": samples[:24], "per_test": tests, "cut_short_by_time": cut,
                        "known_finding_hits": knownhits},
           "assumptions": ["the library is built from /repo's working tree with g++ -O1 and libstdc++ assertions"],
           "wall_s": round(time.time() - t0, 2), "violations": violations}
    if broken:
        doc["coverage"]["incomplete"] = broken[:500]
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % a.property)
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
