"""mutate.py N seed [files...]: up to N random mutants of /repo/src (one at a time, in a scratch clone under /tmp/mut), each run
against the checks, the most likely ones first, until one reports it; results in /tmp/mut/log-<seed>"""
import os, random, re, subprocess, sys, shutil, json, time
N, seed = int(sys.argv[1]), int(sys.argv[2])
only = sys.argv[3:]
random.seed(seed)
W = "/tmp/mut/w%d" % seed
V, R = W + "/verif", W + "/repo"
subprocess.run("rm -rf %s; mkdir -p %s; git clone -q /verif %s; cp -a /verif/.build %s/.build; git clone -q /repo %s; cp -a /repo/fisx_data/. %s/fisx_data/" % (W, W, V, V, R, R), shell=True, check=True)
M = {"beam": "C16 C26 C21 C24", "detector": "C14 C12 C20 C26", "element": "C04 C05 C07 C08 C09 C10 C11 C06 C25", "elements": "C02 C01 C03 C06 C10 C11 C12 C09 C05 C26",
     "epdl97": "C04 C05 C03 C09 C26", "layer": "C13 C06 C11 C21 C26", "material": "C02 C01 C26", "math": "C17", "multilayer": "C18 C19 C20 C21", "shell": "C07 C08 C09 C11 C26",
     "simpleini": "C23 C24 C25", "simplespecfile": "C22 C03 C25", "transmissiontable": "C15 C20", "xrf": "C14 C13 C18 C20 C21 C26 C19", "xrfconfig": "C24 C21 C20 C26 C18"}
ALL = ["C%02d" % i for i in range(1, 28) if i not in (25, 27)]
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<-])<(?![<=])(?= )", "<="), (r"(?<![->])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+= ", "-= "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b(\d+\.\d+)\b", r"(1.01*\1)"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"\bfirst\b", "second"), (r"\.begin\(\)", ".end()"), (r'"rate"', '"factor"'), (r"\bi1\b", "i2"), (r"\bx0\b", "x1"), (r"energy", "weight"), (r"\biLayer\b", "jLayer"), (r"\.clear\(\);", ".size();")]
PYX = "pyx" in only
if PYX:
    only.remove("pyx")
SRC = R + ("/python/cython" if PYX else "/src")
M2 = {"Py" + k: v for k, v in {"Beam": "C26 C16", "Detector": "C26 C12", "Element": "C26 C04 C08", "Elements": "C26 C03 C06 C10 C11 C09", "EPDL97": "C26 C03", "Layer": "C26 C13", "Material": "C26 C02",
      "Math": "C26 C17", "Shell": "C26 C07", "SimpleIni": "C26 C23", "SimpleSpecfile": "C26 C22", "TransmissionTable": "C26 C15", "XRF": "C26 C18 C20 C24"}.items()}
HEAD = "h" in only
if HEAD:
    only.remove("h")
files = [f for f in sorted(os.listdir(SRC)) if f.endswith(".pyx") and f[:-4] in M2 and (not only or f[2:-4].lower() in only)] if PYX else \
        [f for f in sorted(os.listdir(SRC)) if f.endswith(".h") and f[5:-2] in M and (not only or f[5:-2] in only)] if HEAD else \
        [f for f in sorted(os.listdir(R + "/src")) if f.endswith(".cpp") and f[5:-4] in M and (not only or f[5:-4] in only)]
pool = []
for f in files:
    text = open(SRC + "/" + f).read()
    if PYX:
        t2 = re.sub(r'""".*?"""', lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
        ls = t2.split("\n")
        for i, l in enumerate(ls):
            c = l.split("#")[0].rstrip()
            if not c.strip() or "import" in c or "raise" in c or "print" in c or "cdef class" in c:
                continue
            POPS = [(r" == ", " != "), (r" is None", " is not None"), (r" > ", " >= "), (r" < ", " <= "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b(\d+\.\d+)\b", r"(1.5*\1)"), (r" \+ ", " - "),
                    (r"\bFalse\b", "True"), (r"\bTrue\b", "False"), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"-1\b", "0"),
                    (r"(\w+), (\w+)(?=[,)])", r"\2, \1"), (r"alphaOut", "alphaIn"), (r"\.size\(\)", ".size() - 1"), (r"1\.0", "0.0")]
            for a, b in POPS:
                for m in re.finditer(a, c):
                    if c[:m.start()].count('"') % 2 or c.strip().startswith("def __cinit__(self, a"):
                        continue
                    pool.append((f, i, "sub", m.start(), m.end(), m.expand(b)))
            s = c.strip()
            if re.match(r"(self\.thisptr\.|[\w.]+(\[\w+\])? = )", s) and c.count("(") == c.count(")") and not s.startswith("cdef"):
                pool.append((f, i, "del", len(c) - len(c.lstrip()), len(c), "pass"))
            m = re.match(r"(\s*)(el)?if (.*):$", c)
            if m:
                for v in ("0", "1"):
                    pool.append((f, i, "cond", m.start(3), m.end(3), v))
        continue
    t2 = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
    for i, l in enumerate(t2.split("\n")):
        c = l.split("//")[0]
        if HEAD and ("(" not in c + "".join(t2.split("\n")[max(0, i - 12):i]) or "=" not in c):
            continue
        if not c.strip() or c.strip().startswith("#") or "cout" in c or "throw" in c or "msg" in c or "<<" in c or "std::string msg" in c:
            continue
        for a, b in OPS:
            for m in re.finditer(a, c):
                # not within a string
                if c[:m.start()].count('"') % 2 and not a.startswith('"'):
                    continue
                pool.append((f, i, "sub", m.start(), m.end(), m.expand(b)))
        s = c.strip()
        if s.endswith(";") and (re.match(r"[\w>.\-\[\]()]+( [-+*/]?=|\()", s) or s in ("continue;", "break;") or s.startswith("this->")) and not s.startswith(("return", "std::", "for", "if", "const", "double", "int")):
            pool.append((f, i, "del", len(c) - len(c.lstrip()), len(c), ";"))
        if s.startswith(("if (", "if(")) and s.endswith(")"):
            for v in ("if (0)", "if (1)"):
                pool.append((f, i, "cond", len(c) - len(c.lstrip()), len(c), v))
byfile = {}
for p in pool:
    byfile.setdefault(p[0], []).append(p)
print({k: len(v) for k, v in byfile.items()}, flush=True)
env = dict(os.environ, VFX_REPO=R, VERIF_SEED="1")
log = open("/tmp/mut/log-%d" % seed, "a")
done = set()
fl = sorted(byfile)
weights = [len(byfile[f]) ** 0.5 for f in fl]
for n in range(N):
    p = random.choice(byfile[random.choices(fl, weights)[0]])
    if p in done:
        continue
    done.add(p)
    f, i, kind, a, b, new = p
    path = SRC + "/" + f
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    ls = open(path).read().split("\n")
    old = ls[i]
    ls[i] = old[:a] + new + old[b:]
    open(path, "w").write("\n".join(ls))
    t0 = time.time()
    # does it compile, and to other code?
    objs = []
    for k in ((0, 1) if not (PYX or HEAD) else ()):
        if k == 1:
            subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
        r = subprocess.run(["g++", "-O1", "-g0", "-fPIC", "-std=gnu++17", "-w", "-c", path, "-o", W + "/m%d.o" % k], stderr=subprocess.DEVNULL)
        if r.returncode:
            break
        objs.append(open(W + "/m%d.o" % k, "rb").read())
    open(path, "w").write("\n".join(ls))
    if not (PYX or HEAD) and (len(objs) < 2 or objs[0] == objs[1]):
        continue
    key = f[5:-4]
    order = (M2[f[:-4]] if PYX else M[f[5:-2] if HEAD else key]).split()
    if not os.environ.get("MUT_SHORT"):
        order += [c for c in ALL if c not in order]
    res, msg = "SURVIVED", ""
    for c in order:
        try:
            o = subprocess.run(["./check.py", c], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        except subprocess.TimeoutExpired:
            res, msg = "timeout " + c, ""
            break
        if o.returncode and b"BuildError" in o.stdout or b"command failed:" in o.stdout:
            res = "nobuild"
            break
        if o.returncode:
            res = "killed %s rc=%d" % (c, o.returncode)
            msg = "" if o.returncode == 1 else o.stdout.decode(errors="replace")[-300:]
            break
    if res == "nobuild":
        continue
    print("%s | %s:%d | %s | %s => %s | %.0fs %s" % (res, f, i + 1, kind, old.strip()[:110], ls[i].strip()[:110], time.time() - t0, msg), file=log, flush=True)
    subprocess.run("rm -rf %s/evidence/replays" % V, shell=True)
subprocess.run("rm -rf " + W, shell=True)
print("finished", file=log, flush=True)
