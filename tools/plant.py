#!/usr/bin/env python3
"""plant.py: writes /verif/seeded/<id>/ from a description (a Python file defining ID, PROP, NEEDS, BREAKS, EDITS, DEMO)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plantw_")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for name, old, new in d["EDITS"]:
            p = os.path.join(w, "r", name)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                sys.exit("%s: %d occurrences of %r in %s" % (d["ID"], s.count(old), old, name))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    finally:
        shutil.rmtree(w)
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    shutil.copy(os.path.join(V, "tools", "seedlib", "demolib.py"), out)
    open(os.path.join(out, "demo.py"), "w").write("from demolib import *\n\n" + d["DEMO"].strip() + "\n")
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/fisx/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print(d["ID"], "written")
