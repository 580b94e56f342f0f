"""Small data directory for the demonstrations: the distributed EADL97 files plus invented (smooth power law) cross sections."""
import atexit, math, os, shutil, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, os.path.join(REPO, "_build", "lib"))
import fisx

SUB = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
COLS = (["PhotonEnergy[keV]", "Rayleigh(coherent)[cm2/g]", "Compton(incoherent)[cm2/g]", "CoherentPlusIncoherent[cm2/g]",
         "Photoelectric[cm2/g]", "PairProduction[cm2/g]", "TotalCrossSection[cm2/g]"] + ["%s[cm2/g]" % s for s in SUB] +
        ["AllOther[cm2/g]"])


def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    atexit.register(shutil.rmtree, d, True)
    return d


def bindings():
    lab, rows = None, []
    for l in open(os.path.join(REPO, "fisx_data", "EADL97_BindingEnergies.dat")):
        if l.startswith("#L"):
            lab = [x.split("(")[0] for x in l[2:].strip().split("  ") if x]
        elif l[:1].isdigit() or (l[:1] == " " and l.strip()):
            rows.append(dict(zip(lab, map(float, l.split()))))
    return rows


def datadir():
    d = scratch()
    for f in os.listdir(os.path.join(REPO, "fisx_data")):
        if f.endswith(".dat"):
            os.symlink(os.path.join(REPO, "fisx_data", f), os.path.join(d, f))
    with open(os.path.join(d, "EPDL97_CrossSections.dat"), "w") as out:
        out.write("#F synthetic\n\n")
        for z, b in enumerate(bindings()[:100], 1):
            out.write("#S %d Z%d\n#N %d\n#L %s\n" % (z, z, len(COLS), "  ".join(COLS)))
            edges = sorted(b[s] for s in SUB if b.get(s, 0) > 0.0011)
            grid = [(0.001 * 10 ** (6 * i / 40.0), 0) for i in range(41)] + [(e, k) for e in edges for k in (0, 1)]
            for e, above in sorted(set(grid)):
                part = []
                for i, s in enumerate(SUB):
                    be = b.get(s, 0)
                    on = be > 0.0011 and (e > be or (e == be and above))
                    part.append(30.0 * be ** 0.6 * (10 + i) * (e / be) ** -2.7 if on else 0.0)
                oth = 2.0 * e ** -2.6 if z > 2 else 0.0
                coh, com = 0.02 * z / (1 + (e / 8) ** 1.7), 0.2 * e / (e + 3)
                ph = sum(part) + oth
                out.write(" ".join("%.6E" % v for v in [e, coh, com, coh + com, ph, 0.0, ph + coh + com] + part + [oth]) + "\n")
            out.write("\n")
    return d


def elements():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    return fisx.Elements(datadir())


def close(a, b, rel=1e-9):
    if abs(a - b) > rel * max(abs(a), abs(b), 1e-300):
        fail("%r differs from %r" % (a, b))


def fail(msg):
    sys.stderr.write("FAILED: %s\n" % msg)
    sys.exit(1)
