"""Synthetic element libraries ("universes").

A universe is a complete fisx data directory, generated deterministically from one small integer drawn by
Hypothesis, together with the numbers that were written to it.  The real EPDL97 cross section table is not part
of the repository, and a synthetic one exercises far more shapes (edges displaced from the binding energies,
missing shells, odd label sets, scaled rate tables) than a single fixed file would.
"""
import atexit
import math
import os
import random
import shutil
import tempfile

SUBSHELLS = ["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"]
PARTIALS = SUBSHELLS + ["all other"]
ALLSHELLS = (["K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"] + ["N%d" % i for i in range(1, 8)] +
             ["O%d" % i for i in range(1, 8)] + ["P1", "P2", "P3", "Q1"])
ORB = {"K": "(1s1/2)", "L1": "(2s1/2)", "L2": "(2p1/2)", "L3": "(2p3/2)", "M1": "(3s1/2)", "M2": "(3p1/2)",
       "M3": "(3p3/2)", "M4": "(3d3/2)", "M5": "(3d5/2)"}
SYMBOLS = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb "
           "Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf "
           "Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg "
           "Bh Hs Mt").split()

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vfx_")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def _f(x):
    """the value as it is after being printed to the file"""
    return float("%.6E" % x)


def _lines(main, outer):
    return [main + o for o in outer]


class Universe:
    NROWS = 100

    def __init__(self, uid):
        self.uid = uid
        rnd = random.Random("universe-%d" % uid)
        self.rnd = rnd
        self.nscans = rnd.choice([99, 100, 100, 103])
        nrich = 14
        # rich elements: always some light ones, and some beyond 18 (where "all other" is allowed)
        cand = list(range(3, 96))
        rnd.shuffle(cand)
        rich = sorted(cand[:nrich - 3] + rnd.sample([1, 2, 6, 7, 8, 14, 20, 26, 29, 82], 3))
        self.rich = sorted(set(rich))
        if uid < 0:
            # the library of the fuzz targets, which name their elements
            self.rich = [1, 6, 8, 13, 14, 16, 24, 26, 48, 52, 79, 82, 92]
        self.symbols = [SYMBOLS[z - 1] for z in self.rich]
        self.binding = {}
        self.epdl = {}
        self.consts = {}
        self.rad = {}
        self.nonrad = {}
        self._labels()
        for z in range(1, self.NROWS + 1):
            self._binding(z)
        for z in range(1, self.nscans + 1):
            self._epdl(z)
        for z in range(1, self.NROWS + 1):
            self._shells(z)
        self._dir = None

    # ---------------------------------------------------------------- label sets
    def _labels(self):
        r = self.rnd
        outerN = ["N1", "N2", "N3", "O1"]
        self.radlabels = {}
        order = SUBSHELLS
        for i, s in enumerate(order):
            outer = [o for o in order[i + 1:] if r.random() < 0.8] + [o for o in outerN if r.random() < 0.6]
            if not outer:
                outer = ["N1"]
            if s in ("K",) and r.random() < 0.3:
                outer += ["O"]              # PyMca like two letter label
            self.radlabels[s] = [s + o for o in outer]
            if s == "L1" and r.random() < 0.4:
                self.radlabels[s].append("L1O45")    # PyMca like five letter label
        self.nonradlabels = {}
        for i, s in enumerate(order):
            labs = []
            mains = order[i + 1:] + ["N1", "N2"]
            for a in mains:
                for b in order[i + 1:] + ["N1", "O1"]:
                    if r.random() < (0.35 if s == "K" else 0.5):
                        labs.append("%s-%s%s" % (s, a, b))
            if not labs:
                labs = ["%s-N1N1" % s]
            self.nonradlabels[s] = labs
        if r.random() < 0.5:
            self.nonradlabels["M5"] = []    # as in the distributed file
        self.write_total = {s: r.random() < 0.9 for s in order}
        self.total_honest = r.random() < 0.7

    # ---------------------------------------------------------------- binding energies
    def _binding(self, z):
        r = self.rnd
        b = {s: 0.0 for s in ALLSHELLS}
        if z in self.rich:
            k = _f(max(0.0136 * (z - 0.5) ** 2 * r.uniform(0.8, 1.2), 0.012))
            kind = r.random()
            b["K"] = k
            if z > 2:
                top = k * r.uniform(0.08, 0.2)
                e = top
                nl = 3 if z > 4 else r.choice([1, 3])
                for s in SUBSHELLS[1:1 + nl]:
                    b[s] = _f(e)
                    e *= r.uniform(0.80, 0.97)
                if z > 11:
                    e = top * r.uniform(0.1, 0.25)
                    nm = 5 if z > 20 else r.choice([1, 3, 3, 5])
                    for s in SUBSHELLS[4:4 + nm]:
                        b[s] = _f(e)
                        e *= r.uniform(0.7, 0.97)
                    if z > 18:
                        for s in ["N1", "N2", "N3", "N4", "N5", "O1"]:
                            e *= r.uniform(0.4, 0.9)
                            if r.random() < 0.75:
                                b[s] = _f(e)
                if kind < 0.12:
                    # an unassigned subshell in the middle, as found in compilations
                    b[r.choice([s for s in SUBSHELLS[1:] if b[s] > 0])] = 0.0
        self.binding[z] = b

    # ---------------------------------------------------------------- cross sections
    EPDLCOLS = ["PhotonEnergy[keV]", "Rayleigh(coherent)[cm2/g]", "Compton(incoherent)[cm2/g]",
                "CoherentPlusIncoherent[cm2/g]", "Photoelectric[cm2/g]", "PairProduction[cm2/g]",
                "TotalCrossSection[cm2/g]"] + ["%s[cm2/g]" % s for s in SUBSHELLS] + ["AllOther[cm2/g]"]

    def _epdl(self, z):
        r = self.rnd
        rows = []
        if z not in self.rich:
            # minimal element
            for e in (0.001, 0.1, 10.0, 1000.0):
                coh, com = _f(1.0 / (1 + e)), _f(0.1 + 0.001 * e)
                rows.append([_f(e), coh, com, _f(coh + com), 0.0, 0.0, _f(coh + com)] + [0.0] * 10)
            self.epdl[z] = rows
            return
        b = self.binding[z]
        npt = r.choice([14, 22, 30])
        grid = [math.exp(math.log(0.001) + (math.log(1000.) - math.log(0.001)) * i / (npt - 1)) for i in range(npt)]
        grid = [_f(g * (1.0 if i in (0, npt - 1) else r.uniform(0.97, 1.03))) for i, g in enumerate(grid)]
        edge = {}
        for s in SUBSHELLS:
            if b[s] > 0:
                e = b[s]
                if r.random() < 0.25:
                    e = _f(e * r.choice([0.985, 0.998, 1.002, 1.015]))
                if 0.0011 < e < 500:
                    edge[s] = e
        energies = []
        es = sorted(set(edge.values()))
        for g in grid:
            if all(abs(g - e) > 1e-4 * e for e in es):
                energies.append((g, 0))
        for e in es:
            if r.random() < 0.9:
                energies.append((e, 0))
            energies.append((e, 1))
        energies.sort()
        a_sh = {s: r.uniform(0.2, 3.0) for s in SUBSHELLS}
        slope = {s: r.uniform(2.4, 3.1) for s in SUBSHELLS}
        other_on = r.random() < 0.8
        zc = z * r.uniform(0.5, 1.5)
        for e, above in energies:
            coh = _f(0.02 * zc / (1 + (e / 8.0) ** 1.7))
            com = _f(0.2 * (e / (e + 3.0)) * (1 + 0.1 * math.sin(e)))
            part = []
            for s in SUBSHELLS:
                if s in edge and (e > edge[s] or (e == edge[s] and above)):
                    part.append(_f(a_sh[s] * 30.0 * (b[s] ** 0.6) * (e / edge[s]) ** (-slope[s]) * 10))
                else:
                    part.append(0.0)
            oth = _f(2.0 * e ** -2.6) if (other_on and e > 0.004) else 0.0
            tot = coh + com + sum(part) + oth
            if r.random() < 0.05:
                tot *= r.uniform(0.97, 1.03)
            tot = _f(tot)
            if abs(tot - coh - com - sum(part)) < 1e-6 * tot:
                oth = 0.0       # would be rounding noise
            rows.append([e, coh, com, _f(coh + com), _f(sum(part) + oth), 0.0, tot] + part + [oth])
        self.epdl[z] = rows

    # ---------------------------------------------------------------- shell data
    def _shells(self, z):
        r = self.rnd
        self.consts[z], self.rad[z], self.nonrad[z] = {}, {}, {}
        scale = 10 ** r.uniform(-3, 3)
        for i, s in enumerate(SUBSHELLS):
            rich = z in self.rich and self.binding[z][s] > 0
            c = {}
            fam = [x for x in SUBSHELLS[i + 1:] if x[0] == s[0]] if s != "K" else []
            budget = 1.0
            for x in fam:
                c["f%s%s" % (s[1], x[1])] = 0.0
            c["omega"] = 0.0
            if rich or r.random() < 0.02:
                c["omega"] = _f(r.choice([0.0, r.uniform(0, 0.05), r.uniform(0, 0.6), r.uniform(0, 0.9)]))
                budget -= c["omega"]
                for x in fam:
                    v = _f(r.choice([0.0, r.uniform(0, 0.5)]) * budget)
                    c["f%s%s" % (s[1], x[1])] = v
                    budget -= v
            self.consts[z][s] = c
            labs = self.radlabels[s]
            rad = {}
            for l in labs:
                v = 0.0
                if rich:
                    outer = l[len(s):]
                    ob = self.binding[z].get(outer, 0.0)
                    if (ob > 0 or r.random() < 0.1) and r.random() < 0.8:
                        v = _f(scale * 10 ** r.uniform(-3, 0))
                rad[l] = v
            self.rad[z][s] = rad
            non = {}
            for l in self.nonradlabels[s]:
                v = 0.0
                if rich and r.random() < 0.6:
                    v = _f(scale * 10 ** r.uniform(-3, 0))
                non[l] = v
            self.nonrad[z][s] = non
            for tab in (rad, non):
                if self.write_total[s] or tab is rad or not tab:
                    t = sum(tab.values())
                    if not self.total_honest:
                        t *= r.uniform(0.5, 2.0)
                    if tab is non:
                        t = sum(tab.values()) * (1.0 if self.total_honest else r.uniform(1.0, 1.5))
                    tab["TOTAL"] = _f(t)

    # ---------------------------------------------------------------- files
    @property
    def dir(self):
        if self._dir is None:
            d = os.path.join(scratch(), "u%d" % self.uid)
            os.makedirs(d, exist_ok=True)
            self.write(d)
            self._dir = d
        return self._dir

    def binding_text(self):
        labs = ["Z"] + [s + ORB.get(s, "(x)") for s in ALLSHELLS]
        return spec_text([("Binding energies in keV", labs,
                           [[z] + [self.binding[z][s] for s in ALLSHELLS] for z in range(1, self.NROWS + 1)])])

    def epdl_text(self):
        return spec_text([("Z%d" % z, self.EPDLCOLS, self.epdl[z]) for z in range(1, self.nscans + 1)])

    def _shell_text(self, tab, group, first, relabel=None):
        scans = []
        for s in group:
            keys = list(tab[1][s].keys())
            if "TOTAL" in keys:
                keys.remove("TOTAL")
                keys = ["TOTAL"] + keys
            labs = ["Z"] + [relabel(s, k) if relabel else k for k in keys]
            scans.append((s, labs, [[z] + [tab[z][s][k] for k in keys] for z in range(1, self.NROWS + 1)]))
        return spec_text(scans)

    def consts_text(self, main):
        return self._shell_text(self.consts, [s for s in SUBSHELLS if s[0] == main], 0,
                                lambda s, k: "omega" + s if k == "omega" else k)

    def rad_text(self, main):
        return self._shell_text(self.rad, [s for s in SUBSHELLS if s[0] == main], 0)

    def nonrad_text(self, main):
        return self._shell_text(self.nonrad, [s for s in SUBSHELLS if s[0] == main], 0)

    def write(self, d):
        def w(n, t):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        w("EADL97_BindingEnergies.dat", self.binding_text())
        w("EPDL97_CrossSections.dat", self.epdl_text())
        for m in "KLM":
            w("EADL97_%sShellConstants.dat" % m, self.consts_text(m))
            w("EADL97_%sShellRadiativeRates.dat" % m, self.rad_text(m))
            w("EADL97_%sShellNonradiativeRates.dat" % m, self.nonrad_text(m))


def spec_text(scans, header="#F synthetic\n\n"):
    out = [header]
    for i, (title, labels, rows) in enumerate(scans):
        out.append("#S %d %s\n#N %d\n#L %s\n" % (i + 1, title, len(labels), "  ".join(labels)))
        for row in rows:
            out.append(" ".join("%d" % v if isinstance(v, int) else "%.6E" % v for v in row))
            out.append("\n")
        out.append("\n")
    return "".join(out)


_cache = {}


def get(uid):
    u = _cache.pop(uid, None)
    if u is not None:
        _cache[uid] = u         # most recently used last
    else:
        if len(_cache) > 40:
            old = next(iter(_cache))
            d = _cache.pop(old)._dir
            if d:
                shutil.rmtree(d, ignore_errors=True)
        u = _cache[uid] = Universe(uid)
    return u
