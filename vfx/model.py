"""Reference models of the fisx objects, written independently (plain Python, no caches, no history)."""
import bisect
import math

from .universe import SUBSHELLS, PARTIALS, SYMBOLS

PROCESSES = ["coherent", "compton", "pair", "photoelectric", "total"]


def loglog(x, x0, x1, y0, y1):
    """log-log interpolation; zero where the table is zero at the upper end"""
    if x1 == x0:
        return y1
    t = math.log(x / x0) / math.log(x1 / x0)
    if y0 <= 0 or y1 <= 0:
        return 0.0
    return math.exp((1 - t) * math.log(y0) + t * math.log(y1))


def interp_process(xs, ys, x, upper=False):
    """coherent / compton / pair / all other.  xs ascending, possibly with repeated energies."""
    i1, i2 = bracket(xs, x)
    x0, x1, y0, y1 = xs[i1], xs[i2], ys[i1], ys[i2]
    if i1 == i2 or x1 - x0 < 5e-10:
        return y1 if upper else y0
    return loglog_or_linear(x, x0, x1, y0, y1)


def loglog_or_linear(x, x0, x1, y0, y1):
    if y0 > 0 and y1 > 0:
        return loglog(x, x0, x1, y0, y1)
    return max(0.0, (y0 * (x1 - x) + y1 * (x - x0)) / (x1 - x0))


def bracket(xs, x):
    """indices of the two table points around x; at a repeated energy, the pair of repeated points"""
    n = len(xs)
    j = bisect.bisect_left(xs, x)
    if j >= n:
        j = n - 1
    if j == 0:
        j = 1
    i1, i2 = j - 1, j
    if x == xs[i2] and i2 + 1 < n and xs[i2 + 1] == xs[i2]:
        i1, i2 = i2, i2 + 1
    return i1, i2


def extrapolate(xs, ys, i, x, skip=False):
    """the shell can be ionised but its table starts later: from the first positive points"""
    while i + 1 < len(ys) and ys[i] <= 0.0:
        i += 1
    if i + 1 >= len(ys):
        return ys[i]
    if skip and xs[i + 1] - xs[i] < 1e-10 and i + 2 < len(ys):
        i += 1
    return loglog_extra(x, xs[i], xs[i + 1], ys[i], ys[i + 1])


class EPDLModel:
    """photon cross sections as tabulated in a universe"""
    COL = {"coherent": 1, "compton": 2, "total": 6}

    def __init__(self, u, binding=None):
        self.u = u
        self.binding = binding or u.binding
        self._t = {}

    def table(self, z):
        z = min(z, self.u.nscans)
        t = self._t.get(z)
        if t is None:
            rows = self.u.epdl[z]
            t = {"energy": [r[0] for r in rows], "coherent": [r[1] for r in rows], "compton": [r[2] for r in rows]}
            for k, s in enumerate(SUBSHELLS):
                t[s] = [r[7 + k] for r in rows]
            oth = []
            for r in rows:
                photo = r[6] - r[2] - r[1]
                o = r[16]
                if photo > 0:
                    o = photo - sum(r[7:16]) if (o > 0 and z > 18) else 0.0
                oth.append(max(o, 0.0))
            t["all other"] = oth
            t["pair"] = [0.0] * len(rows)
            self._t[z] = t
        return t

    def full_table(self, z):
        t = dict(self.table(z))
        t["photoelectric"] = [sum(t[s][i] for s in PARTIALS) for i in range(len(t["energy"]))]
        t["total"] = [t["photoelectric"][i] + t["coherent"][i] + t["compton"][i] for i in range(len(t["energy"]))]
        return t

    def get(self, z, e):
        t = self.table(z)
        b = self.binding[min(z, self.u.NROWS)]
        xs = t["energy"]
        r = {"energy": e, "pair": 0.0}
        i1, i2 = self._bracket_up(xs, e)
        for k in ("coherent", "compton", "all other"):
            y = t[k]
            x0, x1, y0, y1 = xs[i1], xs[i2], y[i1], y[i2]
            if i1 == i2 or x1 - x0 < 5e-10:
                r[k] = y1
            else:
                r[k] = loglog_or_linear(e, x0, x1, y0, y1)
        for s in SUBSHELLS:
            y = t[s]
            r[s] = 0.0
            if b.get(s, 0.0) <= 0 or e < b[s]:
                continue
            x0, x1 = xs[i1], xs[i2]
            dup = i1 == i2 or x1 - x0 < 5e-10
            if y[i1] > 0:
                r[s] = y[i1] if dup else loglog(e, x0, x1, y[i1], y[i2])
            elif dup and i1 != i2 and y[i2] > 0:
                r[s] = y[i2]
            else:
                r[s] = extrapolate(xs, y, i1, e)
        r["photoelectric"] = sum(r[s] for s in PARTIALS)
        r["total"] = r["photoelectric"] + r["coherent"] + r["compton"]
        return r

    @staticmethod
    def _bracket_up(xs, e):
        # neighbouring points; exactly at a table energy the pair that ends there, unless the energy is repeated
        return bracket(xs, e)


def loglog_extra(x, x0, x1, y0, y1):
    return math.exp(math.log(y0) + math.log(y1 / y0) / math.log(x1 / x0) * math.log(x / x0))


class ShellModel:
    def __init__(self, name):
        self.name = name
        self.rad, self.non = {}, {}
        self.const = {"omega": 0.0}
        fam = {"K": [], "L": ["1", "2", "3"], "M": ["1", "2", "3", "4", "5"]}[name[0]]
        for d in fam:
            if d > name[1:]:
                self.const["f%s%s" % (name[1], d)] = 0.0

    def copy(self):
        s = ShellModel(self.name)
        s.rad, s.non, s.const = dict(self.rad), dict(self.non), dict(self.const)
        return s

    def set_rad(self, items):
        rad = {}
        for k, v in items:
            k = k.upper()
            if len(k) == 2:
                k += "2"
            if len(k) == 5 and k != "TOTAL":
                if not (k[3:].isdigit()):
                    raise ValueError("label")
                k = k[:4]
            elif not (k.startswith(self.name) or k == "TOTAL"):
                raise ValueError("label")
            # lines sharing a label add up (L1P10 is taken as part of L1P1)
            rad[k] = v if k == "TOTAL" else rad.get(k, 0.0) + v
        self.rad = rad

    def set_non(self, items):
        self.non = {}
        for k, v in items:
            self.non[k.upper()] = v
        if "TOTAL" not in self.non:
            self.non["TOTAL"] = sum(self.non.values())

    def set_const(self, d):
        c = dict(self.const)
        for k, v in d.items():
            if k not in c:
                raise ValueError("constant")
            c[k] = v
        if sum(c.values()) > 1.0001:
            raise ValueError("sum of yields")
        self.const = c

    def fluo(self):
        t = sum(v for k, v in self.rad.items() if k != "TOTAL")
        return {k: v / t for k, v in self.rad.items() if k != "TOTAL" and v > 0}

    def groups(self):
        """fij -> {transition: rate} for the Coster-Kronig ones"""
        g = {}
        for f in self.const:
            if f != "omega":
                pre = "%s-%s%s" % (self.name, self.name[0], f[2])
                g[f] = {k: v for k, v in self.non.items() if v > 0 and k.startswith(pre)}
        return g

    def ck(self):
        r = {}
        for f, d in self.groups().items():
            t = sum(d.values())
            r[f] = {k: v / t for k, v in d.items()}
            r[f]["TOTAL"] = t
        return r

    def auger(self):
        g = self.groups()
        in_ck = set(k for d in g.values() for k in d)
        if not self.non:
            return {}
        tot = self.non["TOTAL"] - sum(sum(d.values()) for d in g.values())
        r = {k: (v / tot if tot else math.inf) for k, v in self.non.items()
             if v > 0 and k != "TOTAL" and k not in in_ck}
        r["TOTAL"] = tot
        return r

    def transfer(self, dest):
        """direct vacancy transfer probabilities by mechanism"""
        r = {}
        r["fluorescence"] = self.const["omega"] * sum(v for k, v in self.fluo().items()
                                                      if k[len(self.name):len(self.name) + 2] == dest)
        left = 1.0 - sum(self.const.values())
        main = "%s-%s" % (self.name, dest)
        a = 0.0
        for k, v in self.auger().items():
            if k == "TOTAL":
                continue
            if k.startswith(main):
                a += v
            if k.endswith(dest):
                a += v
        r["auger"] = a * left
        for f, d in self.ck().items():
            x = 0.0
            for k, v in d.items():
                if k == "TOTAL":
                    continue
                if k.startswith(main):
                    x += v
                if k.endswith(dest):
                    x += v
            r[f] = x * self.const[f]
        return r


class ElementModel:
    def __init__(self, name, z):
        self.name, self.z = name, z
        self.binding = {}
        self.shells = {}
        self.mu = None
        self.partial = {s: ([], []) for s in PARTIALS}

    @classmethod
    def from_universe(cls, u, z, epdl=None):
        m = cls(SYMBOLS[z - 1], z)
        epdl = epdl or EPDLModel(u)
        zb = min(z, u.NROWS)
        m.set_binding(u.binding[zb])
        t = epdl.full_table(z)
        m.set_mu(t["energy"], t["photoelectric"], t["coherent"], t["compton"], t["pair"])
        for s in PARTIALS:
            m.set_partial(s, t["energy"], t[s])
        if z <= u.NROWS:
            for s in SUBSHELLS:
                m.load_shell(s, u.consts[z][s], u.rad[z][s], u.nonrad[z][s])
        return m

    def load_shell(self, s, const, rad, non):
        if s not in self.shells:
            return
        self.shells[s].set_const(const)
        if self.binding.get(s, 0.0) > 0:
            self.shells[s].set_non(sorted(non.items()))
            self.shells[s].set_rad(sorted(rad.items()))

    def set_binding(self, b):
        self.binding = dict(b)
        self.shells = {s: ShellModel(s) for s in b if s[:1] in "KLM" and s}

    def set_mu(self, e, photo, coh, com, pair=None):
        pair = list(pair) if pair else [0.0] * len(e)
        self.mu = {"energy": list(e), "photoelectric": list(photo), "coherent": list(coh), "compton": list(com),
                   "pair": pair,
                   "total": [a + b + c + d for a, b, c, d in zip(photo, coh, com, pair)]}

    def set_partial(self, s, e, v):
        e, v = list(e), list(v)
        if s != "all other":
            b = self.binding.get(s, 0.0)
            for i in range(1, len(e)):
                if e[i] < b:
                    v[i] = 0.0
                elif e[i] == e[i - 1]:
                    e[i] += 0.000001
                    v[i - 1] = v[i]
        self.partial[s] = (e, v)

    def get_partial_one(self, s, e):
        xs, ys = self.partial[s]
        if s == "all other":
            return interp_process(xs, ys, e, upper=True)
        b = self.binding.get(s, 0.0)
        if b == 0.0 or e < b:
            return 0.0
        i1, i2 = bracket(xs, e)
        dup = xs[i2] - xs[i1] < 5e-10
        if ys[i1] > 0:
            return ys[i1] if dup else loglog(e, xs[i1], xs[i2], ys[i1], ys[i2])
        if dup and ys[i2] > 0:
            return ys[i2]
        return extrapolate(xs, ys, i1, e, skip=not dup)

    def get_partial(self, e):
        return {s: self.get_partial_one(s, e) for s in PARTIALS}

    def get_mu(self, e):
        r = {s: 0.0 for s in PARTIALS}
        if any(len(self.partial[s][0]) for s in PARTIALS):
            r = self.get_partial(e)
        r["energy"] = e
        for k in ("coherent", "compton", "pair"):
            r[k] = interp_process(self.mu["energy"], self.mu[k], e)
        r["photoelectric"] = sum(r[s] for s in PARTIALS)
        r["total"] = r["photoelectric"] + r["coherent"] + r["compton"] + r["pair"]
        return r

    # --- shells
    def excited_shells(self, e):
        return sorted(s for s, b in self.binding.items() if b > 0 and e > b)

    def transition_energy(self, t):
        to, fr = t[:-2], t[-2:]
        outer = self.binding.get(fr, 0.0)
        return self.binding[to] - (outer if outer > 0 else 0.003)

    def emitted_lines(self, e):
        r = {}
        for s in SUBSHELLS:
            if s not in self.shells:
                continue
            if e > self.binding[s] > 0 and self.shells[s].const["omega"] > 0:
                for k in self.shells[s].fluo():
                    r[k] = self.transition_energy(k)
        return r

    def initial(self, e):
        m = self.get_mu(e)
        p = m["photoelectric"]
        return {s: (m[s] / p if p > 0 else 0.0) for s in PARTIALS}

    def keys(self):
        return [s for s in SUBSHELLS if s in self.shells]

    def cascade(self, dist):
        ks = self.keys()
        f = {k: dist.get(k, 0.0) for k in ks}
        for i, a in enumerate(ks):
            if f[a] > 0:
                for b in ks[i + 1:]:
                    f[b] += f[a] * sum(self.shells[a].transfer(b).values())
        return f

    def lines(self, dist, cascade=1, fluo=1):
        f = self.cascade(dist) if cascade else {k: dist.get(k, 0.0) for k in self.keys()}
        r = {}
        for s in self.keys():
            for k, v in self.shells[s].fluo().items():
                rate = v * f[s]
                if fluo:
                    rate *= self.shells[s].const["omega"]
                if rate > 0:
                    r[k] = {"rate": rate, "energy": self.transition_energy(k)}
        return r

    def factors(self, e, w=1.0):
        mu = self.get_mu(e)["photoelectric"]
        r = self.lines(self.initial(e))
        for k in r:
            f = r[k]["rate"] * w
            r[k]["factor"] = f
            r[k]["rate"] = f * mu
        return r


class LibModel:
    """the element library and its materials"""

    def __init__(self, u, epdl=None):
        self.u = u
        self.epdl = epdl or EPDLModel(u)
        self._el = {}
        self.materials = {}          # name -> normalised composition (dict)

    def el(self, name):
        m = self._el.get(name)
        if m is None:
            m = self._el[name] = ElementModel.from_universe(self.u, SYMBOLS.index(name) + 1, self.epdl)
        return m

    def mu(self, comp, e):
        t = sum(comp.values())
        r = {}
        for k in sorted(comp):
            m = self.el(k).get_mu(e)
            for q in PROCESSES:
                r[q] = r.get(q, 0.0) + comp[k] / t * m[q]
        return r

    def mu_total(self, comp, e):
        return self.mu(comp, e)["total"]

    def factors(self, name, e, w=1.0):
        return self.el(name).factors(e, w)

    def families(self, names, e):
        out = []
        for n in names:
            el = self.el(n)
            for s in el.excited_shells(e):
                if s in el.shells and el.shells[s].const["omega"] > 0:
                    out.append(("%s %s" % (n, s), el.binding[s]))
        return out


def normalise(d):
    t = sum(d.values())
    return {k: v / t for k, v in d.items()}


def extract_edges(binding, xs, ph):
    """shell -> (energy, index of the lower point) of the edges a photoelectric table shows"""
    cand = {}
    for i in range(len(xs) - 1):
        if xs[i] == xs[i + 1] and ph[i] < ph[i + 1]:
            cand[xs[i]] = i
    out = {}
    for s, e in zip(SUBSHELLS, sorted(cand, reverse=True)):
        b = binding.get(s, 0.0)
        if b > 0 and abs(e - b) < 0.1:
            out[s] = (e, cand[e])
    return out


def override_mu(u, z, e, ph, coh, com, pair=None, epdl=None):
    """the element model after the library is given its own attenuation table"""
    m = ElementModel.from_universe(u, z, epdl)
    pair = list(pair) if pair else [0.0] * len(e)
    base = (epdl or EPDLModel(u)).full_table(z)["energy"]
    j = 0
    while j < len(base) and base[j] < e[0]:
        j += 1
    j = max(j - 1, 0)
    edges = extract_edges(m.binding, e, ph)
    grid = list(base[:j])
    for i, x in enumerate(e):
        for s, (ee, k) in edges.items():
            if i - 1 == k and ee < m.binding[s]:
                x = m.binding[s]
        if grid and x < grid[-1]:
            x = grid[-1] + 0.000001
        grid.append(x)
    t = [m.get_mu(x) for x in grid]
    tab = {k: [r[k] for r in t] for k in ["coherent", "compton", "pair", "photoelectric"] + PARTIALS}
    old = list(tab["photoelectric"])
    tab["coherent"][j:], tab["compton"][j:], tab["pair"][j:] = list(coh), list(com), pair
    tab["photoelectric"][j:] = list(ph)
    for s in PARTIALS:
        first = j
        if edges:
            if s not in edges:
                continue
            first = j + edges[s][1] + 1
            tab[s][:first] = [0.0] * first
        for i in range(first, len(grid)):
            tab[s][i] = ph[i - j] * (tab[s][i] / old[i]) if old[i] > 0 else 0.0
    m.set_mu(grid, tab["photoelectric"], tab["coherent"], tab["compton"], tab["pair"])
    for s in PARTIALS:
        m.set_partial(s, grid, tab[s])
    return m
