"""C02 materials resolve to normalised elemental composition at any nesting, after any history of registry operations"""
from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, fail, rejects
from .c01 import fractions, parse

POOL = ["Water", "Alloy", "Mix A", "Steel1", "glass", "Fe2O3", "Si", "My_Material 2"]
COMPONENTS = ["Fe", "Cr", "Ni", "O", "H2O", "SiO2", "Ca(OH)2", "(NH4)2S"] + POOL
amount = st.one_of(st.sampled_from([1.0, 0.5, 0.25, 2.0, 100.0, 30.0]), gen.logfl(1e-9, 1e9))
bad = st.sampled_from([0.0, -1.0, -1e-9])


@st.composite
def compositions(draw, allow_bad=True):
    n = draw(gen.count(1, 4, 12))
    names = [draw(st.sampled_from(COMPONENTS)) for _ in range(n)]
    if draw(st.integers(0, 24)) == 0:
        names[-1] = "Unknownium"
    am = [draw(amount) for _ in names]
    if allow_bad and draw(st.integers(0, 11)) == 0:
        am[draw(st.integers(0, n - 1))] = draw(bad)
    return [[k, a] for k, a in zip(names, am)]


name = st.sampled_from(POOL)
op = st.one_of(
    st.tuples(st.just("add"), name, compositions(), st.sampled_from(["map", "lists"]), st.integers(0, 1)),
    st.tuples(st.just("add"), name, compositions(), st.sampled_from(["map", "lists"]), st.integers(0, 1)),
    st.tuples(st.just("adds"), name, st.integers(0, 1), st.sampled_from([1.0, 2.5, 0.0, -1.0]), st.sampled_from([1.0, 0.1, 0.0])),
    st.tuples(st.just("set"), name, compositions(), st.sampled_from(["map", "lists", "short"])),
    st.tuples(st.just("remove"), name),
    st.tuples(st.just("clear")),
    st.tuples(st.just("extra"), st.sampled_from(POOL + ["Fe"]), st.lists(st.tuples(name, compositions(False)), max_size=3)),
    st.tuples(st.just("dict"), compositions(False), st.lists(st.tuples(name, compositions(False)), max_size=2)),
)


LONG = POOL + ["stack one", "stack two", "zz top", "Tile", "Rubble", "dust"]


@st.composite
def chain(draw, maxn=14):
    """[[name, composition], ...]: materials made of the next one, now and then of the one after it too, in any order"""
    names = draw(st.permutations(LONG))[:draw(st.integers(2, maxn))]
    names = [n for n in names if n not in ("Fe2O3", "Si")]
    res = []
    for i, n in enumerate(names):
        comp = [[draw(st.sampled_from(["Fe", "Cr", "H2O", "SiO2", "Ca(OH)2"])), draw(amount)] for _ in range(draw(st.integers(0 if i + 1 < len(names) else 1, 2)))]
        if i + 1 < len(names):
            comp.append([names[i + 1], draw(st.sampled_from([1.0, 0.5, 3.0]))])
        if i + 2 < len(names) and draw(st.booleans()):
            comp.append([names[i + 2], draw(st.sampled_from([1.0, 0.5, 3.0]))])
        res.append([n, comp])
    return draw(st.permutations(res))


class Model:
    def __init__(self, lib):
        self.reg = {}
        self.lib = lib
        self.f = {}

    def formula(self, n):
        if n not in self.f:
            k, mult = parse(n)
            self.f[n] = fractions(mult, self.lib) if k == "ok" else {}
        return self.f[n]

    def resolve(self, n, extra=None, path=(), inner=False):
        """None when it cannot be resolved.  inner: components of registered materials see the additional materials too"""
        r = self.formula(n)
        if r:
            return r
        if n in path:
            return None
        if extra and n in extra:
            comp, nxt = extra[n], extra
        elif n in self.reg:
            comp, nxt = self.reg[n], (extra if inner else None)
        else:
            return None
        if not comp:
            return None
        out = {}
        for k, v in comp.items():
            s = self.resolve(k, nxt, path + (n,), inner)
            if s is None:
                return None
            for e, f in s.items():
                out[e] = out.get(e, 0.0) + f * v
        tot = sum(out.values())
        return {k: v / tot for k, v in out.items()}

    def nesting(self, n, path=()):
        if n in path or n not in self.reg or self.formula(n):
            return 0
        return 1 + max([0] + [self.nesting(k, path + (n,)) for k in self.reg[n]])


def norm(comp):
    """None if it is not acceptable"""
    if any(a <= 0 for _, a in comp):
        return None
    tot = sum(a for _, a in comp)
    out = {}
    for k, a in comp:
        out[k] = out.get(k, 0.0) + a / tot
    return out


def got_or_none(f, *a):
    try:
        r = f(*a)
    except (ValueError, RuntimeError, IndexError):
        return None
    return {(k.decode() if isinstance(k, bytes) else k): v for k, v in r.items()} or None


def expect(got, want, what):
    if want is None:
        check(got is None, lambda: "%s gave %r, it cannot be resolved" % (what, got))
        return
    check(got is not None, lambda: "%s could not be resolved, expected %r" % (what, want))
    eq(got, want, what, rel=1e-9, abs_=1e-15)
    check(abs(sum(got.values()) - 1) < 1e-9, lambda: "%s: sum of fractions %r" % (what, sum(got.values())))
    check(all(v > 0 for v in got.values()), lambda: "%s: %r" % (what, got))


def material(py, n, comp, form):
    import fisx
    import vfx_ext
    if form == "map":
        d = {}
        for k, a in comp:
            d[k] = a
        comp = [[k, a] for k, a in d.items()]
    if py:
        m = fisx.Material(n, 1.0, 1.0, "")
        m.setComposition({k: a for k, a in comp}) if form == "map" else \
            m.setCompositionFromLists([k for k, _ in comp], [a for _, a in comp])
    else:
        m = vfx_ext.CMaterial(n, 1.0, 1.0, "")
        m.setComposition({k: a for k, a in comp}) if form == "map" else \
            m.setCompositionV([k for k, _ in comp], [a for _, a in comp])
    eq(m.getComposition(), norm(comp), "Material.getComposition of %r" % comp, rel=1e-12, abs_=1e-15)
    return m, norm(comp)


def run(c):
    py = c["py"]
    lib = gen.pylib(0) if py else gen.lib(0)
    lib.removeMaterials()
    m = Model(gen.lib(0))
    labels, nest = [], 0
    for o in c["ops"]:
        k = o[0]
        if py and k not in ("add", "clear"):
            continue
        if k == "add":
            _, n, comp, form, err = o
            d = dict(map(tuple, comp)) if form == "map" else None
            n_ok = norm([[a, b] for a, b in d.items()] if d is not None else comp)
            if n_ok is None:
                check(rejects(material, py, n, comp, form), "composition %r accepted" % comp)
                labels.append("rejected")
                continue
            mat, comp2 = material(py, n, comp, form)
            if n in m.reg and err:
                check(rejects(lib.addMaterial, mat, err), "duplicated material %s accepted" % n)
                labels.append("rejected")
            else:
                lib.addMaterial(mat, err)
                m.reg[n] = comp2
            # later changes to the object do not concern the registry
            mat.setComposition({"Pb": 1.0})
        elif k == "adds":
            _, n, err, dens, thick = o
            if (n in m.reg and err) or dens <= 0 or thick <= 0:
                check(rejects(lib.addMaterialS, n, dens, thick, "", err), "material %s with density %r thickness %r accepted" % (n, dens, thick))
                labels.append("rejected")
            else:
                lib.addMaterialS(n, dens, thick, "", err)
                m.reg[n] = dict(m.formula(n))
        elif k == "set":
            _, n, comp, form = o
            names, am = [a for a, _ in comp], [b for _, b in comp]
            if form == "map":
                d = dict(map(tuple, comp))
                ok, f = norm(list(map(list, d.items()))), (lambda: lib.setMaterialComposition(n, d))
            elif form == "lists":
                ok, f = norm(comp), (lambda: lib.setMaterialCompositionV(n, names, am))
            else:
                ok, f = None, (lambda: lib.setMaterialCompositionV(n, names, am + [1.0]))
            if n not in m.reg or ok is None:
                check(rejects(f), "composition %r of %s accepted" % (comp, n))
                labels.append("rejected")
            else:
                f()
                m.reg[n] = ok
        elif k == "remove":
            n = o[1]
            if n in m.reg:
                lib.removeMaterial(n)
                del m.reg[n]
            else:
                check(rejects(lib.removeMaterial, n), "removed %s, which is not registered" % n)
        elif k == "clear":
            lib.removeMaterials()
            m.reg = {}
        else:
            # the first material of a name counts
            extra, mats = {}, []
            for n, comp in o[2]:
                mat, cc = material(False, n, comp, "lists")
                mats.append(mat)
                extra.setdefault(n, cc)
            if k == "extra":
                got = got_or_none(lib.getCompositionExtra, o[1], mats)
                a, b = m.resolve(o[1], extra), m.resolve(o[1], extra, inner=True)
                what = "composition of %r with additional materials %r" % (o[1], extra)
            else:
                d = dict(map(tuple, o[1]))
                got = got_or_none(lib.getCompositionDict, d, mats)

                def mix(inner):
                    out = {}
                    for x, v in d.items():
                        s = m.resolve(x, extra, inner=inner)
                        if s is None:
                            return None
                        for e, f in s.items():
                            out[e] = out.get(e, 0) + f * v
                    tot = sum(out.values())
                    return {e: f / tot for e, f in out.items()}
                a, b = mix(False), mix(True)
                what = "composition of %r with additional materials %r" % (d, extra)
            if a == b:
                expect(got, a, what)
        check(sorted(lib.getMaterialNames()) == sorted(m.reg), lambda: "registered %r, expected %r" % (lib.getMaterialNames(), sorted(m.reg)))
        for n in (LONG if len(m.reg) > 8 or c["py"] else POOL):
            want = m.resolve(n)
            if want is not None:
                nest = max(nest, m.nesting(n))
            expect(got_or_none(lib.getComposition, n), want, "composition of %r after %r" % (n, o))
            if not py and n in m.reg:
                eq(lib.getMaterialCopy(n).getComposition(), m.reg[n], "registered composition of %r" % n, rel=1e-12, abs_=1e-15)
    if nest > 1:
        labels += ["nt", "nested"]
    if nest > 2:
        labels.append("deep")
    return labels


@st.composite
def deep(draw):
    """a chain of materials, in the registry or given along, and some changes of it"""
    ch = draw(chain())
    names = [n for n, _ in ch]
    k = draw(st.integers(0, len(ch))) if draw(st.booleans()) else len(ch)
    ops = [["add", n, comp, draw(st.sampled_from(["map", "lists"])), draw(st.integers(0, 1))] for n, comp in ch[:k]]
    if k < len(ch) or draw(st.booleans()):
        extra = [list(x) for x in ch[k:]] or [list(x) for x in draw(chain(8))]
        ops += [["extra", n, extra] for n in draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))]
        ops.append(["dict", [[n, draw(amount)] for n in draw(st.lists(st.sampled_from(names + ["Fe", "O"]), min_size=1, max_size=4, unique=True))], extra])
    return ops + [list(o) for o in draw(st.lists(op, max_size=4))]


cases = st.builds(lambda ops, py: {"ops": ops, "py": py}, st.one_of(*([gen.lists(op.map(list), 1, 12, 50)] * 3 + [deep()])), st.integers(0, 4).map(lambda i: i == 0))
TESTS = [Test("registry", cases, run, 8000, rule="sequences of registry operations and queries, compared after each one; non-trivial: a material made of a material was resolved")]
