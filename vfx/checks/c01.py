"""C01 chemical formulas resolve to their exact mass fractions"""
import re
from fractions import Fraction

from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, fail
from ..universe import SYMBOLS

NPRE = 109
NAMES = SYMBOLS[:NPRE]

count = st.one_of(st.none(), st.none(), st.just("1"), st.integers(2, 12).map(str), st.integers(13, 2000).map(str),
                  st.sampled_from(["1000000", "123456789", "999999.5", "0.000001", "0.1234567891", "3.14159265358979",
                                   "1.0", "2.50", "100000.25", "12345678.9"]),
                  st.tuples(st.integers(0, 99), st.integers(0, 9999)).map(lambda t: "%d.%04d" % t).filter(lambda s: float(s) > 0))
# bias towards short counts
atom = st.tuples(st.one_of(st.sampled_from(["H", "O", "C", "N", "Fe", "Ca", "S", "Si", "F", "Co", "P", "K", "Cl", "W", "B"]),
                           st.sampled_from(NAMES)), count)


def terms(children):
    return st.one_of(*([st.lists(children, min_size=1, max_size=4)] * 9 + [st.lists(children, min_size=5, max_size=16)]))


group = st.recursive(terms(atom.map(list)),
                     lambda ch: st.lists(st.one_of(atom.map(list), st.tuples(ch, count).map(list)), min_size=1, max_size=4),
                     max_leaves=12)


def render(t, explicit=False):
    out = ""
    for x, n in t:
        out += x if isinstance(x, str) else "(" + render(x, explicit) + ")"
        out += ("1" if explicit else "") if n is None else n
    return out


def value(t):
    out = {}
    for x, n in t:
        f = Fraction(1) if n is None else Fraction(n)
        for k, v in ({x: Fraction(1)} if isinstance(x, str) else value(x)).items():
            out[k] = out.get(k, 0) + v * f
    return out


def depth(t):
    return max([0] + [1 + depth(x) for x, n in t if not isinstance(x, str)])


def trailing(t):
    """something follows a group"""
    seen = False
    for x, n in t:
        if seen:
            return True
        if not isinstance(x, str):
            seen = True
            if trailing(x):
                return True
    return False


def parse(text):
    """independent reading of a text: ('ok', multiplicities), ('bad', None) or ('unsure', None) for number spellings
    that may or may not be seen as decimals"""
    pos, stack, unsure = 0, [{}], False
    while pos < len(text):
        m = re.compile(r"([A-Z][a-z]*)|(\()|(\))").match(text, pos)
        if not m:
            # a number spelled in another way may reach until here
            return ("unsure" if re.fullmatch(r"[A-Za-z0-9.+\-()]*", text) and re.search(r"[0-9.][+\-]|[+\-][0-9.]|\.", text) else "bad"), None
        pos = m.end()
        if m.group(2):
            stack.append({})
            continue
        if m.group(3):
            if len(stack) < 2 or not stack[-1]:
                return "bad", None
            term = stack.pop()
        else:
            if m.group(1) not in NAMES:
                return "bad", None
            term = {m.group(1): Fraction(1)}
        num = re.compile(r"[0-9.+\-]*").match(text, pos)
        s = num.group(0)
        pos = num.end()
        f = Fraction(1)
        if s:
            if re.fullmatch(r"[0-9]+(\.[0-9]+)?", s):
                f = Fraction(s)
                if f == 0:
                    unsure = True
            else:
                try:
                    float(s)
                    unsure = True
                except ValueError:
                    return "bad", None
        for k, v in term.items():
            stack[-1][k] = stack[-1].get(k, 0) + v * f
    if len(stack) != 1 or not stack[0]:
        return "bad", None
    if unsure:
        return "unsure", None
    return "ok", stack[0]


def fractions(mult, lib):
    w = {k: v * Fraction(lib.getAtomicMass(k)) for k, v in mult.items()}
    tot = sum(w.values())
    return {k: float(v / tot) for k, v in w.items()}


def resolve(text):
    """the composition by every route, or {} """
    import vfx_ext
    lib, py = gen.lib(0), gen.pylib(0)
    routes = []
    for what, f in (("Elements.getComposition", lambda: lib.getComposition(text)),
                    ("Python Elements.getComposition", lambda: py.getComposition(text)),
                    ("Layer.getComposition", lambda: vfx_ext.CLayer(text, 1.0, 1.0, 1.0).getComposition(lib))):
        try:
            r = f()
            routes.append((what, {(k.decode() if isinstance(k, bytes) else k): v for k, v in r.items()}))
        except (ValueError, RuntimeError, IndexError):
            routes.append((what, {}))
    return routes


def run(c):
    t = c["f"]
    lib = gen.lib(0)
    text = render(t)
    want = fractions(value(t), lib)
    labels = []
    if depth(t) > 0 and len(want) > 1:
        labels.append("nt")
    if depth(t) > 1:
        labels.append("nested")
    if trailing(t):
        labels.append("after group")
    for what, got in resolve(text):
        eq(got, want, "%s(%r)" % (what, text), rel=1e-11)
        check(abs(sum(got.values()) - 1) < 1e-12, "%s(%r): sum %r" % (what, text, sum(got.values())))
    for other in (render(t, True), render(list(reversed(t))), "(" + text + ")", text + text,
                  "".join(k + ("%d" % v if v.denominator == 1 else "") for k, v in value(t).items())
                  if all(v.denominator == 1 for v in value(t).values()) else text):
        eq(lib.getComposition(other), want, "composition of %r (same content as %r)" % (other, text), rel=1e-11)
    return labels


@st.composite
def texts(draw):
    if draw(st.integers(0, 5)) == 0:
        return {"t": draw(st.text(alphabet="HOCFeaclNiSi0123456789().+-e XxZz_*", max_size=14))}
    s = render(draw(group))[:40]
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(s)))
        k = draw(st.integers(0, 4))
        ch = draw(st.sampled_from(list("()()()HhOoe1230.- +xXQ*,")))
        if k == 0:
            s = s[:i] + ch + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + ch + s[i + 1:]
        elif k == 3:
            j = draw(st.integers(0, len(s)))
            s = s[:i] + s[j:]
        else:
            j = draw(st.integers(0, len(s)))
            s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
    return {"t": s}


def run_text(c):
    text = c["t"]
    if not text:
        return []
    kind, mult = parse(text)
    for what, got in resolve(text):
        if kind == "ok":
            eq(got, fractions(mult, gen.lib(0)), "%s(%r)" % (what, text), rel=1e-11)
        elif kind == "bad":
            check(got == {}, "%s(%r) gave %r, it is not a formula" % (what, text, got))
        else:
            for k, v in got.items():
                check(v == v and 0 <= v <= 1 + 1e-12, "%s(%r) gave %r" % (what, text, got))
    return ["nt", kind] if kind != "unsure" else [kind]


TESTS = [Test("formulas", group.map(lambda t: {"f": t}), run, 8000, rule="formula trees of elements, counts and nested groups; non-trivial: a group and two or more elements"),
         Test("near_misses", texts(), run_text, 6000, rule="formulas with characters inserted, dropped or replaced; non-trivial: the text is clearly a formula or clearly none")]
