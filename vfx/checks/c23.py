"""C23 ini files are read back section by section"""
import os
import re
import tempfile

from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, fail, rejects

NAME = st.text(alphabet="abcdefgABCDEFG0123_-", min_size=1, max_size=6)
INNER = "abcxyzABC0123456789_.,-+*/()<>[]:%& "


@st.composite
def section(draw):
    n = draw(st.integers(1, 3))
    return ".".join(draw(st.one_of(NAME, st.sampled_from(["fit", "Materials", "a", "A", "Mat 1"]))) for _ in range(n))


@st.composite
def piece(draw, first=True):
    """one line of a value: without comment characters, '=' or quotes outside quotes"""
    k = draw(st.integers(0, 9))
    if k == 0 and first:
        return ""
    if k == 1:
        return '"' + draw(st.text(alphabet=INNER + "#;=", max_size=8)) + '"'
    if k == 2:
        return draw(st.text(alphabet="abc, ", max_size=4)).strip() + '"#;= "' + draw(st.text(alphabet="abc, ", max_size=4)).strip()
    x = draw(st.text(alphabet=INNER, min_size=0 if first else 1, max_size=14 if draw(st.integers(0, 9)) else 120)).strip()
    if not first and (not x or x[0] == "["):
        x = "x" + x
    return x


COMMENT = st.sampled_from(["# comment", "; comment", "#", ";", "#a = 1", ";[x", "# \"quoted", "# a [b]"])


@st.composite
def value(draw):
    n = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 2, 2, 3, 4, 12]))
    return [draw(piece(i == 0)) for i in range(n)]


@st.composite
def inifile(draw):
    names = draw(gen.lists(section(), 0, 6, 25, unique=True))
    if draw(st.integers(0, 3)):
        seen = set()
        names = [n for n in names if not (n.upper() in seen or seen.add(n.upper()))]
    out = []
    for n in names:
        keys = draw(gen.lists(st.one_of(NAME, st.sampled_from(["energy", "Energy", "BeamFilter0"])), 0, 5, 20, unique=True))
        out.append([n, [[k, draw(value())] for k in keys]])
    return {"sections": out, "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "style": draw(st.lists(st.integers(0, 11), min_size=1, max_size=40)),
            "final": draw(st.booleans()), "stray": draw(st.integers(0, 4)) == 0}


def text(f):
    sty = f["style"]
    n = [0]

    def nxt():
        n[0] += 1
        return sty[n[0] % len(sty)]

    def noise(lines):
        k = nxt()
        if k == 0:
            lines.append("")
        elif k == 1:
            lines.append("# a comment = 1")
        elif k == 2:
            lines.append("   ; other")
        elif k == 3:
            lines.append(" \t")

    lines = []
    for sname, keys in f["sections"]:
        noise(lines)
        lines.append("[%s]%s" % (sname, ["", "", "", " ", "", "  # a section", "", "", "", "", "", ""][nxt()]))
        if f.get("stray") and nxt() % 3 == 0:
            # a line without a key belongs to none
            lines.append(["stray words", "1.0, 2.0", "  indented, words", '"a = b"'][nxt() % 4])
        for k, v in keys:
            noise(lines)
            key = [k, k, k + " ", " " + k, k, k + "\t", "   " + k, k, k, k, k, k][nxt()]
            for i, p in enumerate(v):
                end = ["", "", "", " ", " # comment", "; c", "", "\t", "", "", " ;# \"x", ""][nxt()]
                lines.append((key + "=" + ["", " ", " ", "  ", "\t", " "][nxt() % 6] + p if i == 0 else ["  ", "\t", "", " "][nxt() % 4] + p) + end)
                if i + 1 < len(v):
                    noise(lines)
    noise(lines)
    return f["eol"].join(lines) + (f["eol"] if f["final"] else "")


def pattern(v):
    return re.compile(r"\s*" + r"\s*".join(re.escape(p) for p in v) + r"\s*", re.S)


def same(got, keys, what):
    eq(sorted(got), sorted(k for k, _ in keys), "keys of " + what)
    for k, v in keys:
        check(pattern(v).fullmatch(got[k]), "%s of %s: got %r, expected %r" % (k, what, got[k], v))
        check("\0" not in got[k], "NUL in %s of %s" % (k, what))


@st.composite
def cases(draw):
    files = draw(st.lists(inifile(), min_size=1, max_size=2))
    return {"files": files, "ops": draw(st.lists(st.tuples(st.sampled_from(["read", "read", "icase", "missing", "sections", "sub", "subi", "file", "nofile"]), st.integers(0, 30)), min_size=1, max_size=12))}


def txt(x):
    return x.decode() if isinstance(x, bytes) else x


def run(c):
    import vfx_ext
    import fisx
    labels = set()
    d = tempfile.mkdtemp(prefix="ini")
    names = []
    try:
        for i, f in enumerate(c["files"]):
            names.append(os.path.join(d, "f%d.ini" % i))
            with open(names[-1], "wb") as fh:
                fh.write(text(f).encode("ascii"))
        ini, py, cur = vfx_ext.CIni(names[0]), fisx.SimpleIni(names[0]), 0

        def read(i, cs=True, py_too=True):
            name, keys = c["files"][cur]["sections"][i]
            same(ini.readSection(name.encode(), cs), keys, "section %r" % name)
            if py_too:
                same({txt(k): txt(v) for k, v in py.readKey(name).items()}, keys, "section %r in Python" % name)
            if keys:
                labels.add("nt")
            if any(len(v) > 1 for _, v in keys):
                labels.add("multi-line")

        for op, k in list(c["ops"]) + [("sections", 0)] + [("read", i) for i in range(len(c["files"][0]["sections"]))]:
            secs = c["files"][cur]["sections"]
            all_ = [s[0] for s in secs]
            if op == "sections":
                eq(ini.getSections(), all_, "sections")
                eq([txt(x) for x in py.getKeys()], all_, "sections in Python")
            elif op == "read" and secs:
                read(k % len(secs))
            elif op == "icase" and secs:
                i = k % len(secs)
                name, keys = secs[i]
                asked = [name.upper(), name.lower(), name.swapcase(), name][k % 4]
                exact = [s for s in secs if s[0] == asked]
                like = exact or [s for s in secs if s[0].upper() == asked.upper()]
                if exact and not exact[0][1]:
                    continue            # an empty section and others that only differ in case
                same(ini.readSection(asked.encode(), False), like[0][1], "section %r ignoring case" % asked)
                # and not when not asked to
                same(ini.readSection(asked.encode(), True), exact[0][1] if exact else [], "section %r" % asked)
                if not exact:
                    labels.add("ignoring case")
            elif op == "missing":
                for other in (["nosuch", "fjt", "x" * (len(all_[0]) if all_ else 1)] + [s + "x" for s in all_] + [s[:-1] + "~" for s in all_]):
                    if other.upper() not in [s.upper() for s in all_]:
                        eq(ini.readSection(other.encode(), bool(k % 2)), {}, "section %r that is not there" % other)
            elif op in ("sub", "subi"):
                cs = op == "sub"
                pars = sorted(set(".".join(s.split(".")[:n]) for s in all_ for n in range(1, len(s.split(".")) + 1))) + ["zz", "Materials", "materials", ""]
                p = pars[k % len(pars)]
                if k % 3 == 0:
                    p = p.swapcase()
                if p == "":
                    want = all_
                else:
                    want = [s for s in all_ if (s.startswith(p + ".") if cs else s.upper().startswith(p.upper() + "."))]
                eq(ini.getSubsections(p.encode(), cs), want, "sub-sections of %r %s" % (p, "" if cs else "ignoring case"))
                if want and p:
                    labels.add("sub-sections")
            elif op == "file":
                cur = k % len(c["files"])
                ini.readFileName(names[cur])
                py = fisx.SimpleIni(names[cur])
                if cur:
                    labels.add("other file")
            elif op == "nofile":
                check(rejects(ini.readFileName, os.path.join(d, "nofile")), "a file that is not there")
                check(rejects(vfx_ext.CIni, os.path.join(d, "nofile")), "a file that is not there")
    finally:
        for x in names:
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)
    return sorted(labels)


# ------------------------------------------------------------------ values
WORD = st.text(alphabet="ghkmnopqrstuvwyzGHKMOPQRSTUVWYZ_-", min_size=1, max_size=6).filter(lambda x: x[0] not in "-")


@st.composite
def value_cases(draw):
    kind = draw(st.sampled_from(["d", "i", "s"]))
    num = {"d": st.one_of(st.floats(allow_nan=False, allow_infinity=False).map(lambda x: "%r" % x if abs(x) < 1e300 and (x == 0 or abs(x) > 1e-300) else "1.5"),
                          st.integers(-10**6, 10**6).map(str), st.sampled_from(["1.", ".5", "1E+3", "+2", "0"])),
           "i": st.integers(-2**31, 2**31 - 1).map(str), "s": st.lists(WORD, min_size=1, max_size=3).map(" ".join)}[kind]
    items = draw(gen.lists(st.one_of(num, num, num, WORD if kind != "s" else st.just(""), st.just("")), 1, 6))
    if items[-1] == "":
        items[-1] = draw(num)
    return {"kind": kind, "items": items, "pad": draw(st.lists(st.sampled_from(["", " ", "  ", "\t"]), min_size=2, max_size=5)),
            "sep": draw(st.sampled_from([",", ",", ";", "|"])), "default": draw(st.sampled_from([-1, 0, 7])), "trail": draw(st.booleans())}


def run_values(c):
    import vfx_ext
    p = c["pad"]
    body = c["sep"].join(p[i % len(p)] + x + p[(i + 1) % len(p)] for i, x in enumerate(c["items"])) + (c["sep"] if c["trail"] else "")

    def conv(x):
        if c["kind"] == "s":
            return x.strip() if x.strip() else "def"
        try:
            return float(x) if c["kind"] == "d" else int(x)
        except ValueError:
            return c["default"]

    want = [conv(x) for x in c["items"]]
    if c["kind"] == "s":
        got = [txt(x) for x in vfx_ext.ini_multi_s(body, "def", c["sep"])]
        eq(got, want, "values of %r" % body)
    elif c["kind"] == "d":
        eq(list(vfx_ext.ini_multi_d(body, c["default"], c["sep"])), want, "values of %r" % body, rel=1e-15)
        eq(vfx_ext.ini_single_d(p[0] + c["items"][0] + p[1], c["default"]), want[0], "value of %r" % c["items"][0], rel=1e-15)
    else:
        eq(list(vfx_ext.ini_multi_i(body, c["default"], c["sep"])), want, "values of %r" % body)
        eq(vfx_ext.ini_single_i(p[0] + c["items"][0] + p[1], c["default"]), want[0], "value of %r" % c["items"][0])
    return ["nt", c["kind"]] if len(want) > 1 else [c["kind"]]


TESTS = [Test("reader", cases(), run, 4000, rule="generated ini files (comments, quotes, multi-line values, line ends) and sequences of reads; non-trivial: a section with keys"),
         Test("values", value_cases(), run_values, 2000, rule="lists of numbers or texts with defaults; non-trivial: several values")]
