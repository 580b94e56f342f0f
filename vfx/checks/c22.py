"""C22 specfiles are read back completely and in order"""
import os
import tempfile

from hypothesis import strategies as st

from .. import gen
from ..harness import Test, check, eq, rejects

WORD = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHXYZ0123456789_()[]/*-+.,:%#$&<>='\"@", min_size=1, max_size=8)


@st.composite
def label(draw):
    w = draw(st.lists(WORD, min_size=1, max_size=3))
    return " ".join(w)


@st.composite
def number(draw):
    """text of a number, in the notations found in specfiles"""
    k = draw(st.integers(0, 9))
    if k == 0:
        return str(draw(st.integers(0, 9)))
    if k == 1:
        return str(draw(st.integers(-10**9, 10**9)))
    if k == 2:
        return "+%d" % draw(st.integers(0, 1000))
    if k == 3:
        return draw(st.sampled_from([".5", "-.25", "5.", "0.0", "-0", "00012", "1e5", "1E5", "1e+05", "2.E-03", "-1.5E+002", "1e-300", "4.9e-324", "1.7976931348623157e308"]))
    x = draw(st.floats(allow_nan=False, allow_infinity=False, width=64))
    return draw(st.sampled_from(["%r", "%.6g", "%.10E", "%.3f", "%.17g"] if abs(x) < 1e30 else ["%r", "%.6g", "%.10E"])) % x


HEAD = st.sampled_from(["#F name", "#E 1000000", "#D Thu Nov 19 2026", "#C some comment", "#C", "#", "# S 1", "#UXML <a/>", "#O0 a  b  c", "#N 3", "#P0 1 2 3", "#M 1 2", "#T 1  (Seconds)"])
SCANHEAD = st.sampled_from(["#D Thu Nov 19 2026", "#N 3", "#C a comment", "#", "#C", "#U text", "#T 1", "#G0 1 2 3", "#P0 4 5 6", "#Q 0 0 1"])
INDATA = st.sampled_from(["#C Thu aborted", "#", "# 1 2 3", "#R 1 2", "#C 5"])


@st.composite
def scan(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 5, 12, 1, 2, 3, 2, 40]))
    rows = draw(st.lists(st.lists(number(), min_size=n, max_size=n), max_size=6) if draw(st.integers(0, 9)) else st.lists(st.lists(number(), min_size=n, max_size=n), min_size=7, max_size=60))
    return {"title": draw(st.sampled_from(["1 ascan", "2 a  b", "12", "", "#L a  b", "1 #S"])),
            "head": draw(st.lists(SCANHEAD, max_size=3)),
            "labels": draw(st.one_of(st.lists(label(), min_size=n, max_size=n), st.lists(label(), min_size=n, max_size=n), st.none())),
            "tail": draw(st.lists(SCANHEAD, max_size=2)),
            "lead": draw(st.integers(1, 4)), "gaps": draw(st.lists(st.integers(2, 5), min_size=n, max_size=n)), "end": draw(st.integers(0, 2)),
            "rows": rows, "sep": draw(st.sampled_from([" ", "  ", "\t", "   "])), "indent": draw(st.sampled_from(["", "", "", " "])),
            "comments": draw(st.lists(st.tuples(st.integers(0, 6), INDATA), max_size=3)),
            "blanks": draw(st.sampled_from([0, 1, 1, 2, 3])), "between": draw(st.lists(HEAD, max_size=2))}


@st.composite
def specfile(draw):
    return {"head": draw(gen.lists(HEAD, 0, 4)), "blanks": draw(st.integers(0, 2)), "scans": draw(gen.lists(scan(), 0, 5, 14, often=15)),
            "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])), "final": draw(st.integers(0, 2))}


def text(f):
    lines = list(f["head"]) + [""] * f["blanks"]
    for s in f["scans"]:
        lines.append("#S" + (" " + s["title"] if s["title"] else ""))
        lines += s["head"]
        if s["labels"] is not None:
            x = "#L" + " " * s["lead"]
            for g, l in zip(s["gaps"], s["labels"]):
                x += (" " * g if not x.endswith("#L" + " " * s["lead"]) or len(x) > 2 + s["lead"] else "") + l
            lines.append(x + " " * s["end"])
        lines += s["tail"]
        data = [s["indent"] + s["sep"].join(r) for r in s["rows"]]
        for i, c in sorted(map(tuple, s["comments"]), key=lambda y: -y[0]):
            data.insert(min(i, len(data)), c)
        lines += data + [""] * s["blanks"]
        if s["blanks"]:
            lines += s["between"]
    t = f["eol"].join(lines)
    if f["final"] >= 1:
        t += f["eol"]
    if f["final"] == 2:
        t += f["eol"]
    return t


@st.composite
def cases(draw):
    files = draw(st.lists(specfile(), min_size=1, max_size=2))
    return {"files": files, "ops": draw(st.lists(st.tuples(st.sampled_from(["labels", "data", "data", "labels", "count", "file", "bad"]), st.integers(0, 20)), min_size=1, max_size=12) if draw(st.integers(0, 9)) else st.lists(st.tuples(st.sampled_from(["labels", "data"]), st.integers(0, 20)), min_size=13, max_size=60))}


def run(c):
    import vfx_ext
    import fisx
    labels = set()
    d = tempfile.mkdtemp(prefix="spec")
    names = []
    try:
        for i, f in enumerate(c["files"]):
            names.append(os.path.join(d, "f%d.dat" % i))
            with open(names[-1], "wb") as fh:
                fh.write(text(f).encode("ascii"))
        spec, py, cur = vfx_ext.CSpec(names[0]), fisx.SimpleSpecfile(names[0]), 0

        def expect(kind, k):
            s = c["files"][cur]["scans"][k]
            if kind == "labels":
                if s["labels"] is None:
                    for x in (spec, py):
                        check(rejects(x.getScanLabels, k), "labels of scan %d without label line" % k)
                    return
                for x in (spec, py):
                    eq(list(x.getScanLabels(k)), s["labels"], "labels of scan %d" % k)
                if len(s["labels"]) > 1:
                    labels.add("labels")
            else:
                want = [[float(y) for y in r] for r in s["rows"]]
                for x in (spec, py):
                    eq([list(r) for r in x.getScanData(k)], want, "data of scan %d" % k, rel=0, abs_=0)
                if want:
                    labels.add("nt")

        for op, k in list(c["ops"]) + [("all", 0)]:
            scans = c["files"][cur]["scans"]
            n = len(scans)
            if op == "file":
                cur = k % len(c["files"])
                if k % 3 == 0:
                    spec = vfx_ext.CSpec()
                spec.setFileName(names[cur])
                py = fisx.SimpleSpecfile(names[cur] if k % 2 else names[cur].encode())
                if cur:
                    labels.add("other file")
            elif op == "count":
                eq(spec.getNumberOfScans(), n, "number of scans")
                eq(py.getNumberOfScans(), n, "number of scans")
            elif op == "bad":
                for i in (-1, n, n + k, -k - 2):
                    for x in (spec, py):
                        check(rejects(x.getScanLabels, i), "labels of scan %d of %d" % (i, n))
                        check(rejects(x.getScanData, i), "data of scan %d of %d" % (i, n))
                x = vfx_ext.CSpec()
                x.setFileName(names[0])
                x.setFileName(os.path.join(d, "nofile.dat"))
                check(x.getNumberOfScans() == 0 and rejects(x.getScanData, 0) and rejects(x.getScanLabels, 0), "a file that is not there has scans")
            elif op == "all":
                eq(spec.getNumberOfScans(), n, "number of scans")
                for i in range(n):
                    expect("labels", i)
                    expect("data", i)
            elif n:
                expect(op, k % n)
    finally:
        for x in names:
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)
    if len(c["files"][0]["scans"]) > 1:
        labels.add("several scans")
    if any(f["eol"] == "\r\n" for f in c["files"]):
        labels.add("crlf")
    return sorted(labels)


TESTS = [Test("reader", cases(), run, 4000, rule="generated specfiles (notations, line ends, comments, missing blank lines) read in random order through C++ and Python; non-trivial: a scan with data")]
