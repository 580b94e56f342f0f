"""Builds everything a check needs from /repo's current working tree.

Objects are cached under /verif/.build keyed by a hash of (compiler flags, source, all
headers), so a check re-run on an unchanged tree does not recompile.  Nothing is written
to /repo.
"""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CYPY = "/opt/fisx/venv/bin/python"
PYINC = "/usr/include/python3.12"
NPINC = "/opt/fisx/venv/lib/python3.12/site-packages/numpy/_core/include"
FLAGS = ["-O1", "-g0", "-fPIC", "-std=gnu++17", "-ffp-contract=off", "-w", "-D_GLIBCXX_ASSERTIONS"]
SANFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-std=gnu++17", "-w", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]

THREADFLAGS = ["-O1", "-g", "-std=gnu++17", "-w", "-fsanitize=thread"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _into(path, producer):
    """producer(tmp) writes tmp; then it is renamed to path"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.tmp.%d" % (path, os.getpid())
    producer(tmp)
    os.replace(tmp, path)
    return path


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def headers_hash():
    hs = sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    return _h(*[x for f in hs for x in (os.path.basename(f), _read(f))])


def compile_obj(src, flags, compiler="g++", extra_inc=(), hh=""):
    text = _read(src)
    inc = ["-I" + os.path.join(REPO, "src")] + ["-I" + i for i in extra_inc]
    key = _h(compiler, " ".join(flags), " ".join(inc), os.path.basename(src), text, hh)
    out = os.path.join(BUILD, "obj", key + ".o")
    return _into(out, lambda t: _run([compiler] + flags + inc + ["-x", "c++", "-c", src, "-o", t]))


def cythonize_bindings():
    cy = os.path.join(REPO, "python", "cython")
    pyx = sorted([p for p in glob.glob(os.path.join(cy, "*.pyx")) if os.path.basename(p) != "_fisx.pyx"],
                 key=str.lower)
    pxd = sorted(glob.glob(os.path.join(cy, "*.pxd")))
    key = _h(*[x for f in pyx + pxd for x in (os.path.basename(f), _read(f))])
    out = os.path.join(BUILD, "cy", key + ".cpp")

    def produce(t):
        d = tempfile.mkdtemp(dir=os.path.join(BUILD, "cy"))
        try:
            with open(os.path.join(d, "_fisx.pyx"), "wb") as f:
                for p in pyx:
                    f.write(_read(p))
            for p in pxd:
                shutil.copy(p, d)
            _run([CYPY, "-m", "cython", "--cplus", "-I", d, "-o", os.path.join(d, "_fisx.cpp"), os.path.join(d, "_fisx.pyx")], cwd=d)
            shutil.move(os.path.join(d, "_fisx.cpp"), t)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(BUILD, "cy"), exist_ok=True)
    return _into(out, produce)


def cythonize_ext():
    src = os.path.join(VERIF, "vfx", "vfx_ext.pyx")
    key = _h("vfx_ext", _read(src))
    out = os.path.join(BUILD, "cy", key + "_ext.cpp")

    def produce(t):
        d = tempfile.mkdtemp(dir=os.path.join(BUILD, "cy"))
        try:
            shutil.copy(src, os.path.join(d, "vfx_ext.pyx"))
            _run([CYPY, "-m", "cython", "--cplus", "-3", "-o", os.path.join(d, "vfx_ext.cpp"),
                  os.path.join(d, "vfx_ext.pyx")], cwd=d)
            shutil.move(os.path.join(d, "vfx_ext.cpp"), t)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(BUILD, "cy"), exist_ok=True)
    return _into(out, produce)


def build_package():
    """Returns a directory to put on sys.path: it contains package `fisx` (with its extension built from
    the working tree) and the module `vfx_ext`."""
    os.makedirs(BUILD, exist_ok=True)
    hh = headers_hash()
    with ThreadPoolExecutor(10) as ex:
        fb = ex.submit(lambda: compile_obj(cythonize_bindings(), FLAGS, extra_inc=(PYINC, NPINC), hh=hh))
        fe = ex.submit(lambda: compile_obj(cythonize_ext(), FLAGS, extra_inc=(PYINC, NPINC), hh=hh))
        objs = list(ex.map(lambda s: compile_obj(s, FLAGS, hh=hh), sources()))
        bo, eo = fb.result(), fe.result()
    pyfiles = sorted(glob.glob(os.path.join(REPO, "python", "fisx", "*.py")))
    key = _h(*(objs + [bo, eo]), *[x for f in pyfiles for x in (os.path.basename(f), _read(f))])
    root = os.path.join(BUILD, "pkg", key)
    if os.path.exists(os.path.join(root, "OK")):
        return root
    tmp = root + ".tmp.%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "fisx"))
    suffix = ".cpython-312-x86_64-linux-gnu.so"
    _run(["g++", "-shared", "-o", os.path.join(tmp, "fisx", "_fisx" + suffix), bo] + objs)
    _run(["g++", "-shared", "-o", os.path.join(tmp, "vfx_ext" + suffix), eo] + objs)
    for f in pyfiles:
        shutil.copy(f, os.path.join(tmp, "fisx"))
    data = os.path.join(REPO, "fisx_data")
    dd = os.path.join(tmp, "fisx", "DataDir.py")
    txt = _read(dd).decode()
    # what setup.py does at build time: point the package to the data directory
    out = []
    for line in txt.splitlines(True):
        if line.startswith("FISX_DATA_DIR"):
            line = "FISX_DATA_DIR = r'%s'\n" % data
        if line.startswith("FISX_DOC_DIR"):
            line = "FISX_DOC_DIR = r'%s'\n" % data
        out.append(line)
    txt = "".join(out)
    with open(dd, "w") as f:
        f.write(txt)
    open(os.path.join(tmp, "OK"), "w").close()
    try:
        os.rename(tmp, root)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return root


def build_fuzzer(name):
    """clang libFuzzer + ASAN + UBSAN target /verif/fuzz/<name>.cpp linked with /repo/src"""
    hh = headers_hash()
    src = os.path.join(VERIF, "fuzz", name + ".cpp")
    with ThreadPoolExecutor(10) as ex:
        ft = ex.submit(lambda: compile_obj(src, SANFLAGS + ["-fsanitize=fuzzer-no-link"], "clang++", hh=hh))
        objs = list(ex.map(lambda s: compile_obj(s, SANFLAGS + ["-fsanitize=fuzzer-no-link"], "clang++", hh=hh),
                           sources()))
        fo = ft.result()
    key = _h(fo, *objs)
    out = os.path.join(BUILD, "fuzz", name + "-" + key)
    return _into(out, lambda t: _run(["clang++"] + SANFLAGS + ["-fsanitize=fuzzer", "-o", t, fo] + objs))


def build_threads():
    """/verif/threads/threads.cpp linked with /repo/src, with the thread sanitizer"""
    hh = headers_hash()
    src = os.path.join(VERIF, "threads", "threads.cpp")
    with ThreadPoolExecutor(10) as ex:
        ft = ex.submit(lambda: compile_obj(src, THREADFLAGS, "clang++", hh=hh))
        objs = list(ex.map(lambda s: compile_obj(s, THREADFLAGS, "clang++", hh=hh), sources()))
        fo = ft.result()
    key = _h(fo, *objs)
    return _into(os.path.join(BUILD, "threads", key),
                 lambda t: _run(["clang++", "-fsanitize=thread", "-pthread", "-o", t, fo] + objs))


def prune(maxbytes=1500 * 1024 * 1024):
    """keep the cache bounded: drop oldest files first"""
    files = []
    for d, _, fs in os.walk(BUILD):
        for f in fs:
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    tot = sum(x[1] for x in files)
    for _, s, p in sorted(files):
        if tot <= maxbytes:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        if os.sep + "pkg" + os.sep in p:
            try:
                os.remove(os.path.join(os.sep.join(p.split(os.sep)[:p.split(os.sep).index("pkg") + 2]), "OK"))
            except (OSError, ValueError):
                pass
        tot -= s


def fuzzers():
    d = os.path.join(VERIF, "fuzz")
    return sorted(f[:-4] for f in os.listdir(d) if f.endswith(".cpp")) if os.path.isdir(d) else []


if __name__ == "__main__":
    print(build_package())
    if "all" in sys.argv[1:]:
        for n in fuzzers():
            print(build_fuzzer(n))
        print(build_threads())
