"""Shared generators.  Everything a case needs is in the case (JSON); universes are named by a number."""
import functools
import os

from hypothesis import strategies as st

from . import universe
from .universe import SUBSHELLS, SYMBOLS

SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = os.environ.get("VERIF_TIER") or "quick"
NUNI = 12

uids = st.integers(0, NUNI - 1).map(lambda i: (SEED % 100000) * 1000 + i)


@functools.lru_cache(maxsize=NUNI + 4)
def lib(uid):
    """a library shared by the cases of this process; only for checks that do not modify it"""
    import vfx_ext
    return vfx_ext.CElements(universe.get(uid).dir)


def fresh_lib(uid, *a, **k):
    import vfx_ext
    return vfx_ext.CElements(universe.get(uid).dir, *a, **k)


@functools.lru_cache(maxsize=NUNI + 4)
def pylib(uid):
    import fisx
    return fisx.Elements(universe.get(uid).dir)


def fresh_pylib(uid):
    import fisx
    return fisx.Elements(universe.get(uid).dir)


@functools.lru_cache(maxsize=NUNI + 4)
def model(uid):
    from .model import LibModel
    return LibModel(universe.get(uid))


def rich(uid):
    return universe.get(uid).rich


@st.composite
def element(draw, uid, minz=1):
    zs = [z for z in rich(uid) if z >= minz]
    return draw(st.sampled_from(zs))


def sym(z):
    return SYMBOLS[z - 1]


def round_sig(x, n=7):
    return float("%.*e" % (n - 1, x))


@st.composite
def energies(draw, uid, z=None, lo=0.02, hi=900.0, edges=True):
    """photon energies: anywhere, or at, just above or just below binding energies, table edges and table points"""
    u = universe.get(uid)
    kinds = ["any", "any", "any"]
    if z is not None and edges and z <= u.NROWS:
        kinds += ["binding", "binding", "table", "table"]
    k = draw(st.sampled_from(kinds))
    if k == "any":
        t = draw(st.integers(0, 10000))
        import math
        return round_sig(math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * t / 10000.0))
    if k == "binding":
        bs = sorted(set(b for s, b in u.binding[z].items() if b >= lo and s in SUBSHELLS))
        if not bs:
            return round_sig(draw(st.floats(lo, hi, allow_nan=False)))
        b = draw(st.sampled_from(bs))
        f = draw(st.sampled_from([1.0, 1.0, 1 + 1e-6, 1 - 1e-6, 1.0005, 0.9995, 1.01, 0.99, 1.3]))
        return b * f if f != 1.0 else b
    rows = [r[0] for r in u.epdl[min(z, u.nscans)] if lo <= r[0] <= hi]
    e = draw(st.sampled_from(rows))
    d = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-7, -1e-7, 5e-7, 1e-6, 1e-3, -1e-3]))
    return e + d


@st.composite
def composition(draw, uid, minn=1, maxn=4, minz=1, scale=True):
    """element -> amount"""
    zs = [z for z in rich(uid) if z >= minz]
    n = draw(count(minn, maxn, 11)) if maxn > 2 else draw(st.integers(minn, maxn))
    n = min(n, len(zs))
    els = draw(st.permutations(zs))[:n]
    amounts = [draw(st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.01, 0.003, 0.9, 2.0, 3.7])) for _ in els]
    k = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])) if scale else 1.0
    return {sym(z): a * k for z, a in zip(els, amounts)}


def fl(lo, hi, digits=6):
    """floats in [lo, hi], uniformly, that shrink to lo"""
    return st.integers(0, 10 ** 6).map(lambda i: round_sig(lo + (hi - lo) * i / 1e6, digits))


def logfl(lo, hi, digits=6):
    import math
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, 10 ** 6).map(lambda i: min(hi, max(lo, round_sig(math.exp(a + (b - a) * i / 1e6), digits))))


def lists(elements, min_size=0, max_size=4, big=None, unique=False, often=9):
    """mostly short lists, now and then a long one"""
    small = st.lists(elements, min_size=min_size, max_size=max_size, unique=unique)
    large = st.lists(elements, min_size=min_size if unique else max_size + 1, max_size=big or 6 * max_size, unique=unique)
    return st.one_of(*([small] * often + [large]))


def count(lo, hi, big, often=9):
    """mostly lo..hi, now and then up to big"""
    return st.one_of(*([st.integers(lo, hi)] * often + [st.integers(hi + 1, big)]))
