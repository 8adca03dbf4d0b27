"""Access to the code under test (always /repo's working tree) through its public API."""
import functools
import os
import sys

REPO = os.environ.get("SCHUBERT_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)

import matplotlib  # noqa: E402,F401
import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import sympy  # noqa: E402

_prefix = sys.pycache_prefix
sys.pycache_prefix = "/nonexistent/pycache"     # compile /repo's sources, never read a stale .pyc
import schubertpy  # noqa: E402
import schubertpy.csv_bijection  # noqa: E402
from schubertpy import (  # noqa: E402
    Grassmannian, IsotropicGrassmannian, OrthogonalGrassmannian, LinearCombination, Schur,
)
sys.pycache_prefix = _prefix
assert os.path.realpath(schubertpy.__file__).startswith(os.path.realpath(REPO) + os.sep), schubertpy.__file__

import poly  # noqa: E402
from poly import Poly, S  # noqa: E402,F401
from core import Violation, need, sut  # noqa: E402,F401
import ref  # noqa: E402,F401

FAM = {"A": Grassmannian, "C": IsotropicGrassmannian, "B": OrthogonalGrassmannian, "D": OrthogonalGrassmannian}


def make(tp, m, N):
    return FAM[tp](m, N)


@functools.lru_cache(None)
def G(tp, m, N):
    """One live object per space and process."""
    return sut(make, tp, m, N, what=f"constructing {name(tp, m, N)}")


def name(tp, m, N):
    return {"A": "Gr", "C": "IG", "B": "OG", "D": "OG"}[tp] + f"({m},{N})"


def text(x):
    return str(x if isinstance(x, LinearCombination) else LinearCombination(x))


def norm(x, what="result"):
    """The polynomial denoted by a returned value (LinearCombination, sympy expression, Schur, number)."""
    t = sut(text, x, what=f"printing the {what}")
    try:
        return poly.parse(t)
    except Exception as e:
        raise Violation(f"{what} is not an expression in Schubert classes: {t[:300]!r}") from e


def exact(x, what="result"):
    """norm(), and no floating point numbers."""
    p = norm(x, what)
    t = text(x)
    need("." not in t, f"{what} has floating point coefficients: {t[:300]}")
    return p


def expect(got, want, what):
    g = exact(got, what)
    if not isinstance(want, Poly):
        want = Poly.const(want)
    need(g == want, lambda: f"{what} = {g}; expected {want}")


def fmt(part):
    return poly.fmt_class(part)
