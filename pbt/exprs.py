"""Random expressions: as text a user might type, as JSON trees, as polynomials."""
import itertools
from fractions import Fraction

import gens
import poly
from gens import st
from poly import Poly, S

# ---- classes with no particular space in mind
PARTS = st.lists(st.integers(1, 12), max_size=5).map(lambda l: sorted(l, reverse=True)).flatmap(
    lambda l: st.integers(0, 5).map(lambda z: l + [0] if z == 5 and l else l))
PAIRS = st.tuples(st.lists(st.integers(0, 6), max_size=3), st.lists(st.integers(0, 6), max_size=3)).map(
    lambda t: [sorted(t[0], reverse=True), sorted(t[1], reverse=True)])
QS = st.sampled_from(["q", "q1", "q2"])

NUM = st.one_of(st.integers(0, 9), st.integers(0, 400)).map(lambda n: ["n", n])
CLS = st.one_of(PARTS, PARTS, PARTS, PARTS, PAIRS).map(lambda p: ["S", p])
QV = QS.map(lambda q: ["q", q])


def _ext(ch):
    return st.one_of(
        st.tuples(st.sampled_from("+-*"), ch, ch).map(list),
        st.tuples(st.sampled_from("+-*"), ch, ch).map(list),
        st.tuples(st.just("neg"), ch).map(list),
        st.tuples(st.just("^"), ch, st.integers(1, 3)).map(list),
        st.one_of(*[st.tuples(st.just("^"), st.one_of(CLS, QV), st.integers(2, 4)).map(list)] * 3, st.tuples(st.just("^"), st.one_of(CLS, QV), st.integers(4, 8)).map(list)),
        st.tuples(st.just("/"), ch, st.integers(1, 9)).map(list),
    )


def trees(max_leaves=8):
    return st.recursive(st.one_of(CLS, CLS, NUM, QV), _ext, max_leaves=max_leaves)


def value(t):
    k = t[0]
    if k == "n":
        return Poly.const(t[1])
    if k == "S":
        return S(t[1])
    if k == "q":
        return Poly.var(t[1])
    if k == "neg":
        return -value(t[1])
    if k == "^":
        return value(t[1]) ** t[2]
    if k == "/":
        return value(t[1]) * Fraction(1, t[2])
    a, b = value(t[1]), value(t[2])
    return a + b if k == "+" else a - b if k == "-" else a * b


def nterms(t):
    """upper bound on the number of terms after expansion"""
    k = t[0]
    if k in "nSq":
        return 1
    if k in ("neg", "/"):
        return nterms(t[1])
    if k == "^":
        return nterms(t[1]) ** t[2]
    a, b = nterms(t[1]), nterms(t[2])
    return a * b if k == "*" else a + b


def degree(t):
    k = t[0]
    if k in "nSq":
        return 1
    if k in ("neg", "/"):
        return degree(t[1])
    if k == "^":
        return degree(t[1]) * t[2]
    a, b = degree(t[1]), degree(t[2])
    return a + b if k == "*" else max(a, b)


PREC = {"+": 1, "-": 1, "neg": 2, "*": 3, "/": 3, "^": 5, "n": 9, "S": 9, "q": 9}


def text(t, power="^", sp="", partsp=""):
    """power: the power sign, or an iterator of power signs; sp: blank around operators (or an iterator); partsp: blank after commas inside a partition"""
    k = t[0]
    if k == "n":
        return str(t[1])
    if k == "S":
        return poly.fmt_class(poly.freeze(t[1])).replace(",", "," + partsp).replace("[", "[" + partsp[1:]).replace("]", partsp[1:] + "]")
    if k == "q":
        return t[1]

    def sub(x, lim):
        s = text(x, power, sp, partsp)
        return s if PREC[x[0]] >= lim else f"({s})"
    if k == "neg":
        return "-" + sub(t[1], 3)
    if k == "^":
        return sub(t[1], 6) + _next(power) + str(t[2])
    if k == "/":
        return sub(t[1], 3) + _next(sp) + "/" + _next(sp) + str(t[2])
    if k == "*":
        return sub(t[1], 3) + _next(sp) + "*" + _next(sp) + sub(t[2], 4)
    return sub(t[1], 1) + _next(sp) + k + _next(sp) + sub(t[2], 2 if k == "+" else 3)


def _next(x):
    return x if isinstance(x, str) else next(x)


def mixed(*items):
    """Spellings in turn."""
    return itertools.cycle(items)
