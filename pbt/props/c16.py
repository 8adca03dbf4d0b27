"""LinearCombination: reading, printing and arithmetic."""
import exprs
import operator

import gens
import poly
import sympy as sp
from core import Part
from fractions import Fraction
from gens import st
from lib import LinearCombination, Schur, fmt, need, norm, sut, text
from poly import Poly, S

RULE = ("text: random expressions (sums, products, powers, division by integers, unary minus, parentheses, q/q1/q2, classes with trailing zeros and partition pairs, '^' or '**' or both in one text, with and without blanks) are read; "
        "the value must be the polynomial computed from the expression tree, the printed form must read back (by this suite's parser and by LinearCombination itself) to the same value and contain no '**'. "
        "long: the same for sums of 8 to 40 terms with long classes, high powers and large numbers. arithmetic: random +, -, *, ** chains mixing LinearCombination, Schur, int, Rational and sympy expressions in either order must evaluate like exact polynomials and leave operands unchanged (long arithmetic: with sums of up to 90 classes). "
        "Non-trivial: the expression has at least two classes.")


def small(t):
    return exprs.nterms(t) <= 60 and exprs.degree(t) <= 10


@st.composite
def texts(draw, tier):
    t = draw(exprs.trees(10 if tier == "quick" else 16).filter(small))
    return [t, draw(st.sampled_from(["^", "**", "mixed"])), draw(st.sampled_from(["", " ", "  ", "mixed"])), draw(st.sampled_from(["", " ", "   ", "\t"]))]


@st.composite
def long_texts(draw, tier):
    """Sums of many products and powers, long classes, large numbers: sizes that no short expression has."""
    c = st.one_of(exprs.CLS, exprs.CLS, st.lists(st.integers(1, 120), min_size=5, max_size=30).map(lambda l: ["S", sorted(l, reverse=True)]), exprs.QV)
    fac = st.one_of(c, c, st.tuples(st.just("^"), c, st.integers(2, 20)).map(list))
    num = st.one_of(st.integers(1, 99), st.integers(1, 10 ** 24)).map(lambda n: ["n", n])
    n = draw(st.integers(8, 40))
    t = None
    for _ in range(n):
        x = draw(fac)
        for _ in range(draw(st.integers(0, 3))):
            x = ["*", x, draw(fac)]
        how = draw(st.integers(0, 3))
        if how == 0:
            x = ["*", draw(num), x]
        elif how == 1:
            x = ["/", ["*", draw(num), x], draw(st.integers(2, 99))]
        t = x if t is None else [draw(st.sampled_from("++-")), t, x]
    return [t, draw(st.sampled_from(["^", "^", "**", "mixed"])), draw(st.sampled_from(["", " ", "mixed"])), draw(st.sampled_from(["", " "]))]


def value_of(x, what):
    p = norm(x, what)
    need("." not in text(x), lambda: f"{what} has floating point coefficients: {text(x)}")
    return p


def check_text(case):
    t, pw, s, ps = case
    src = exprs.text(t, exprs.mixed("^", "**", "**") if pw == "mixed" else pw, exprs.mixed("", " ", " ", "", "   ") if s == "mixed" else s, ps)
    want = exprs.value(t)
    assert poly.parse(src) == want, src
    w = f"LinearCombination({src!r})"
    x = sut(LinearCombination, src, what=w)
    out = sut(str, x, what=f"str({w})")
    need("**" not in out, lambda: f"str({w}) = {out!r} contains '**'")
    got = value_of(x, w)
    need(got == want, lambda: f"{w} prints {out!r}, expected the value {want}")
    need(sut(repr, x) == out, lambda: f"repr({w}) = {x!r} but str is {out!r}")
    y = sut(LinearCombination, out, what=f"LinearCombination({out!r})")
    need(value_of(y, "the value read back") == want, lambda: f"{w} prints {out!r}, which reads back as {y}")
    for z, wz in ((x, f"LinearCombination({w})"), (x.expr, f"LinearCombination(<expression of {w}>)")):
        need(value_of(sut(LinearCombination, z, what=wz), wz) == want, lambda: f"{wz} differs from {w}")


# ---- arithmetic
LEAF = st.one_of(
    st.tuples(st.just("lc"), exprs.trees(4).filter(small)).map(list),
    st.tuples(st.just("lc"), exprs.trees(4).filter(small)).map(list),
    st.tuples(st.just("schur"), exprs.PARTS).map(list),
    st.tuples(st.just("int"), st.integers(-9, 9)).map(list),
    st.tuples(st.just("rat"), st.integers(-9, 9), st.integers(1, 7)).map(list),
    st.tuples(st.just("expr"), exprs.trees(3).filter(small)).map(list),
)


def chains(tier):
    n = 5 if tier == "quick" else 8
    step = st.tuples(st.sampled_from("+-*"), st.integers(0, 2), LEAF).map(list)     # 0: left, 1: right operand, 2: augmented assignment
    pw = st.tuples(st.just("^"), st.sampled_from([0, 2]), st.integers(0, 3)).map(list)
    return st.tuples(LEAF, st.lists(st.one_of(step, step, step, step, pw), min_size=1, max_size=n)).map(list).filter(
        lambda c: _size(c) <= 80)


def _size(c):
    def ls(l):
        return (exprs.nterms(l[1]), exprs.degree(l[1])) if l[0] in ("lc", "expr") else (1, 1)
    a, d = ls(c[0])
    for op, rev, x in c[1]:
        if op == "^":
            a, d = a ** max(x, 1), d * max(x, 1)
        else:
            b, e = ls(x)
            a, d = (a * b, d + e) if op == "*" else (a + b, max(d, e))
    return a if d <= 12 else 10 ** 9


def leaf(l):
    k = l[0]
    if k == "lc":
        return sut(LinearCombination, exprs.text(l[1])), exprs.value(l[1])
    if k == "schur":
        return sut(Schur, list(l[1])), S(l[1])
    if k == "int":
        return l[1], Poly.const(l[1])
    if k == "rat":
        return sp.Rational(l[1], l[2]), Poly.const(Fraction(l[1], l[2]))
    return sut(LinearCombination, exprs.text(l[1])).expr, exprs.value(l[1])


def kind(x):
    return "lc" if isinstance(x, LinearCombination) else "schur" if isinstance(x, Schur) else "other"


def check_chain(case):
    l0, steps = case
    cur, val = leaf(l0)
    log = f"{l0}"
    seen = []
    for op, rev, x in steps:
        if op == "^":
            if kind(cur) == "other":
                continue
            what = f"({log}) ** {x}"
            before = text(cur)
            cur2 = sut(lambda: operator.ipow(cur, x) if rev == 2 else cur ** x, what=what)
            val2 = val ** x
            need(text(cur) == before, lambda: f"{what} changed its operand")
        else:
            y, v = leaf(x)
            a, b = (y, cur) if rev == 1 else (cur, y)
            va, vb = (v, val) if rev == 1 else (val, v)
            if op == "-" and "schur" in (kind(a), kind(b)) and "lc" not in (kind(a), kind(b)):
                op = "+"            # Schur objects define no subtraction of their own
            what = f"<{kind(a)} {va}> {op}{'=' if rev == 2 else ''} <{kind(b)} {vb}>"
            before = (text(a), text(b))
            f = ({"+": lambda: operator.iadd(a, b), "-": lambda: operator.isub(a, b), "*": lambda: operator.imul(a, b)} if rev == 2 else
                 {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b})[op]
            cur2 = sut(f, what=what)
            val2 = va + vb if op == "+" else va - vb if op == "-" else va * vb
            need((text(a), text(b)) == before, lambda: f"{what} changed an operand")
            if kind(a) == "lc":
                need(kind(cur2) == "lc", lambda: f"{what} is a {type(cur2).__name__}, not a LinearCombination")
        got = value_of(cur2, what)
        need(got == val2, lambda: f"{what} = {got}, expected {val2}")
        seen.append((cur, text(cur)))
        cur, val, log = cur2, val2, what
        if len(val.t) > 500:
            break
    for x, t in seen:
        need(text(x) == t, lambda: f"after all steps the intermediate value {t} reads {text(x)}")


@st.composite
def long_chains(draw, tier):
    """Sums of 15 to 90 classes, added, subtracted and multiplied by one term, in either order."""
    def long(draw):
        n = draw(st.integers(15, 90))
        a, b = draw(st.integers(0, 30)), draw(st.integers(1, 5))
        t = None
        for i in range(n):
            x = ["S", [a + b * i + 3, i + 1, i % 3 + 1][:2 + i % 2] if i % 7 else [a + i + 1]]
            c = (i * b + a) % 11 - 5
            x = ["*", ["n", c], x] if abs(c) > 1 else x
            t = x if t is None else ["+-"[c < 0 and i % 2], t, x]
        return [draw(st.sampled_from(["lc", "lc", "expr"])), t]
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 3))
        if how < 3:
            steps.append([draw(st.sampled_from("+-")), draw(st.integers(0, 2)), long(draw)])
        else:
            steps.append([draw(st.sampled_from("+-*")), draw(st.integers(0, 2)), draw(LEAF.filter(lambda l: l[0] in ("int", "rat", "schur")))])
    if draw(st.booleans()):
        return [draw(LEAF.filter(lambda l: l[0] in ("lc", "schur"))), steps]
    return [long(draw), steps]


def nclasses(t):
    if t[0] == "S":
        return 1
    return sum(nclasses(x) for x in t[1:] if isinstance(x, list))


PARTS = [
    Part("text", check_text, 6400, 40000, strategy=texts, nontrivial=lambda c: nclasses(c[0]) >= 2,
         label=lambda c: ["power " + c[1], "blanks" if c[2] else "no blanks", "class with blanks" if c[3] else "class without blanks"]),
    Part("long", check_text, 480, 4000, strategy=long_texts, nontrivial=lambda c: nclasses(c[0]) >= 8),
    Part("arithmetic", check_chain, 4800, 30000, strategy=chains, nontrivial=lambda c: len(c[1]) >= 2 and c[0][0] in ("lc", "schur", "expr"),
         label=lambda c: [f"starts with {c[0][0]}", f"{min(len(c[1]), 4)} steps"]),
    Part("long arithmetic", check_chain, 320, 2400, strategy=long_chains, nontrivial=lambda c: True, label=lambda c: f"{len(c[1])} steps"),
]
