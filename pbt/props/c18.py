"""Schur polynomials in finitely many variables."""
import math
import re
from fractions import Fraction

import gens  # noqa: F401
import poly
from core import Part
from gens import st
from lib import Schur, need, sut
from schubertpy.schur import SchurPol

RULE = ("Random partitions (up to 6 rows, size up to 12, trailing zeros appended at random) in 1 to 6 variables: the polynomial, as the returned object and as the printed string, must (also when one object is asked for several numbers of variables) equal the sum over "
        "semistandard tableaux (computed by peeling horizontal strips), be zero when there are more rows than variables, not depend on trailing zeros, give the polynomial in one variable fewer when the last variable is 0, "
        "take the hook-content value at (1,...,1), and leave the caller's partition alone. tall: the same for partitions with as many rows as variables and rows up to 17 long. long rows: up to 400 boxes in a row in one to three variables. many variables: 6 to 13 (16) variables, partitions of size up to 4. jacobi-trudi: the product of two polynomials of one-row partitions determines the two-row ones. "
        "invalid: n < 1, non-integers, increasing or negative lists raise ValueError. Non-trivial: at least two rows and two variables, and the polynomial is not zero.")


def strips(lam):
    """All mu such that lam/mu is a horizontal strip."""
    def rec(i):
        if i == len(lam):
            yield ()
            return
        lo = lam[i + 1] if i + 1 < len(lam) else 0
        for x in range(lo, lam[i] + 1):
            for rest in rec(i + 1):
                yield (x,) + rest
    return rec(0)


def tableaux(lam, n, memo):
    """{exponents: coefficient} of the Schur polynomial in n variables."""
    lam = tuple(x for x in lam if x)
    if len(lam) > n:
        return {}
    if n == 0:
        return {(): 1}
    key = (lam, n)
    if key not in memo:
        out = {}
        for mu in strips(lam):
            e = sum(lam) - sum(mu)
            for m, c in tableaux(mu, n - 1, memo).items():
                out[m + (e,)] = out.get(m + (e,), 0) + c
        memo[key] = out
    return memo[key]


def hook_content(lam, n):
    lam = [x for x in lam if x]
    conj = [sum(1 for x in lam if x > j) for j in range(lam[0])] if lam else []
    r = Fraction(1)
    for i, row in enumerate(lam):
        for j in range(row):
            r *= Fraction(n + j - i, row - j + conj[j] - i - 1)
    return r


@st.composite
def partitions(draw, maxsize, maxrows):
    lam, left, mx = [], draw(st.integers(0, maxsize)), maxsize
    while left > 0 and len(lam) < maxrows:
        x = draw(st.integers(1, min(mx, left)))
        lam.append(x)
        left -= x
        mx = x
    return lam


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5] + ([] if tier == "quick" else [5, 6])))
    rows = n if draw(st.integers(0, 7)) else 6
    lam = draw(partitions({1: 12, 2: 12, 3: 11, 4: 9, 5: 7, 6: 7}[n], rows))
    return [n, lam, draw(st.sampled_from([0, 0, 0, 1, 2]))]


def parse_x(s):
    """'x1^2*x2 + 3' -> {exponents by variable index: coefficient}"""
    p = poly.parse(s)
    out = {}
    for m, c in p.t.items():
        d = {}
        for v, e in m:
            mt = re.fullmatch(r"x(\d+)", str(v))
            need(mt, lambda: f"variable {v} in {s!r}")
            d[int(mt.group(1))] = e
        out[tuple(sorted(d.items()))] = c
    return out


def shape(d):
    return {tuple((i + 1, e) for i, e in enumerate(m) if e): c for m, c in d.items() if c}


def check(case):
    n, lam, pad = case
    arg = list(lam) + [0] * pad
    want = tableaux(lam, n, {})
    w = f"SchurPol({n}, {arg})"
    given = list(arg)
    p = sut(SchurPol, n, given, what=w)
    need(given == arg, lambda: f"{w} changed the caller's partition to {given}")
    got = {m: c for m, c in ((tuple(int(e) for e in m), c) for m, c in sut(p.as_dict).items()) if c}
    need(got == want, lambda: f"{w} = {p.as_expr()}; {diff(got, want)}")
    need(len(p.gens) == n, lambda: f"{w} is a polynomial in {p.gens}")
    s = Schur(given)
    w = f"Schur({arg}).to_polinomial_str({n})"
    t = sut(s.to_polinomial_str, n, what=w)
    need(isinstance(t, str) and "**" not in t and "_" not in t, lambda: f"{w} = {t!r}")
    gt = {m: c for m, c in parse_x(t).items() if c}
    need(gt == shape(want), lambda: f"{w} = {t!r}; {diff(gt, shape(want))}")
    need(given == arg and s.partition() == arg, lambda: f"{w} changed the caller's partition")
    need(sut(s.to_polinomial_str, n, what=w) == t, lambda: f"{w} gives another answer the second time")
    # one object, other numbers of variables, and the first again
    for m in list(range(n - 1, max(0, n - 4), -1)) + [n]:
        w = f"Schur({arg}).to_polinomial_str({m}), asked for {n} variables before,"
        t = sut(s.to_polinomial_str, m, what=w)
        g = {mm: c for mm, c in parse_x(t).items() if c}
        need(g == shape(tableaux(lam, m, {})), lambda: f"{w} = {t!r}; {diff(g, shape(tableaux(lam, m, {})))}")
    # consequences, checked on the answer itself
    need(sum(got.values()) == hook_content(lam, n), lambda: f"{w}: value at (1,...,1) is {sum(got.values())}, hook content formula {hook_content(lam, n)}")
    if n > 1:
        lower = {m[:-1]: c for m, c in got.items() if m[-1] == 0}
        q = sut(SchurPol, n - 1, list(lam), what=f"SchurPol({n - 1}, {lam})")
        g2 = {tuple(int(e) for e in m): c for m, c in q.as_dict().items() if c}
        need(g2 == lower, lambda: f"SchurPol({n}, {lam}) with x_{n} = 0 is not SchurPol({n - 1}, {lam})")


def diff(got, want):
    for k in sorted(set(got) | set(want)):
        if got.get(k, 0) != want.get(k, 0):
            return f"coefficient of {k} is {got.get(k, 0)}, expected {want.get(k, 0)}"


@st.composite
def tall(draw, tier):
    """n rows: full columns of height n under a small partition (as many terms as the small one has)."""
    n = draw(st.integers(2, 5 if tier == "quick" else 6))
    lam = draw(partitions({2: 10, 3: 8, 4: 6, 5: 5, 6: 4}[n], n))
    c = draw(st.integers(1, max(1, min(7, {2: 40, 3: 20, 4: 9, 5: 6, 6: 4}[n] - (lam[0] if lam else 0)))))
    return [n, [x + c for x in lam + [0] * (n - len(lam))], draw(st.sampled_from([0, 0, 1]))]


@st.composite
def long_rows(draw, tier):
    """Exponents of two and three digits: one row, or full rows under a small partition."""
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    lam = [] if n == 1 else draw(partitions(3, n))
    c = draw(st.one_of(st.integers(8, {1: 400, 2: 120, 3: 25}[n]), st.integers({1: 95, 2: 90, 3: 15}[n], {1: 130, 2: 115, 3: 25}[n])))
    return [n, [x + c for x in lam + [0] * (n - len(lam))], draw(st.sampled_from([0, 0, 1]))]


@st.composite
def many(draw, tier):
    """Two-digit variable names."""
    n = draw(st.integers(6, 13 if tier == "quick" else 16))
    lam = draw(partitions(3 if n > 8 else 4, 4))
    return [n, lam, draw(st.sampled_from([0, 0, 1]))]


# ---- products of Schur polynomials: sum of c(l,m;n) s_n, through the classical ring of a large Grassmannian
@st.composite
def jt(draw, tier):
    return [draw(st.integers(2, 4)), *sorted([draw(st.integers(1, 5)), draw(st.integers(1, 5))], reverse=True)]


def check_jt(case):
    n, a, b = case
    f = lambda lam: sut(SchurPol, n, lam, what=f"SchurPol({n}, {lam})")
    lhs = f([a, b])
    rhs = f([a]) * f([b]) - f([a + 1]) * f([b - 1] if b > 1 else [])
    need(lhs == rhs, lambda: f"s[{a},{b}] = {lhs.as_expr()} but h{a}*h{b} - h{a + 1}*h{b - 1} = {rhs.as_expr()} in {n} variables")


BAD = [0, -1, -3, 1.0, 2.5, "2", None, [1]]


def bad_cases(tier):
    out = [["n", i, lam] for i in range(len(BAD)) for lam in ([], [1], [2, 1], [3, 3, 1])]
    bad = [[1, 2], [0, 1], [2, 1, 3], [3, 0, 1], [1.0], [2.5], [2, 1.5], ["1"], [-1], [1, -1], [2, 0, -1], [-2, -3], [None], [2, 3, 0]]
    out += [["part", n, lam] for n in (1, 2, 3) for lam in bad]
    return out


def check_bad(case):
    kind, n, lam = case
    if kind == "n":
        n = BAD[n]
    w = f"SchurPol({n!r}, {lam!r})"
    try:
        r = SchurPol(n, list(lam))
    except ValueError:
        return
    except Exception as e:
        need(False, f"{w} raised {type(e).__name__}: {e}; expected ValueError")
    need(False, f"{w} = {r}; expected ValueError")


PARTS = [
    Part("tableaux", check, 1600, 12000, strategy=cases, nontrivial=lambda c: 2 <= len(c[1]) <= c[0],
         label=lambda c: [f"{c[0]} variables", "zero" if len(c[1]) > c[0] else f"{min(len(c[1]), 4)} rows"] + (["trailing zeros"] if c[2] else [])),
    Part("tall", check, 320, 2400, strategy=tall, nontrivial=lambda c: True, label=lambda c: f"{c[0]} rows"),
    Part("long rows", check, 160, 800, strategy=long_rows, nontrivial=lambda c: True, label=lambda c: "three digits" if c[1][0] > 99 else "two digits"),
    Part("many variables", check, 160, 1200, strategy=many, nontrivial=lambda c: bool(c[1]), label=lambda c: "ten or more variables" if c[0] > 9 else "six to nine"),
    Part("two rows", check_jt, 160, 400, strategy=jt),
    Part("invalid", check_bad, 400, 200, cases=bad_cases),
]
