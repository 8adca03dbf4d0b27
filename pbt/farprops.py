"""Spaces of any size: multiplication by a divisor from root data (ref.Chevalley).  Used by C01, C02, C06."""
import gens
import ref
import refring
from core import Part
from fractions import Fraction
from gens import st
from lib import G, exact, expect, fmt, name, need, sut


def _which(sp):
    """divisor classes: [(pieri index, Chevalley index)]"""
    return [(1, 0), (-1, 1)] if ref.nq(*sp) == 2 else [(1, 0)]


BIGA, BIGR = 24, 15


def big(maxA, maxr):
    """One case in seven is OG(n,2n+2), the family with two quantum parameters and its own quantum Pieri rule."""
    k1 = st.integers(2, maxr).map(lambda r: ["D", r - 1, 2 * r])
    w = gens.wide_spaces(maxA=maxA, maxr=maxr)
    return st.integers(0, 6).flatmap(lambda t: k1 if t == 6 else w)


def chev(sp, vec, which, quantum):
    """divisor applied to {(class, d): coef}"""
    C = ref.chevalley(*sp)
    out = {}
    for (c, d), a in vec.items():
        for (c2, d2), b in C.divisor(c, which, quantum).items():
            k = (c2, tuple(x + y for x, y in zip(d, d2)))
            out[k] = out.get(k, 0) + a * b
    return {k: v for k, v in out.items() if v}


def vec_of(p, sp, what):
    qv = ref.QV[ref.nq(*sp)]
    out = {}
    for m, c in p.t.items():
        d, cl = [0] * len(qv), None
        for v, e in m:
            if isinstance(v, tuple):
                need(e == 1 and cl is None and ref.is_class(*sp, v[1]), lambda: f"{what} = {p} is not a combination of classes of {name(*sp)}")
                cl = v[1]
            else:
                need(v in qv, lambda: f"{what} contains the variable {v}: {p}")
                d[qv.index(v)] = e
        need(cl is not None, lambda: f"{what} = {p} is not a combination of classes")
        out[(cl, tuple(d))] = c
    return out



@st.composite
def special_times_class(draw, tier):
    sp = draw(big(12, 12 if tier == "quick" else 12))
    gl = gens.generators_of(sp)
    return [sp, draw(gens.far_class(sp)), draw(st.integers(0, len(gl) - 1)), draw(st.sampled_from(_which(sp)))[0]]


def check_special(quantum):
    """A product with a special class: by a divisor it is the Chevalley formula; by the others it commutes with divisors."""
    def check(case):
        sp, lam, gi, j = case
        g, n = G(*sp), ref.nq(*sp)
        gl = gens.generators_of(sp)
        wj = dict(_which(sp))[j]
        spec = gl[gi][1]
        mul, nm = (g.qmult, "qmult") if quantum else (g.mult, "mult")
        start = {(tuple(lam), (0,) * n): Fraction(1)}
        D = fmt(dict(gl)[j])
        d = ref.vec_poly(chev(sp, start, wj, quantum), n)
        w = f"{name(*sp)}.{nm}({D}, {fmt(lam)})"
        expect(sut(mul, D, fmt(lam), what=w), d, w)
        w = f"{name(*sp)}.{nm}({fmt(spec)}, {fmt(lam)})"
        a = vec_of(exact(sut(mul, fmt(spec), fmt(lam), what=w), w), sp, w)
        left = ref.vec_poly(chev(sp, a, wj, quantum), n)
        w2 = f"{name(*sp)}.{nm}({fmt(spec)}, {str(d)!r})"
        right = exact(sut(mul, fmt(spec), str(d), what=w2), w2)
        need(left == right, lambda: f"{name(*sp)}: ({D}*{fmt(spec)})*{fmt(lam)} = {left}, but {fmt(spec)}*({D}*{fmt(lam)}) = {right} ({nm})")
    return check


def special_part(quantum):
    return Part("far", check_special(quantum), 600 if quantum else 1600, 20000, strategy=special_times_class, nontrivial=lambda c: bool(c[1]), label=lambda c: f"type {c[0][0]}")


# ---- many corners: coefficients up to a high power of two
@st.composite
def corners(draw, low, high, kmin, kmax):
    """A space with small k and a class with many corners, most of them two or three apart."""
    r = draw(st.integers(low, high))
    k = draw(st.integers(kmin, kmax))
    tp = draw(st.sampled_from("CBD"))
    sp = [tp, r - k, {"C": 2 * r, "B": 2 * r + 1, "D": 2 * r}[tp]]
    k = refring.params(*sp)[0]
    rows, cols = refring.box(*sp)
    x, lam = k + draw(st.integers(0, 2)), []
    while len(lam) < rows - k:
        x += draw(st.sampled_from([1, 2, 2, 2, 2, 3]))
        if x > cols:
            break
        lam.insert(0, x)
    lam += sorted((draw(st.integers(0, k)) for _ in range(min(k, rows - len(lam)))), reverse=True)
    lam = [x for x in lam if x]
    if tp == "D" and k > 0 and k in lam and draw(st.booleans()):
        lam.append(0)
    i = draw(st.sampled_from([i for i, _ in gens.generators_of(sp) if min(3, len(lam)) <= abs(i) <= 8] or [1]))
    return [sp, lam, i, draw(st.sampled_from(_which(sp)))[0]]


def strips(lam, p, cap):
    """Strict partitions mu with mu/lam a horizontal strip of p boxes, parts at most cap; with the number of components
    of the strip and whether it reaches the first column."""
    lam = list(lam) + [0]

    def rec(i, left, mu, comps):
        if i == len(lam):
            if left == 0:
                yield tuple(x for x in mu if x), comps, mu[-1] > 0
            return
        hi = min(cap if i == 0 else min(lam[i - 1], mu[-1] - 1), lam[i] + left)
        for x in range(lam[i], hi + 1):
            # boxes in row i start a new component unless they touch those of the row above
            new = x > lam[i] and not (i > 0 and x == lam[i - 1] and mu[-1] > lam[i - 1])
            yield from rec(i + 1, left - (x - lam[i]), mu + [x], comps + new)
    return rec(0, p, [], 0)


def maximal(sp, p, lam):
    """(q)pieri on a space of maximal isotropic subspaces: Hiller-Boe and Kresch-Tamvakis.  {(class, d): coef}"""
    tp, m, N = sp
    cap = refring.box(*sp)[1]
    out = {}
    if tp == "C":     # sigma_{n+1} of the next space becomes q/2
        for mu, c, first in strips(lam, p, cap + 1):
            a = Fraction(2) ** (c - first)
            key = (mu[1:], (1,)) if mu and mu[0] > cap else (mu, (0,))
            out[key] = out.get(key, 0) + (a / 2 if key[1] == (1,) else a)
    else:             # (cap, cap, nu) becomes q nu
        for mu, c, first in strips(lam, p, cap):
            out[(mu, (0,))] = Fraction(2) ** (c - 1)
        if lam and lam[0] == cap:
            for mu, c, first in strips(lam[1:], p, cap):
                if mu and mu[0] == cap:
                    out[(mu[1:], (1,))] = Fraction(2) ** (c - 1)
    return out


def check_maximal(quantum):
    def check(case):
        sp, lam, i, _ = case
        g = G(*sp)
        want = maximal(sp, i, tuple(lam))
        mul, nm = (g.qmult, "qmult") if quantum else (g.mult, "mult")
        w = f"{name(*sp)}.{nm}(S[{i}], {fmt(lam)})"
        expect(sut(mul, [i], list(lam), what=w), ref.vec_poly({k: a for k, a in want.items() if quantum or not any(k[1])}, 1), w)
    return check


def maximal_part(quantum):
    return Part("maximal", check_maximal(quantum), 400, 4000, strategy=lambda tier: corners(2, 14, 0, 0), nontrivial=lambda c: len(c[1]) > 2, label=lambda c: f"type {c[0][0]}")
