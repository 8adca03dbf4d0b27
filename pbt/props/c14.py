"""qmult_rh: the rim-hook algorithm agrees with the quantum product."""
import charprops
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, LinearCombination, Schur, exact, expect, fmt, name, need, sut

RULE = ("pairs: pairs of classes of stored Gr(m,N) (both orders), answer against the reference quantum product; non-trivial when the product has a q term, so that a rim hook was removed. "
        "combinations: random linear combinations (q coefficients included) as text, list and object. "
        "wide: pairs on Gr(m,N), N <= 10, against the library's own qmult. long rows: the same with one to three rows and N up to 20. far: type A spaces of 20 to 500 classes, under a ring homomorphism QH -> F_p (ref.Chars).")


def cases(tier):
    out = []
    for tp, m, N, n, full in ref.spaces():
        if tp != "A" or n > (60 if tier == "quick" else 130) or N > 9:
            continue
        R = ref.ring(tp, m, N)
        # cost grows quickly with the degree of the first factor: bound it
        top = (12 if n <= 20 else 8) if tier == "quick" else 14
        prs = [(u, v) for u, v in R.pairs() if sum(u) <= sum(v) and sum(u) <= top]
        cap = 150 if tier == "quick" else 1500
        if len(prs) > cap:
            prs = [prs[int(i * len(prs) / cap)] for i in range(cap)]
        out += [[[tp, m, N], list(u), list(v)] for u, v in prs]
    return out


def check_pair(case):
    sp, u, v = case
    g, R = G(*sp), ref.ring(*sp)
    for a, b in ((u, v),) if u == v or sum(v) > 7 else ((u, v), (v, u)):
        w = f"{name(*sp)}.qmult_rh({fmt(a)}, {fmt(b)})"
        expect(sut(g.qmult_rh, Schur(list(a)), Schur(list(b)), what=w), R.prod_poly(tuple(u), tuple(v)), w)


def pair_nt(case):
    sp, u, v = case
    return any(any(k[1]) for k in ref.ring(*sp).prod(tuple(u), tuple(v)))


def pair_label(case):
    sp, u, v = case
    d = ref.ring(*sp).prod(tuple(u), tuple(v))
    return f"highest q-degree {max([sum(k[1]) for k in d], default=0)}"


@st.composite
def combos(draw, tier):
    sp = draw(gens.spaces(21, types="A", minn=3).filter(lambda s: s[2] <= 7 and s[1] * (s[2] - s[1]) <= 10))
    return [sp, draw(gens.lincomb(sp, 3, minterms=1)), draw(gens.lincomb(sp, 3))]


def check_combo(case):
    sp, x, y = case
    g, R = G(*sp), ref.ring(*sp)
    X, Y = gens.spell_terms(x, 1), gens.spell_terms(y, 1)
    w = f"{name(*sp)}.qmult_rh({X!r}, {Y!r})"
    want = R.to_poly(R.mulv(gens.vec(x), gens.vec(y)))
    # other products of the same classes on the same object, before and after
    wm = f"{name(*sp)}.mult({X!r}, {Y!r})"
    classical = R.to_poly(R.mulv(gens.vec(x), gens.vec(y), False))
    expect(sut(g.mult, X, Y, what=wm), classical, wm)
    expect(sut(g.qmult_rh, X, Y, what=w), want, w)
    expect(sut(g.qmult_rh, LinearCombination(X), LinearCombination(Y), what=w + " on objects"), want, w + " on objects")
    l1, l2 = list(x[0][3]), list(y[0][3]) if y else []
    w = f"{name(*sp)}.qmult_rh({l1}, {l2})"
    expect(sut(g.qmult_rh, list(l1), list(l2), what=w), R.prod_poly(tuple(l1), tuple(l2)), w)
    expect(sut(g.mult, X, Y, what=wm + " after qmult_rh"), classical, wm + " after qmult_rh")
    expect(sut(g.qmult, X, Y, what=f"{name(*sp)}.qmult({X!r}, {Y!r})"), want, f"{name(*sp)}.qmult({X!r}, {Y!r}) after qmult_rh")


@st.composite
def wide(draw, tier):
    sp = draw(gens.wide_spaces(types="A", maxA=10, keep=lambda s: s[1] * (s[2] - s[1]) <= 21))
    return [sp, draw(gens.small_class(sp, 7)), draw(gens.wide_class(sp))]


@st.composite
def long_rows(draw, tier):
    """Few rows and long ones: N up to 20, where the product needs a hook of more than ten boxes or several hooks."""
    m = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    N = draw(st.integers(m + 4, {1: 20, 2: 16, 3: 12}[m]))
    sp = ["A", m, N]
    k = N - m
    one = st.lists(st.one_of(st.integers(0, k), st.integers(max(0, k - 2), k)), min_size=m, max_size=m).map(lambda l: [x for x in sorted(l, reverse=True) if x])
    return [sp, draw(one), draw(one)]


def check_wide(case):
    sp, a, b = case
    g = G(*sp)
    w = f"({fmt(a)}, {fmt(b)})"
    x = exact(sut(g.qmult_rh, fmt(a), fmt(b), what=f"{name(*sp)}.qmult_rh{w}"), f"{name(*sp)}.qmult_rh{w}")
    y = exact(sut(g.qmult, fmt(a), fmt(b), what=f"{name(*sp)}.qmult{w}"))
    need(x == y, lambda: f"{name(*sp)}: qmult_rh{w} = {x} but qmult{w} = {y}")


PARTS = [
    Part("pairs", check_pair, 1400, 12000, cases=cases, nontrivial=pair_nt, label=pair_label, size=lambda c: len(ref.ring(*c[0]).cls)),
    Part("combinations", check_combo, 320, 4000, strategy=combos, nontrivial=lambda c: len(c[2]) > 0),
    Part("wide", check_wide, 240, 4000, strategy=wide, nontrivial=lambda c: bool(c[1]) and sum(c[1]) + sum(c[2]) >= c[0][2], label=lambda c: name(*c[0])),
    Part("long rows", check_wide, 320, 4000, strategy=long_rows, nontrivial=lambda c: sum(c[1]) + sum(c[2]) >= c[0][2], label=lambda c: f"{c[0][1]} rows", heavy=True),
    charprops.RIM,
]
