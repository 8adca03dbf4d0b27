"""Schubert symbols: part2index / index2part."""
import gens
import ref
import refring
from core import Part
from gens import st
from lib import G, LinearCombination, Schur, exact, expect, fmt, name, need, sut
from poly import Poly, S

RULE = ("codes: a random class of any space (N up to 30, rank up to 18), given as text and as a list: part2index must be the class's Schubert symbol (strictly increasing, in 1..N, no two entries "
        "adding to N+1 in types B, C, D) computed independently, and index2part must undo it. symbols: a random Schubert symbol, decoded and encoded again. "
        "linear: both maps on random linear combinations; many terms: of 12 to 120 classes. Non-trivial: the class is not S[].")


@st.composite
def one(draw, tier):
    sp = draw(gens.wide_spaces(maxA=30, maxr=18))
    return [sp, draw(gens.wide_class(sp))]


def check_code(case):
    sp, lam = case
    g = G(*sp)
    tp, m, N = sp
    sym = refring.symbol(*sp, tuple(lam))
    for arg in (fmt(lam), list(lam)):
        w = f"{name(*sp)}.part2index({arg!r})"
        r = sut(g.part2index, arg, what=w)
        p = exact(r, w)
        need(len(p.t) == 1 and len(p.schurs()) == 1, lambda: f"{w} = {p} is not a single index set")
        got = p.schurs()[0]
        need(len(got) == m and all(1 <= a <= N for a in got) and all(a < b for a, b in zip(got, got[1:])),
             lambda: f"{w} = {p} is not an increasing sequence of {m} numbers in 1..{N}")
        if tp != "A":
            need(all(a + b != N + 1 for a in got for b in got), lambda: f"{w} = {p} is not isotropic (two entries add to {N + 1})")
        expect(r, S(sym), w)
        expect(sut(g.index2part, r, what=f"{name(*sp)}.index2part({p})"), S(lam), f"{name(*sp)}.index2part({p})")
    for arg in (fmt(sym), list(sym)):
        w = f"{name(*sp)}.index2part({arg!r})"
        expect(sut(g.index2part, arg, what=w), S(lam), w)


@st.composite
def linear(draw, tier):
    sp = draw(gens.wide_spaces(maxA=12, maxr=8))
    return [sp, draw(gens.lincomb(sp, 4, cls=gens.wide_class(sp), minterms=1))]


def check_linear(case):
    sp, x = case
    g = G(*sp)
    n = ref.nq(*sp)
    y = [[a, b, d, list(refring.symbol(*sp, tuple(c)))] for a, b, d, c in x]
    X, Y = gens.spell_terms(x, n), gens.spell_terms(y, n)
    w = f"{name(*sp)}.part2index({X!r})"
    expect(sut(g.part2index, X, what=w), gens.terms_poly(y, n), w)
    w = f"{name(*sp)}.index2part({Y!r})"
    expect(sut(g.index2part, Y, what=w), gens.terms_poly(x, n), w)


PARTS = [
    Part("codes", check_code, 7200, 30000, strategy=one, nontrivial=lambda c: bool(c[1]), label=lambda c: f"type {c[0][0]}" + (" type-2 class" if c[1] and c[1][-1] == 0 else "")),
    Part("linear", check_linear, 1920, 8000, strategy=linear, nontrivial=lambda c: len(c[1]) > 1, label=lambda c: f"type {c[0][0]}"),
    Part("many terms", check_linear, 160, 1600, strategy=lambda tier: gens.many_terms(), nontrivial=lambda c: len(c[1]) > 30, label=lambda c: [f"type {c[0][0]}", "over 30 terms" if len(c[1]) > 30 else "12 to 30 terms"]),
]
