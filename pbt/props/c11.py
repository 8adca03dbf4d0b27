"""Partition pairs: part2pair / pair2part (types B, C, D)."""
import gens
import ref
import refring
from core import Part
from gens import st
from lib import G, exact, expect, fmt, name, need, sut
from poly import Poly, S

RULE = ("pairs: a random class of any isotropic or orthogonal space (rank up to 18), given as text and as a list: the pair must be (column lengths of the first k columns, what is left of each row beyond column k), "
        "with the type-2 mark kept as a final 0 of the second partition, and pair2part must undo it. linear: both maps on random linear combinations; many terms: of 12 to 120 classes. "
        "reject: type A refuses both maps. Non-trivial: k > 0 and both parts of the pair are non-zero.")


def pair_of(sp, lam):
    k, _ = refring.params(*sp)
    core = [x for x in lam if x]
    top = [sum(1 for x in core if x > j) for j in range(k)]
    bot = [x - k for x in core if x > k]
    if lam and lam[-1] == 0:
        bot.append(0)
    return [top, bot]


@st.composite
def one(draw, tier):
    sp = draw(gens.wide_spaces(types="BCD", maxr=18))
    return [sp, draw(gens.wide_class(sp))]


def check_pair(case):
    sp, lam = case
    g = G(*sp)
    want = pair_of(sp, lam)
    for arg in (fmt(lam), list(lam)):
        w = f"{name(*sp)}.part2pair({arg!r})"
        r = sut(g.part2pair, arg, what=w)
        expect(r, S(want), w)
        expect(sut(g.pair2part, r, what=f"{name(*sp)}.pair2part(<{w}>)"), S(lam), f"{name(*sp)}.pair2part(<{w}>)")
    for arg in (fmt(want), [list(want[0]), list(want[1])]):
        w = f"{name(*sp)}.pair2part({arg!r})"
        expect(sut(g.pair2part, arg, what=w), S(lam), w)


@st.composite
def linear(draw, tier):
    sp = draw(gens.wide_spaces(types="BCD", maxr=8))
    return [sp, draw(gens.lincomb(sp, 4, cls=gens.wide_class(sp), minterms=1))]


def check_linear(case):
    sp, x = case
    g = G(*sp)
    n = ref.nq(*sp)
    y = [[a, b, d, pair_of(sp, c)] for a, b, d, c in x]
    X, Y = gens.spell_terms(x, n), gens.spell_terms(y, n)
    w = f"{name(*sp)}.part2pair({X!r})"
    expect(sut(g.part2pair, X, what=w), ref_poly(y, n), w)
    w = f"{name(*sp)}.pair2part({Y!r})"
    expect(sut(g.pair2part, Y, what=w), gens.terms_poly(x, n), w)


def ref_poly(y, n):
    p = Poly()
    for a, b, d, c in y:
        p = p + gens.mono_poly([[a, b, d, [c]]], n)
    return p


def reject_cases(tier):
    return [["A", m, N] for N in range(2, 9) for m in range(1, N)]


def check_reject(case):
    g = G(*case)
    for nm, arg in (("part2pair", "S[1]"), ("pair2part", "S[[1],[]]"), ("part2pair", [1]), ("pair2part", [[1], []])):
        try:
            r = getattr(g, nm)(arg)
        except Exception:
            continue
        need(False, lambda: f"{name(*case)}.{nm}({arg!r}) = {r}; partition pairs only exist in types B, C, D")


PARTS = [
    Part("pairs", check_pair, 6000, 20000, strategy=one, nontrivial=lambda c: all(any(x) for x in pair_of(*c)),
         label=lambda c: f"type {c[0][0]}" + (" type-2 class" if c[1] and c[1][-1] == 0 else "")),
    Part("linear", check_linear, 1440, 6000, strategy=linear, nontrivial=lambda c: len(c[1]) > 1, label=lambda c: f"type {c[0][0]}"),
    Part("many terms", check_linear, 160, 1600, strategy=lambda tier: gens.many_terms("BCD"), nontrivial=lambda c: len(c[1]) > 30, label=lambda c: [f"type {c[0][0]}", "over 30 terms" if len(c[1]) > 30 else "12 to 30 terms"]),
    Part("reject", check_reject, 120, 40, cases=reject_cases),
]
