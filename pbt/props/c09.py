"""dualize: the Poincare dual basis."""
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, exact, expect, fmt, name, need, sut
from poly import Poly, S

RULE = ("formula: dual of a random class of any space (N up to 30, rank up to 18) against the dual computed from Schubert symbols, and twice = identity. "
        "linear: dual of a random linear combination with q coefficients is the combination of the duals; many terms: of 12 to 120 classes. "
        "pairing: for two classes of complementary degree of a stored space, the library's product has the point class with coefficient 1 exactly when one is the dual of the other. "
        "Non-trivial: the class is neither S[] nor self-dual by degree zero.")


@st.composite
def formula(draw, tier):
    sp = draw(gens.wide_spaces(maxA=30, maxr=18))
    return [sp, draw(gens.wide_class(sp))]


def check_formula(case):
    sp, lam = case
    g = G(*sp)
    d = ref.dual(*sp, tuple(lam))
    for form, arg in (("text", fmt(lam)), ("list", list(lam))):
        w = f"{name(*sp)}.dualize({arg!r})"
        r = sut(g.dualize, arg, what=w)
        expect(r, S(d), w)
        expect(sut(g.dualize, r, what=f"{w} dualized again"), S(lam), f"{w} dualized again")


@st.composite
def linear(draw, tier):
    sp = draw(gens.wide_spaces(maxA=12, maxr=8))
    return [sp, draw(gens.lincomb(sp, 4, cls=gens.wide_class(sp)))]


def check_linear(case):
    sp, x = case
    n = ref.nq(*sp)
    t = gens.spell_terms(x, n)
    want = gens.terms_poly([[a, b, d, list(ref.dual(*sp, tuple(c)))] for a, b, d, c in x], n)
    w = f"{name(*sp)}.dualize({t!r})"
    expect(sut(G(*sp).dualize, t, what=w), want, w)


def pairs(tier):
    out = []
    for tp, m, N, n, full in ref.spaces():
        if n > (40 if tier == "quick" else 70):
            continue
        cl = [c for c in ref.refring.classes(tp, m, N)]
        dim = ref.dimension(tp, m, N)
        out += [[[tp, m, N], list(a), list(b)] for a in cl for b in cl if sum(a) + sum(b) == dim and sum(a) <= sum(b)]
    return out


def check_pairing(case):
    sp, a, b = case
    g = G(*sp)
    w = f"{name(*sp)}.mult({fmt(a)}, {fmt(b)})"
    p = exact(sut(g.mult, list(a), list(b), what=w), w)
    pt = exact(sut(g.point_class, what=f"{name(*sp)}.point_class()"), "point class")
    d = exact(sut(g.dualize, fmt(a), what=f"{name(*sp)}.dualize({fmt(a)})"))
    one = d == S(b)
    need(p == (pt if one else Poly()), lambda: f"{w} = {p}, while dualize({fmt(a)}) = {d}: expected {pt if one else 0}")


PARTS = [
    Part("formula", check_formula, 4800, 30000, strategy=formula, nontrivial=lambda c: bool(c[1]), label=lambda c: f"type {c[0][0]}" + (" odd n+1" if c[0][0] == "D" and (c[0][2] // 2) % 2 else "")),
    Part("linear", check_linear, 1280, 8000, strategy=linear, nontrivial=lambda c: len(c[1]) > 1, label=lambda c: f"type {c[0][0]}"),
    Part("many terms", check_linear, 160, 1600, strategy=lambda tier: gens.many_terms(), nontrivial=lambda c: len(c[1]) > 30, label=lambda c: [f"type {c[0][0]}", "over 30 terms" if len(c[1]) > 30 else "12 to 30 terms"]),
    Part("pairing", check_pairing, 2400, 12000, cases=pairs, nontrivial=lambda c: bool(c[1]), size=lambda c: sum(c[2]), label=lambda c: f"type {c[0][0]}"),
]
