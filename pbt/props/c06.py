"""pieri / qpieri = multiplication by a special class."""
import charprops
from farprops import BIGA, BIGR, _which, big, chev, corners, maximal, vec_of
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, LinearCombination, Schur, exact, expect, fmt, name, need, norm, sut
from poly import Poly

RULE = ("table: (special degree, class) of every stored space against the reference product, class given as text, list and object; non-trivial: class is not S[] and the product has a q term. "
        "divisor: degree-one Pieri on any space (rank up to 9, N up to 16) against the Chevalley formula computed from root data. "
        "commuting: on such spaces, special class times divisor in both orders, the divisor applied by the Chevalley formula on one side. "
        "maximal: spaces of maximal isotropic subspaces of rank up to 14 and classes with many corners, against the Hiller-Boe / Kresch-Tamvakis Pieri rules (coefficients 2^components). corners: the commuting check on such classes, k up to 3. adjoint: the coefficient of (q^d, mu) in p*lambda equals that of (q^d, dual lambda) in p*dual(mu). "
        "wide: every special degree on spaces of 40 to 2100 classes, where a ring homomorphism QH -> F_p (ref.Chars) must turn the answer into the product of the two numbers; pieri is its part without q. "
        "linear: Pieri of a random linear combination with q coefficients is the combination of the reference products; many terms: of 12 to 80 classes.")
ASSUMPTIONS = ["pbt/refring.py and ref.Chevalley are right (cross-checked against each other and the shipped Maple tables)"]


def table(tier):
    out = []
    for tp, m, N, n, full in ref.spaces():
        if n > (200 if tier == "quick" else 10 ** 6):
            continue
        R = ref.ring(tp, m, N)
        rows = [[[tp, m, N], i, list(c)] for i, _ in R.special for c in R.cls]
        cap = 160 if tier == "quick" else 1200
        if len(rows) > cap:
            step = len(rows) / cap
            rows = [rows[int(j * step)] for j in range(cap)]
        out += rows
    return out


def check_table(case):
    sp, i, lam = case
    g, R = G(*sp), ref.ring(*sp)
    spec = dict(R.special)[i]
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        want = R.prod_poly(tuple(spec), tuple(lam), q)
        for form, arg in (("text", fmt(lam)), ("list", list(lam))):
            w = f"{name(*sp)}.{nm}({i}, {arg!r})"
            expect(sut(f, i, arg, what=w), want, w)


def table_nontrivial(case):
    sp, i, lam = case
    R = ref.ring(*sp)
    return bool(lam) and any(any(k[1]) for k in R.prod(tuple(dict(R.special)[i]), tuple(lam)))


def table_label(case):
    sp, i, lam = case
    R = ref.ring(*sp)
    d = R.prod(tuple(dict(R.special)[i]), tuple(lam))
    return [f"type {sp[0]} k={R.k if R.k < 3 else '3+'}", f"highest q-degree {max([sum(k[1]) for k in d], default=0)}"]


# ---- any size
@st.composite
def divisor(draw, tier):
    sp = draw(big(BIGA, BIGR))
    return [sp, draw(gens.far_class(sp)), draw(st.sampled_from(_which(sp)))[0]]


def check_divisor(case):
    sp, lam, i = case
    g = G(*sp)
    w_i = dict(_which(sp))[i]
    n = ref.nq(*sp)
    start = {(tuple(lam), (0,) * n): Fraction(1)}
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        w = f"{name(*sp)}.{nm}({i}, {fmt(lam)})"
        expect(sut(f, i, fmt(lam), what=w), ref.vec_poly(chev(sp, start, w_i, q), n), w)


def divisor_nontrivial(case):
    sp, lam, i = case
    return bool(lam)


@st.composite
def commuting(draw, tier):
    sp = draw(big(12, 10))
    gl = gens.generators_of(sp)
    i = draw(st.sampled_from([i for i, _ in gl]))
    return [sp, draw(gens.far_class(sp)), i, draw(st.sampled_from(_which(sp)))[0]]


def check_commuting(case):
    sp, lam, i, j = case
    g = G(*sp)
    n = ref.nq(*sp)
    wj = dict(_which(sp))[j]
    start = {(tuple(lam), (0,) * n): Fraction(1)}
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        w = f"{name(*sp)}.{nm}({i}, {fmt(lam)})"
        a = vec_of(exact(sut(f, i, fmt(lam), what=w), w), sp, w)
        left = ref.vec_poly(chev(sp, a, wj, q), n)
        d = ref.vec_poly(chev(sp, start, wj, q), n)
        w2 = f"{name(*sp)}.{nm}({i}, {str(d)!r})"
        right = exact(sut(f, i, str(d), what=w2), w2)
        need(left == right, lambda: f"{name(*sp)}: special class {i} and divisor {j} do not commute on {fmt(lam)} ({nm}): {left} versus {right}")


def check_maximal(case):
    sp, lam, i, _ = case
    g = G(*sp)
    want = maximal(sp, i, tuple(lam))
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        w = f"{name(*sp)}.{nm}({i}, {fmt(lam)})"
        expect(sut(f, i, list(lam), what=w), ref.vec_poly({k: a for k, a in want.items() if q or not any(k[1])}, 1), w)


@st.composite
def adjoint(draw, tier):
    sp = draw(big(12, 10))
    i = draw(st.sampled_from([i for i, _ in gens.generators_of(sp)]))
    return [sp, draw(gens.far_class(sp)), i, draw(st.integers(0, 1000))]


def check_adjoint(case):
    sp, lam, i, pick = case
    g = G(*sp)
    w = f"{name(*sp)}.qpieri({i}, {fmt(lam)})"
    a = vec_of(exact(sut(g.qpieri, i, fmt(lam), what=w), w), sp, w)
    if not a:
        return
    for t in range(3):
        keys = sorted(a)
        mu, d = keys[(pick + t * 7) % len(keys)]
        dm = ref.dual(*sp, mu)
        w2 = f"{name(*sp)}.qpieri({i}, {fmt(dm)})"
        b = vec_of(exact(sut(g.qpieri, i, fmt(dm), what=w2), w2), sp, w2)
        got = b.get((ref.dual(*sp, tuple(lam)), d), 0)
        # type D, q1/q2: the pairing is the same one, so d is the same
        need(got == a[(mu, d)], lambda: f"{name(*sp)}: coefficient {a[(mu, d)]} of q^{d} {fmt(mu)} in {w}, but {got} in the transposed product {w2}")


@st.composite
def linear(draw, tier):
    sp = draw(gens.spaces(100, minn=4))
    return [sp, draw(st.sampled_from([i for i, _ in gens.generators_of(sp)])), draw(gens.lincomb(sp, 4, minterms=1))]


@st.composite
def many(draw, tier):
    sp, x = draw(gens.many_terms(top=80))
    return [sp, draw(st.sampled_from([i for i, _ in gens.generators_of(sp)])), x]


def check_linear(case):
    sp, i, x = case
    g, R = G(*sp), ref.ring(*sp)
    t = gens.spell_terms(x, R.nq)
    spec = {(tuple(dict(R.special)[i]), (0,) * R.nq): Fraction(1)}
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        w = f"{name(*sp)}.{nm}({i}, {t!r})"
        expect(sut(f, i, t, what=w), R.to_poly(R.mulv(spec, gens.vec(x), q)), w)


PARTS = [
    Part("table", check_table, 7504, 40000, cases=table, nontrivial=table_nontrivial, label=table_label, size=lambda c: len(ref.ring(*c[0]).cls)),
    Part("divisor", check_divisor, 1800, 6000, strategy=divisor, nontrivial=divisor_nontrivial, label=lambda c: f"type {c[0][0]} index {c[2]}"),
    Part("commuting", check_commuting, 1200, 6000, strategy=commuting, nontrivial=lambda c: bool(c[1]), label=lambda c: f"type {c[0][0]}"),
    Part("maximal", check_maximal, 800, 8000, strategy=lambda tier: corners(2, 14, 0, 0), nontrivial=lambda c: len(c[1]) > 2, label=lambda c: [f"type {c[0][0]}", f"coefficients up to {max(maximal(c[0], c[2], tuple(c[1])).values(), default=0)}"]),
    Part("corners", check_commuting, 160, 3000, strategy=lambda tier: corners(5, 11 if tier == "quick" else 13, 1, 3), nontrivial=lambda c: len(c[1]) > 2, label=lambda c: f"type {c[0][0]}"),
    Part("adjoint", check_adjoint, 1200, 6000, strategy=adjoint, nontrivial=lambda c: bool(c[1]), label=lambda c: f"type {c[0][0]}"),
    Part("linear", check_linear, 960, 6000, strategy=linear, nontrivial=lambda c: len(c[2]) > 1, label=lambda c: f"type {c[0][0]}"),
    Part("many terms", check_linear, 80, 800, strategy=many, nontrivial=lambda c: len(c[2]) > 30, label=lambda c: f"type {c[0][0]}"),
    charprops.PIERI,
]
