"""Checks in spaces too large for stored tables: a ring homomorphism QH(X) -> F_p (ref.Chars) turns every product
into a product of numbers.  Parts for C01, C02, C06, C07, C08, C14."""
import gens
import ref
import refring
from core import Part
from gens import st
from lib import G, exact, fmt, name, need, sut
import poly
from poly import Poly


def spaces(lo, hi, types="ABCD", keep=None):
    """Types evenly, type D with two quantum parameters one time in seven; then sizes in three bands evenly."""
    alls = [list(s[:3]) for s in ref.char_spaces() if lo <= s[3] <= hi and s[0] in types and (keep is None or keep(s))]
    by = {}
    for s in alls:
        by.setdefault(s[0], []).append(s)
    two = [s for s in alls if gens.nq(s) == 2]
    def band(lst):
        n = max(1, (len(lst) + 2) // 3)
        return st.sampled_from([lst[i:i + n] for i in range(0, len(lst), n)]).flatmap(st.sampled_from)
    w = st.sampled_from(sorted(by)).flatmap(lambda t: band(by[t]))
    return st.integers(0, 6).flatmap(lambda t: band(two) if t == 6 and two else w)


def homs(sp):
    return ref.chars(*sp)


def agree(sp, got, want, what):
    """got: Poly returned by the library; want: one number per homomorphism."""
    v = homs(sp).values(got)
    need(v is not None, lambda: f"{what} = {got} is not an expression in the classes and q of {name(*sp)}")
    need(v == want, lambda: f"{what} = {got}: its image under a ring homomorphism QH -> F_p is not that of the true value")


def val(sp, p):
    v = homs(sp).values(p)
    assert v is not None, p
    return v


def times(sp, *vs):
    out = []
    for (P, _, _), *xs in zip(homs(sp).homs, *vs):
        t = 1
        for x in xs:
            t = t * x % P
        out.append(t)
    return out


def plain(p):
    """The part of p without q."""
    return Poly({m: c for m, c in p.t.items() if not any(isinstance(v, str) for v, _ in m)})


def linear(p):
    return all(sum(e for v, e in m if isinstance(v, tuple)) == 1 for m in p.t)


# ---- C01, C02
def pair_strategy(tier):
    hi = 600 if tier == "quick" else 1150

    @st.composite
    def pairs(draw):
        sp = draw(spaces(40, hi))
        top = 18 if tier == "quick" else 40
        if draw(st.booleans()):
            a = [[1, 1, [0] * gens.nq(sp), [draw(gens.small_class(sp, 10 if tier == "quick" else 20))]]]
            return [sp, a, [[1, 1, [0] * gens.nq(sp), draw(gens.wide_class(sp))]], draw(st.booleans())]
        # a polynomial: products, and a class times a power
        b = draw(gens.lincomb(sp, 2, minterms=1, cls=gens.wide_class(sp)))
        if draw(st.booleans()):
            return [sp, draw(gens.monomials(sp, gens.small_class(sp, top // 3).filter(len), 2, 3)), b, False]
        one = draw(gens.small_class(sp, 3).filter(len))
        a = [[draw(st.integers(1, 3)), 1, [0] * gens.nq(sp), [one] * draw(st.integers(2, 3)) + [draw(gens.small_class(sp, 10 if tier == "quick" else 20))]]]
        return [sp, a, b, False]
    return pairs()


def check_pair(quantum):
    def check(case):
        sp, a, b, swap = case
        g, n = G(*sp), gens.nq(sp)
        A, B = gens.spell(a, n), gens.spell_terms(b, n)
        x, y = (B, A) if swap else (A, B)
        w = f"{name(*sp)}.qmult({x!r}, {y!r})"
        Q = exact(sut(g.qmult, x, y, what=w), w)
        agree(sp, Q, times(sp, val(sp, gens.mono_poly(a, n)), val(sp, gens.terms_poly(b, n))), w)
        need(linear(Q), lambda: f"{w} = {Q} is not a combination of classes")
        if not quantum and not any(any(t[2]) for t in a + b):
            w2 = f"{name(*sp)}.mult({x!r}, {y!r})"
            C = exact(sut(g.mult, x, y, what=w2), w2)
            need(C == plain(Q), lambda: f"{w2} = {C}, but the product without its q terms is {plain(Q)}")
    return check


def cls(c):
    return poly.S(c)


def size_label(c):
    n = len(homs(c[0]).cls)
    return [f"type {c[0][0]}", f"{'over 300' if n > 300 else 'up to 300'} classes"]


def pair_part(quantum):
    return Part("wide", check_pair(quantum), 200 if quantum else 120, 3000, strategy=pair_strategy,
                nontrivial=lambda c: any(any(t[3]) for t in c[1]) and any(t[3] for t in c[2]), label=size_label, heavy=True)


# ---- C06
@st.composite
def pieris(draw, tier):
    sp = draw(spaces(40, 2100))
    i, c = draw(st.sampled_from(gens.generators_of(sp)))
    return [sp, i, c, draw(gens.far_class(sp))]


def check_pieri(case):
    sp, i, c, lam = case
    g = G(*sp)
    w = f"{name(*sp)}.qpieri({i}, {fmt(lam)})"
    Q = exact(sut(g.qpieri, i, fmt(lam), what=w), w)
    agree(sp, Q, times(sp, val(sp, cls(c)), val(sp, cls(lam))), w)
    need(linear(Q), lambda: f"{w} = {Q} is not a combination of classes")
    w2 = f"{name(*sp)}.pieri({i}, {fmt(lam)})"
    C = exact(sut(g.pieri, i, fmt(lam), what=w2), w2)
    need(C == plain(Q), lambda: f"{w2} = {C}, but the product without its q terms is {plain(Q)}")


PIERI = Part("wide", check_pieri, 1600, 24000, strategy=pieris, nontrivial=lambda c: bool(c[3]), label=size_label, heavy=True)


# ---- C07
@st.composite
def giambellis(draw, tier):
    sp = draw(spaces(40, 2100))
    return [sp, draw(gens.small_class(sp, 16 if tier == "quick" else 28) if tier == "quick" or draw(st.booleans()) else gens.wide_class(sp))]


def check_giambelli(case):
    sp, lam = case
    g = G(*sp)
    special = {tuple(c) for _, c in gens.generators_of(sp)}
    w = f"{name(*sp)}.qgiambelli({fmt(lam)})"
    p = exact(sut(g.qgiambelli, fmt(lam), what=w), w)
    bad = [v for v in p.vars() if isinstance(v, tuple) and v[1] not in special]
    need(not bad, lambda: f"{w} uses {bad}, which are not generators: {p}")
    agree(sp, p, val(sp, cls(lam)), w)


GIAMBELLI = Part("far", check_giambelli, 800, 12000, strategy=giambellis, nontrivial=lambda c: len([x for x in c[1] if x]) > 1, label=size_label, heavy=True)


# ---- C08
@st.composite
def acts(draw, tier):
    sp = draw(spaces(40, 1150 if tier == "quick" else 2100))
    gl = st.sampled_from([c for _, c in gens.generators_of(sp)])
    e = draw(gens.monomials(sp, gl, 2, 4 if tier == "quick" else 6))
    return [sp, e, draw(gens.lincomb(sp, 2, minterms=1, cls=gens.far_class(sp)))]


def check_act(case):
    sp, e, x = case
    g, n = G(*sp), gens.nq(sp)
    E, X = gens.spell(e, n), gens.spell_terms(x, n)
    w = f"{name(*sp)}.qact({E!r}, {X!r})"
    Q = exact(sut(g.qact, E, X, what=w), w)
    agree(sp, Q, times(sp, val(sp, gens.mono_poly(e, n)), val(sp, gens.terms_poly(x, n))), w)
    need(linear(Q), lambda: f"{w} = {Q} is not a combination of classes")
    if not any(any(t[2]) for t in e + x):
        w2 = f"{name(*sp)}.act({E!r}, {X!r})"
        C = exact(sut(g.act, E, X, what=w2), w2)
        need(C == plain(Q), lambda: f"{w2} = {C}, but qact without its q terms is {plain(Q)}")


ACT = Part("far", check_act, 400, 8000, strategy=acts, nontrivial=lambda c: any(len(t[3]) > 1 for t in c[1]) and any(t[3] for t in c[2]), label=size_label, heavy=True)


# ---- C14
@st.composite
def rims(draw, tier):
    sp = draw(spaces(20, 500 if tier == "quick" else 1000, types="A"))
    return [sp, draw(gens.small_class(sp, 6 if tier == "quick" else 9)), draw(gens.wide_class(sp))]


def check_rim(case):
    sp, a, b = case
    g = G(*sp)
    w = f"{name(*sp)}.qmult_rh({fmt(a)}, {fmt(b)})"
    Q = exact(sut(g.qmult_rh, fmt(a), fmt(b), what=w), w)
    agree(sp, Q, times(sp, val(sp, cls(a)), val(sp, cls(b))), w)
    need(linear(Q), lambda: f"{w} = {Q} is not a combination of classes")


RIM = Part("far", check_rim, 160, 3000, strategy=rims, nontrivial=lambda c: bool(c[1]) and sum(c[1]) + sum(c[2]) >= c[0][2], label=size_label, heavy=True)
