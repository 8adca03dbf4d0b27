"""Every answer is a homogeneous non-negative integral combination of classes of the same space."""
import gens
import ref
from core import Part
from gens import st
from lib import G, exact, fmt, name, need, sut

RULE = ("Random classes of random spaces (types A-D, N up to 11 / rank up to 6); each operation's answer is checked term by term: the class exists in "
        "the space, the coefficient is a positive integer (Giambelli: an integer), q powers are whole and only the space's own q variables occur, "
        "the degree equals the sum of the input degrees. Non-trivial: the answer is non-zero and the inputs are not S[].")


def check_terms(p, sp, deg, what, quantum, positive=True, classes=1, gens_only=False):
    qv = ref.QV[ref.nq(*sp)]
    dq = ref.degq(*sp)
    for m, c in p.t.items():
        need(c.denominator == 1 and (c > 0 or not positive), lambda: f"{what} has coefficient {c}: {p}")
        d, ncl = 0, 0
        for v, e in m:
            if isinstance(v, tuple):
                need(ref.is_class(*sp, v[1]), lambda: f"{what} contains {fmt(v[1])}, which is not a class of {name(*sp)}: {p}")
                d += sum(v[1]) * e
                ncl += e
            else:
                need(quantum and v in qv, lambda: f"{what} contains the variable {v}: {p}")
                d += dq * e
        if classes == 1:
            need(ncl == 1, lambda: f"{what} is not a linear combination of classes: {p}")
        need(d == deg, lambda: f"{what} has a term of degree {d}, expected degree {deg}: {p}")


@st.composite
def pair(draw, tier):
    sp = draw(gens.wide_spaces(maxA=11, maxr=6))
    top = 7 if tier == "quick" else 12
    a = draw(gens.small_class(sp, top))
    # second operand: any class (products with classes near the point class produce q terms)
    b = draw(gens.far_class(sp))
    if sp[0] == "A" and sp[1] * (sp[2] - sp[1]) > 20 and sum(a) > 6:
        a = draw(gens.small_class(sp, 6))
    return [sp, a, b]


def check_products(case):
    sp, a, b = case
    g = G(*sp)
    for nm, f, q in (("mult", g.mult, False), ("qmult", g.qmult, True)):
        w = f"{name(*sp)}.{nm}({fmt(a)}, {fmt(b)})"
        check_terms(exact(sut(f, list(a), list(b), what=w), w), sp, sum(a) + sum(b), w, q)
    for nm, f, q in (("toS", g.toS, False), ("qtoS", g.qtoS, True)):
        t = f"{fmt(a)}*{fmt(gens.shrink_to(sp, b, 8))}"
        w = f"{name(*sp)}.{nm}({t!r})"
        check_terms(exact(sut(f, t, what=w), w), sp, sum(a) + sum(gens.shrink_to(sp, b, 8)), w, q)


@st.composite
def one(draw, tier):
    sp = draw(gens.wide_spaces(maxA=14, maxr=8))
    a = draw(gens.small_class(sp, 8))
    b = draw(gens.far_class(sp))
    i = draw(st.sampled_from([i for i, _ in gens.generators_of(sp)]))
    return [sp, i, a, b]


def check_one(case):
    sp, i, a, b = case
    g = G(*sp)
    for nm, f, q in (("pieri", g.pieri, False), ("qpieri", g.qpieri, True)):
        w = f"{name(*sp)}.{nm}({i}, {fmt(b)})"
        check_terms(exact(sut(f, i, fmt(b), what=w), w), sp, abs(i) + sum(b), w, q)
    special = {tuple(c) for _, c in gens.generators_of(sp)}
    for nm, f, q in (("giambelli", g.giambelli, False), ("qgiambelli", g.qgiambelli, True)):
        w = f"{name(*sp)}.{nm}({fmt(a)})"
        p = exact(sut(f, fmt(a), what=w), w)
        check_terms(p, sp, sum(a), w, q, positive=False, classes=0)
        need(all(tuple(c) in special for c in p.schurs()), lambda: f"{w} uses classes that are not generators: {p}")
    w = f"{name(*sp)}.dualize({fmt(b)})"
    p = exact(sut(g.dualize, fmt(b), what=w), w)
    check_terms(p, sp, ref.dimension(*sp) - sum(b), w, False)
    need(len(p.t) == 1 and all(c == 1 for c in p.t.values()), lambda: f"{w} = {p} is not a single class")


PARTS = [
    Part("products", check_products, 840, 8000, strategy=pair, nontrivial=lambda c: bool(c[1]) and bool(c[2]), label=lambda c: f"type {c[0][0]}"),
    Part("pieri, giambelli, dual", check_one, 840, 8000, strategy=one, nontrivial=lambda c: bool(c[2]) and bool(c[3]), label=lambda c: f"type {c[0][0]}"),
]
