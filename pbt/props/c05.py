"""Setting q (q1, q2) to 0 in a quantum answer gives the classical answer."""
import gens
import ref
from core import Part
from gens import st
from lib import G, exact, fmt, name, need, sut
from poly import Poly

RULE = ("Random inputs without q on random spaces (types A-D, N up to 11 / rank up to 6): linear combinations for products and Pieri, polynomials in "
        "generators for the action, polynomials in classes for expansion; the quantum answer with every q term dropped must equal the classical answer "
        "(for Giambelli: as a class). Non-trivial: the quantum answer of at least one operation has a q term (measured on the class degrees: "
        "the sum of degrees reaches deg q).")


def zero_q(p):
    return ref.classical(p)


@st.composite
def cases(draw, tier):
    sp = draw(gens.wide_spaces(maxA=11, maxr=6))
    small = gens.small_class(sp, 5 if tier == "quick" else 8)
    x = draw(gens.lincomb(sp, 2, q=False, cls=small, minterms=1))
    y = draw(gens.lincomb(sp, 2, q=False, cls=gens.far_class(sp), minterms=1))
    gl = gens.generators_of(sp)
    i = draw(st.sampled_from([i for i, _ in gl]))
    e = draw(gens.monomials(sp, st.sampled_from([c for _, c in gl]), 2, 3, q=False))
    return [sp, x, y, i, e]


def check(case):
    sp, x, y, i, e = case
    g = G(*sp)
    n = ref.nq(*sp)
    X, Y, E = gens.spell_terms(x, n), gens.spell_terms(y, n), gens.spell(e, n)
    s = name(*sp)
    for nm, qf, cf, args in (("qpieri", g.qpieri, g.pieri, (i, Y)), ("qact", g.qact, g.act, (E, Y)), ("qmult", g.qmult, g.mult, (X, Y)),
                             ("qtoS", g.qtoS, g.toS, (E,)), ("qtoS", g.qtoS, g.toS, (f"({X})*({E})",))):
        w = f"{s}.{nm}{args}"
        a = exact(sut(qf, *args, what=w), w)
        b = exact(sut(cf, *args, what=f"{s}.{nm[1:]}{args}"), f"{s}.{nm[1:]}{args}")
        need(not any(v in ("q", "q1", "q2") for v in b.vars()), lambda: f"{s}.{nm[1:]}{args} = {b} contains q")
        need(zero_q(a) == b, lambda: f"{w} at q=0 is {zero_q(a)}, but {nm[1:]} gives {b}")
    qg = exact(sut(g.qgiambelli, X, what=f"{s}.qgiambelli({X!r})"))
    cg = exact(sut(g.giambelli, X, what=f"{s}.giambelli({X!r})"))
    need(not any(v in ("q", "q1", "q2") for v in cg.vars()), lambda: f"{s}.giambelli({X!r}) = {cg} contains q")
    want = gens.terms_poly(x, n)
    for which, p in (("qgiambelli at q=0", zero_q(qg)), ("giambelli", cg)):
        p = exact(sut(g.act, str(p), "S[]", what=f"{s}.act({p}, 'S[]')"))
        need(p == want, lambda: f"{s}: {which} of {X!r} evaluates classically to {p}")


def nontrivial(case):
    sp, x, y, i, e = case
    dq = ref.degq(*sp)
    return any(sum(t[3]) + sum(u[3]) >= dq for t in x for u in y) or any(abs(i) + sum(u[3]) >= dq for u in y)


PARTS = [Part("q=0", check, 960, 8000, strategy=cases, nontrivial=nontrivial, label=lambda c: f"type {c[0][0]}")]
