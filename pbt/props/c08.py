"""act / qact: polynomials in the special classes act as ring elements."""
import charprops
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, exact, expect, fmt, name, need, sut

RULE = ("table: polynomial in the special classes (up to 3 terms, up to 4 factors, repeated factors, integer/fractional/q coefficients, constants) acting on a linear combination of classes "
        "of a stored space, against repeated multiplication in the reference ring. "
        "powers: products of up to 28 special classes, far beyond the dimension, on small spaces. module: on spaces without tables, (e*f).x = e.(f.x), (e+f).x = e.x + f.x, 1.x = x and 0.x = 0. "
        "far: on spaces of 40 to 1150 classes (thorough 2100) a ring homomorphism QH -> F_p must give e.x the product of the values of e and x; act is the part of qact without q. "
        "Non-trivial: some term has two or more special factors and x is not a multiple of S[].")


@st.composite
def table(draw, tier):
    sp = draw(gens.spaces(84, minn=3))
    gl = st.sampled_from([c for _, c in gens.generators_of(sp)])
    return [sp, draw(gens.monomials(sp, gl, 3, 4 if tier == "quick" else 6)), draw(gens.lincomb(sp, 3, minterms=1))]


def check_table(case):
    sp, e, x = case
    g, R = G(*sp), ref.ring(*sp)
    E, X = gens.spell(e, R.nq), gens.spell_terms(x, R.nq)
    for nm, f, q in (("act", g.act, False), ("qact", g.qact, True)):
        w = f"{name(*sp)}.{nm}({E!r}, {X!r})"
        expect(sut(f, E, X, what=w), R.to_poly(R.evaluate(gens.mono_poly(e, R.nq), gens.vec(x), q)), w)


@st.composite
def powers(draw, tier):
    """High powers: beyond the dimension and the degree of q."""
    sp = draw(gens.spaces(10 if tier == "quick" else 16, minn=2))
    gl = [c for _, c in gens.generators_of(sp)]
    fs = draw(st.lists(st.tuples(st.sampled_from(gl), st.integers(1, 14)), min_size=1, max_size=2))
    out = [c for c, e in fs for _ in range(e)]
    return [sp, [[draw(st.integers(1, 3)), 1, [0] * gens.nq(sp), out]], [[1, 1, [0] * gens.nq(sp), draw(gens.klass(sp))]]]


@st.composite
def module(draw, tier):
    sp = draw(gens.wide_spaces(maxA=12, maxr=6))
    gl = st.sampled_from([c for _, c in gens.generators_of(sp)])
    e, f = (draw(gens.monomials(sp, gl, 2, 2)) for _ in "ef")
    return [sp, e, f, draw(gens.lincomb(sp, 2, minterms=1, cls=gens.far_class(sp)))]


def check_module(case):
    sp, e, f, x = case
    g, n = G(*sp), ref.nq(*sp)
    E, F, X = gens.spell(e, n), gens.spell(f, n), gens.spell_terms(x, n)
    for nm, act in (("act", g.act), ("qact", g.qact)):
        w = f"{name(*sp)}.{nm}"
        fx = sut(act, F, X, what=f"{w}({F!r}, {X!r})")
        efx = exact(sut(act, E, fx, what=f"{w}({E!r}, <{fx}>)"))
        ef = exact(sut(act, f"({E})*({F})", X, what=f"{w}(({E})*({F}), {X!r})"))
        need(ef == efx, lambda: f"{w}: (e*f).x = {ef} but e.(f.x) = {efx} for e={E!r} f={F!r} x={X!r}")
        ex = exact(sut(act, E, X, what=f"{w}({E!r}, {X!r})"))
        s = exact(sut(act, f"({E}) + ({F})", X, what=f"{w}(({E}) + ({F}), {X!r})"))
        need(s == ex + exact(fx), lambda: f"{w}: (e+f).x = {s}, expected {ex + exact(fx)} for e={E!r} f={F!r} x={X!r}")
        one = exact(sut(act, "1", X, what=f"{w}('1', {X!r})"))
        need(one == gens.terms_poly(x, n), lambda: f"{w}('1', {X!r}) = {one}")
        zero = exact(sut(act, "0", X, what=f"{w}('0', {X!r})"))
        need(not zero, lambda: f"{w}('0', {X!r}) = {zero}")


def nt(e, x):
    return any(len(t[3]) > 1 for t in e) and any(t[3] for t in x)


PARTS = [
    Part("table", check_table, 1600, 20000, strategy=table, nontrivial=lambda c: nt(c[1], c[2]), label=lambda c: f"type {c[0][0]}"),
    Part("powers", check_table, 160, 2400, strategy=powers, nontrivial=lambda c: True, label=lambda c: f"power {'over 8' if len(c[1][0][3]) > 8 else 'up to 8'}"),
    Part("module", check_module, 400, 6000, strategy=module, nontrivial=lambda c: nt(c[1] + c[2], c[3]), label=lambda c: f"type {c[0][0]}"),
    charprops.ACT,
]
