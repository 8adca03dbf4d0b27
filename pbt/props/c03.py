"""Ring laws of both products, on spaces and inputs of any size (no tables)."""
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, Schur, exact, fmt, name, need, norm, sut, LinearCombination

RULE = ("A random space (types A-D, N up to 9 / rank up to 5), three random linear combinations of its classes with integer, "
        "fractional and q coefficients, and a scalar; both products must satisfy unit, commutativity, bilinearity over Q[q], "
        "associativity (feeding results back in) and agree with expanding the product expression. "
        "classes: two single classes, special ones in half of the cases, and a special third (N up to 10, rank up to 6): commutativity and associativity. "
        "Non-trivial: all three operands are non-zero and not multiples of S[].")


def _dim(sp):
    return ref.dimension(*sp)


@st.composite
def laws(draw, tier):
    sp = draw(gens.wide_spaces(maxA=9, maxr=5, keep=lambda s: s[0] != "A" or s[1] * (s[2] - s[1]) <= 16))
    top = max(3, min(_dim(sp), 7 if tier == "quick" else 14))
    cl = gens.small_class(sp, top)
    xs = [draw(gens.lincomb(sp, 2, cls=cl, minterms=1)) for _ in range(3)]
    c = draw(gens.COEFS)
    return [sp, xs, c]


def check_laws(case):
    sp, (tx, ty, tz), (a, b) = case
    g = G(*sp)
    n = ref.nq(*sp)
    c = Fraction(a, b)
    X, Y, Z = (gens.spell_terms(t, n) for t in (tx, ty, tz))
    for nm, mul, tos in (("mult", g.mult, g.toS), ("qmult", g.qmult, g.qtoS)):
        w = f"{name(*sp)}.{nm}"
        xy = sut(mul, X, Y, what=f"{w}({X!r}, {Y!r})")
        yx = sut(mul, Y, X, what=f"{w}({Y!r}, {X!r})")
        pxy = exact(xy, f"{w}({X!r}, {Y!r})")
        need(pxy == exact(yx), lambda: f"{w}: x*y = {pxy} but y*x = {norm(yx)} for x={X!r}, y={Y!r}")
        # unit
        for u, v in ((X, "S[]"), ("S[]", X)):
            p = exact(sut(mul, u, v, what=f"{w}({u!r}, {v!r})"))
            need(p == gens.terms_poly(tx, n), lambda: f"{w}({u!r}, {v!r}) = {p}, expected the other factor")
        # bilinearity
        sc = f"{a}/{b}" if b != 1 else str(a)
        comb = f"({Y}) + ({sc})*({Z})"
        pxz = exact(sut(mul, X, Z, what=f"{w}({X!r}, {Z!r})"))
        for u, v in ((X, comb), (comb, X)):
            p = exact(sut(mul, u, v, what=f"{w}({u!r}, {v!r})"))
            need(p == pxy + pxz * c, lambda: f"{w}({u!r}, {v!r}) = {p}, expected {pxy + pxz * c} by bilinearity")
        # associativity through the returned objects
        yz = sut(mul, Y, Z, what=f"{w}({Y!r}, {Z!r})")
        l = exact(sut(mul, xy, Z, what=f"{w}(<{X!r} * {Y!r}>, {Z!r})"))
        r = exact(sut(mul, X, yz, what=f"{w}({X!r}, <{Y!r} * {Z!r}>)"))
        need(l == r, lambda: f"{w}: (x*y)*z = {l} but x*(y*z) = {r} for x={X!r}, y={Y!r}, z={Z!r}")
        # the product expression
        p = exact(sut(tos, f"({X})*({Y})", what=f"{w}: expanding ({X})*({Y})"))
        need(p == pxy, lambda: f"expanding ({X})*({Y}) gives {p} but {nm} gives {pxy}")


@st.composite
def pairs(draw, tier):
    """Two single classes (one of them special in half of the cases), with a third."""
    sp = draw(gens.wide_spaces(maxA=10, maxr=6, keep=lambda s: s[0] != "A" or s[1] * (s[2] - s[1]) <= 20))
    top = max(3, min(_dim(sp), 8 if tier == "quick" else 14))
    cl = gens.small_class(sp, top)
    spec = st.sampled_from([list(c) for _, c in gens.generators_of(sp)])
    a = draw(st.one_of(spec, cl))
    return [sp, a, draw(cl), draw(spec)]


def check_pairs(case):
    sp, a, b, c = case
    g = G(*sp)
    A, B, C = fmt(a), fmt(b), fmt(c)
    for nm, mul in (("mult", g.mult), ("qmult", g.qmult)):
        w = f"{name(*sp)}.{nm}"
        ab = sut(mul, A, B, what=f"{w}({A}, {B})")
        ba = sut(mul, Schur(list(b)), list(a), what=f"{w}({B}, {A})")
        need(exact(ab) == exact(ba), lambda: f"{w}({A}, {B}) = {ab} but {w}({B}, {A}) = {ba}")
        l = exact(sut(mul, C, ab, what=f"{w}({C}, {ab})"))
        ca = sut(mul, C, A, what=f"{w}({C}, {A})")
        r = exact(sut(mul, ca, B, what=f"{w}({ca}, {B})"))
        need(l == r, lambda: f"{w}: {C}*({A}*{B}) = {l} but ({C}*{A})*{B} = {r}")


def nontrivial(case):
    sp, xs, c = case
    return all(any(t[3] for t in x) for x in xs)


PARTS = [Part("laws", check_laws, 280, 8000, strategy=laws, nontrivial=nontrivial,
              label=lambda c: [f"type {c[0][0]}", "q coefficients" if any(any(t[2]) for x in c[1] for t in x) else "no q coefficients"]),
         Part("classes", check_pairs, 400, 8000, strategy=pairs, nontrivial=lambda c: bool(c[1]) and bool(c[2]), label=lambda c: f"type {c[0][0]}")]
