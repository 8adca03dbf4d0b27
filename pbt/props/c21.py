"""Type D symmetry: type_swap, miami_swap, schub_type."""
from fractions import Fraction

import gens
import poly
import ref
import refring
from core import Part
from gens import st
from lib import G, Schur, exact, expect, fmt, name, need, sut

RULE = ("automorphism: on random OG(m,2n+2) (rank up to 6), exchanging types 1 and 2 (and q1, q2 when k = 1) in the operands of mult, qmult, pieri, qpieri, dualize, giambelli and qgiambelli exchanges them in the answer; "
        "on symbols it exchanges n+1 and n+2. maps: on random classes and linear combinations (text, list, object) of any orthogonal space, type_swap and miami_swap are the maps computed from the partition "
        "(miami_swap only where the number of parts above k is odd), are involutions, and leave the coefficients alone (many terms: of 12 to 120 classes); schub_type is 0, 1 or 2 by definition. others: in types A, B, C both swaps are the identity and "
        "schub_type raises ValueError. Non-trivial: some class involved has type 1 or 2.")


def swap(sp, c):
    k = refring.params(*sp)[0]
    if sp[0] != "D" or k == 0 or k not in c:
        return list(c)
    return list(c[:-1]) if c[-1] == 0 else list(c) + [0]


def miami(sp, c):
    k = refring.params(*sp)[0]
    return swap(sp, c) if sum(1 for x in c if x > k) % 2 else list(c)


def map_poly(p, f, sp):
    """Apply f to every class of a polynomial; exchange q1 and q2."""
    out = poly.Poly()
    for m, c in p.t.items():
        t = poly.Poly.const(c)
        for v, e in m:
            if isinstance(v, tuple):
                w = poly.S(f(sp, list(v[1])))
            else:
                w = poly.Poly.var({"q1": "q2", "q2": "q1"}.get(v, v))
            t = t * w ** e
        out = out + t
    return out


def typed(sp, c):
    k = refring.params(*sp)[0]
    return sp[0] == "D" and k > 0 and k in c


def d_spaces(maxr):
    return gens.wide_spaces("D", maxr=maxr, keep=lambda s: s[1] < s[2] // 2)


@st.composite
def auto(draw, tier):
    op = draw(st.sampled_from(["qmult", "qmult", "mult", "qpieri", "pieri", "qgiambelli", "giambelli", "dualize"]))
    light = op in ("qpieri", "pieri", "dualize")
    sp = draw(d_spaces(7 if light else 5))
    cl = gens.far_class(sp) if light else gens.small_class(sp, 8)
    p = draw(st.sampled_from([p for p, _ in gens.generators_of(sp)]))
    a, b = draw(cl), draw(cl)
    return [sp, op, p, a, b]


def check_auto(case):
    sp, op, p, a, b = case
    g = G(*sp)
    k = refring.params(*sp)[0]
    f = getattr(g, op)
    sa, sb = swap(sp, a), swap(sp, b)
    if op in ("mult", "qmult"):
        w = f"{name(*sp)}.{op}({fmt(a)}, {fmt(b)})"
        x = exact(sut(f, fmt(a), fmt(b), what=w), w)
        w2 = f"{name(*sp)}.{op}({fmt(sa)}, {fmt(sb)})"
        y = exact(sut(f, fmt(sa), fmt(sb), what=w2), w2)
    elif op in ("pieri", "qpieri"):
        p2 = -p if abs(p) == k else p
        w = f"{name(*sp)}.{op}({p}, {fmt(a)})"
        x = exact(sut(f, p, fmt(a), what=w), w)
        w2 = f"{name(*sp)}.{op}({p2}, {fmt(sa)})"
        y = exact(sut(f, p2, fmt(sa), what=w2), w2)
    else:
        w = f"{name(*sp)}.{op}({fmt(a)})"
        x = exact(sut(f, fmt(a), what=w), w)
        w2 = f"{name(*sp)}.{op}({fmt(sa)})"
        y = exact(sut(f, fmt(sa), what=w2), w2)
        if op.endswith("giambelli"):
            # the polynomial is not unique; its value is
            ev = "qtoS" if op[0] == "q" else "toS"
            x, y = (exact(sut(getattr(g, ev), str(z), what=f"{name(*sp)}.{ev}({z})")) for z in (x, y))
    need(map_poly(x, swap, sp) == y, lambda: f"{w} = {x} and {w2} = {y} are not exchanged by the type swap")


@st.composite
def maps(draw, tier):
    sp = draw(gens.wide_spaces("D", maxr=16))
    return [sp, draw(gens.far_class(sp)), draw(gens.lincomb(sp, 4, cls=gens.far_class(sp), minterms=1))]


def lin_map(x, f, sp, n):
    out = {}
    for (c, d), v in gens.vec(x).items():
        key = (tuple(f(sp, list(c))), d)
        out[key] = out.get(key, 0) + v
    return ref.vec_poly(out, n)


def check_maps(case):
    sp, c, x = case
    g, n = G(*sp), ref.nq(*sp)
    k = refring.params(*sp)[0]
    for nm, fn, f in (("type_swap", lambda y: g.type_swap(y, k), swap), ("miami_swap", g.miami_swap, miami)):
        want = poly.S(f(sp, c))
        for arg, form in ((fmt(c), "text"), (list(c), "list")):
            w = f"{name(*sp)}.{nm}({arg!r})"
            r = sut(fn, arg, what=w)
            expect(r, want, w)
            expect(sut(fn, r, what=f"{nm} of {w}"), poly.S(c), f"{nm} of {w}")
        t = gens.spell_terms(x, n)
        w = f"{name(*sp)}.{nm}({t!r})"
        r = sut(fn, t, what=w)
        expect(r, lin_map(x, f, sp, n), w)
        expect(sut(fn, r, what=f"{nm} of {w}"), gens.terms_poly(x, n), f"{nm} of {w}")
    ty = 0 if not typed(sp, c) else 2 if c[-1] == 0 else 1
    for arg in (list(c), Schur(list(c))):
        w = f"{name(*sp)}.schub_type({arg!r})"
        r = sut(g.schub_type, arg, what=w)
        need(r == ty, lambda: f"{w} = {r}, expected {ty}")
    # on symbols: exchange n+1 and n+2
    if typed(sp, c):
        s1 = exact(sut(g.part2index, fmt(c))).schurs()[0]
        s2 = exact(sut(g.part2index, fmt(swap(sp, c)))).schurs()[0]
        h = sp[2] // 2
        ex = {h: h + 1, h + 1: h}
        need(tuple(ex.get(i, i) for i in s1) == tuple(s2), lambda: f"{name(*sp)}: symbols of {fmt(c)} and {fmt(swap(sp, c))} are {s1} and {s2}")


@st.composite
def others(draw, tier):
    sp = draw(gens.wide_spaces("ABC", maxA=12, maxr=7))
    return [sp, draw(gens.far_class(sp)), draw(gens.lincomb(sp, 3, cls=gens.far_class(sp), minterms=1))]


def check_others(case):
    sp, c, x = case
    g, n = G(*sp), ref.nq(*sp)
    k = refring.params(*sp)[0]
    t = gens.spell_terms(x, n)
    for nm, fn in (("type_swap", lambda y: g.type_swap(y, k)), ("miami_swap", g.miami_swap)):
        for arg, want in ((fmt(c), poly.S(c)), (list(c), poly.S(c)), (t, gens.terms_poly(x, n))):
            w = f"{name(*sp)}.{nm}({arg!r})"
            expect(sut(fn, arg, what=w), want, w)
    try:
        r = g.schub_type(list(c))
    except ValueError:
        return
    except Exception as e:
        need(False, f"{name(*sp)}.schub_type({c}) raised {type(e).__name__}: {e}; expected ValueError")
    need(False, f"{name(*sp)}.schub_type({c}) = {r}; expected ValueError")


PARTS = [
    Part("automorphism", check_auto, 2000, 10000, strategy=auto, nontrivial=lambda c: typed(c[0], c[3]) or typed(c[0], c[4]) or abs(c[2]) == refring.params(*c[0])[0],
         label=lambda c: [c[1], f"k={min(refring.params(*c[0])[0], 3)}"]),
    Part("maps", check_maps, 3000, 15000, strategy=maps, nontrivial=lambda c: typed(c[0], c[1]) or any(typed(c[0], t[3]) for t in c[2]),
         label=lambda c: f"type {0 if not typed(c[0], c[1]) else 2 if c[1][-1] == 0 else 1}" + (" miami moves" if miami(c[0], c[1]) != c[1] else "")),
    Part("many terms", check_maps, 160, 1600, strategy=lambda tier: gens.many_terms("D").map(lambda c: [c[0], c[1][0][3], c[1]]), nontrivial=lambda c: len(c[2]) > 30, label=lambda c: [f"type {c[0][0]}", "over 30 terms" if len(c[2]) > 30 else "12 to 30 terms"]),
    Part("others", check_others, 1000, 4000, strategy=others, nontrivial=lambda c: bool(c[1])),
]
