"""giambelli / qgiambelli: a polynomial in the special classes that evaluates back to its argument."""
import charprops
import gens
import ref
from core import Part
from fractions import Fraction
from gens import st
from lib import G, exact, fmt, name, need, sut
from poly import Poly

RULE = ("table: (random linear combination with q coefficients) on stored spaces; the answer may contain special classes and the space's q's only, and evaluating it in the "
        "reference ring, one special class at a time, must give the argument back. Every class of every stored space with at most 84 classes is a case of its own (classes). "
        "product: for a polynomial in arbitrary classes the answer evaluates to the reference value of that polynomial. "
        "wide: on spaces without tables (rank up to 10) the library's own toS/qtoS evaluates the answer back. tall: the same for classes of five to eight (ten) short rows, rank up to 11. far: on spaces of 40 to 1150 classes (thorough 2100) a ring homomorphism QH -> F_p must give the polynomial the value of the class. Non-trivial: some argument class has two or more parts.")
ASSUMPTIONS = ["wide relies on act/qact, which C08 checks"]


def check_poly(p, sp, what, quantum):
    special = {tuple(c) for _, c in gens.generators_of(sp)}
    qv = ref.QV[ref.nq(*sp)] if quantum else ()
    for m, c in p.t.items():
        for v, e in m:
            if isinstance(v, tuple):
                need(v[1] in special, lambda: f"{what} uses {fmt(v[1])}, which is not a generator of {name(*sp)}: {p}")


def evaluate_back(sp, arg, want, what_arg, inq=True):
    g, R = G(*sp), ref.ring(*sp)
    for nm, f, q in (("giambelli", g.giambelli, False), ("qgiambelli", g.qgiambelli, True)):
        w = f"{name(*sp)}.{nm}({what_arg})"
        p = exact(sut(f, arg, what=w), w)
        check_poly(p, sp, w, q)
        bad = p.vars() - set(R.qv) - {("S", c) for c in R.cls}
        need(not bad, lambda: f"{w} contains {bad}: {p}")
        v = R.evaluate(p, R.one(), q)
        wv = want(q)
        need(v == wv, lambda: f"{w} = {p}, which evaluates to {R.to_poly(v)}, expected {R.to_poly(wv)}")
        if not q and not inq:
            need(not any(x in ("q", "q1", "q2") for x in p.vars()), lambda: f"{w} contains q: {p}")


def class_cases(tier):
    out = []
    for tp, m, N, n, full in ref.spaces():
        if n > (84 if tier == "quick" else 130):
            continue
        R = ref.ring(tp, m, N)
        out += [[[tp, m, N], list(c)] for c in R.cls]
    return out


def check_class(case):
    sp, lam = case
    n = ref.nq(*sp)
    evaluate_back(sp, fmt(lam), lambda q: {(tuple(lam), (0,) * n): Fraction(1)}, repr(fmt(lam)), inq=False)


@st.composite
def lin(draw, tier):
    sp = draw(gens.spaces(40, full=True, minn=4))
    return [sp, draw(gens.lincomb(sp, 3, minterms=1))]


def check_lin(case):
    sp, x = case
    t = gens.spell_terms(x, ref.nq(*sp))
    evaluate_back(sp, t, lambda q: gens.vec(x), repr(t))


@st.composite
def product(draw, tier):
    sp = draw(gens.spaces(24, full=True, minn=4))
    return [sp, draw(gens.monomials(sp, gens.klass(sp), 2, 3, nonunit=True))]


def check_product(case):
    sp, monos = case
    R = ref.ring(*sp)
    n = R.nq
    t = gens.spell(monos, n)

    def want(quantum):
        out = {}
        for a, b, d, cs in monos:
            cur = {((), tuple(d)): Fraction(a, b)}
            for c in cs:
                cur = R.mulv(cur, {(tuple(c), (0,) * n): Fraction(1)}, quantum)
            for k, v in cur.items():
                out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    evaluate_back(sp, t, want, repr(t))


@st.composite
def wide(draw, tier):
    sp = draw(gens.wide_spaces(maxA=16, maxr=10))
    return [sp, draw(gens.small_class(sp, 8 if tier == "quick" else 12))]


@st.composite
def tall(draw, tier):
    """Five rows and more, of length at most three: deep recursion."""
    sp = draw(gens.wide_spaces(maxA=16, maxr=11, minm=5, keep=lambda s: s[0] != "A" or s[2] - s[1] > 1))
    k, _ = gens.refring.params(*sp)
    top = max(1, min(3, k if sp[0] != "D" else k or 1))
    r = draw(st.integers(5, min(sp[1], 8 if tier == "quick" else 10)))
    lam = sorted((draw(st.integers(1, top)) for _ in range(r)), reverse=True)
    if top > k:                              # k = 0: strict
        lam = list(range(4, 0, -1))
    if sp[0] == "D" and k > 0 and draw(st.integers(0, 3)):
        lam = [k] + [min(x, k) for x in lam[1:]] if k <= 4 else lam
    if sp[0] == "D" and k > 0 and k in lam and draw(st.integers(0, 2)):
        lam.append(0)
    while sum(lam) > (11 if tier == "quick" else 16):
        lam = gens.shrink_class(sp, lam, 0)
    return [sp, lam]


def check_wide(case):
    sp, lam = case
    g = G(*sp)
    for nm, f, act in (("giambelli", g.giambelli, g.act), ("qgiambelli", g.qgiambelli, g.qact)):
        w = f"{name(*sp)}.{nm}({fmt(lam)})"
        r = sut(f, fmt(lam), what=w)
        check_poly(exact(r, w), sp, w, nm[0] == "q")
        back = exact(sut(act, r, "S[]", what=f"evaluating {w}"))
        need(back == Poly({((("S", tuple(lam)), 1),): Fraction(1)}), lambda: f"{w} = {r} evaluates to {back}")


PARTS = [
    Part("classes", check_class, 1600, 6000, cases=class_cases, nontrivial=lambda c: len([x for x in c[1] if x]) > 1, label=lambda c: f"type {c[0][0]}",
         size=lambda c: len(ref.ring(*c[0]).cls)),
    Part("linear", check_lin, 960, 6000, strategy=lin, nontrivial=lambda c: any(len([x for x in t[3] if x]) > 1 for t in c[1]), label=lambda c: f"type {c[0][0]}"),
    Part("product", check_product, 640, 4000, strategy=product, nontrivial=lambda c: any(len([x for x in d if x]) > 1 for t in c[1] for d in t[3]), label=lambda c: f"type {c[0][0]}"),
    Part("wide", check_wide, 960, 6000, strategy=wide, nontrivial=lambda c: len([x for x in c[1] if x]) > 1, label=lambda c: f"type {c[0][0]}"),
    Part("tall", check_wide, 240, 2400, strategy=tall, nontrivial=lambda c: len([x for x in c[1] if x]) > 4, heavy=True,
         label=lambda c: ["type " + c[0][0]] + (["type 2"] if c[1][-1:] == [0] else []) + [f"{len([x for x in c[1] if x])} rows"]),
    charprops.GIAMBELLI,
]
