"""The same mathematical input in any accepted form gives the same answer."""
import gens
import ref
import refring
from core import Part
from gens import st
from lib import G, LinearCombination, Schur, exact, fmt, name, need, norm, sut
import poly

RULE = ("Random spaces, random classes and linear combinations; every operation of the calculator is called with the argument as text, text with blanks, text with '**', regrouped and factored text, LinearCombination, sympy expression "
        "and, for a single class, list and Schur object (all mixtures for the two-argument products); all answers must be the same polynomial. long classes: the maps and Pieri products of small degree on spaces of rank up to 13 and N up to 22. many terms: the same on sums of 12 to 60 classes. Non-trivial: the argument is not S[].")


def forms_class(c):
    t = fmt(c)
    return [("text", t), ("text with blanks", " " + t.replace(",", ", ")), ("list", list(c)), ("Schur", Schur(list(c))), ("Schur of a tuple", Schur(tuple(c))), ("Schur of text", Schur(t)), ("Schur of Schur", Schur(Schur(list(c)))), ("LinearCombination", LinearCombination(t)),
            ("LinearCombination of list", LinearCombination(list(c))), ("sympy", Schur(list(c)).symbol())]


def forms_lc(x, n):
    t = gens.terms_text(x, n)
    return [("text", t), ("text with **", gens.terms_text(x, n, "**")), ("text with blanks", " " + t.replace(",", ", ").replace("*", " * ") + " "),
            ("LinearCombination", LinearCombination(t)), ("sympy", LinearCombination(t).expr), ("sum of objects", build(x, n))] + [
        (f"the equal expression {u}", f(u)) for mode, f in zip((4, 5, 6, 7), (str, LinearCombination, str, str)) for u in [gens.spell_terms(x, n, mode)] if u != t]


def build(x, n):
    """the combination put together with operators from Schur objects"""
    import sympy as sp
    r = LinearCombination(0)
    for a, b, d, c in x:
        m = sp.Rational(a, b)
        for q, e in zip(ref.QV[n], d):
            m = m * sp.Symbol(q) ** e
        r = r + m * Schur(list(c))
    return r


UN = ["pieri", "qpieri", "giambelli", "qgiambelli", "toS", "qtoS", "dualize", "part2index", "miami_swap", "type_swap", "part2pair"]


def call(g, sp, op, x, i):
    if op in ("pieri", "qpieri"):
        return getattr(g, op)(i, x)
    if op == "type_swap":
        return g.type_swap(x, refring.params(*sp)[0])
    return getattr(g, op)(x)


@st.composite
def unary(draw, tier):
    sp = draw(gens.wide_spaces(maxA=8, maxr=5))
    i = draw(st.sampled_from([i for i, _ in gens.generators_of(sp)]))
    cl = gens.small_class(sp, 5)
    return [sp, i, draw(cl), draw(gens.lincomb(sp, 3, cls=cl, minterms=1)), draw(st.sampled_from(UN))]


@st.composite
def maps(draw, tier):
    """Long classes: the operations that are cheap on any space."""
    sp = draw(gens.wide_spaces(maxA=22, maxr=13))
    cl = gens.wide_class(sp)
    op = draw(st.sampled_from(["dualize", "part2index", "miami_swap", "type_swap", "part2pair", "pieri", "qpieri"]))
    return [sp, draw(st.sampled_from([i for i, _ in gens.generators_of(sp) if abs(i) < 3])), draw(cl), draw(gens.lincomb(sp, 2, cls=cl, minterms=1)), op]


@st.composite
def many(draw, tier):
    """Long sums in all forms."""
    sp, x = draw(gens.many_terms(top=60))
    op = draw(st.sampled_from(["dualize", "part2index", "miami_swap", "type_swap", "part2pair", "pieri", "qpieri"]))
    return [sp, draw(st.sampled_from([i for i, _ in gens.generators_of(sp) if abs(i) < 3])), x[0][3], x, op]


def agree(results, w):
    ref_form, first = results[0]
    for form, p in results[1:]:
        need(p == first, lambda: f"{w} as {form} gives {p}, as {ref_form} {first}")


def check_unary(case):
    sp, i, c, x, op = case
    if op == "part2pair" and sp[0] == "A":
        op = "dualize"
    g, n = G(*sp), ref.nq(*sp)
    for fs, what in ((forms_class(c), fmt(c)), (forms_lc(x, n), gens.terms_text(x, n))):
        w = f"{name(*sp)}.{op} of {what}" + (f" (degree {i})" if "pieri" in op else "")
        agree([(f, exact(sut(call, g, sp, op, a, i, what=f"{w} as {f}"), w)) for f, a in fs], w)
    # the inverse codings
    sym = refring.symbol(*sp, tuple(c))
    w = f"{name(*sp)}.index2part of {fmt(sym)}"
    agree([(f, exact(sut(g.index2part, a, what=f"{w} as {f}"), w)) for f, a in
           (("text", fmt(sym)), ("list", list(sym)), ("LinearCombination", LinearCombination(fmt(sym))), ("sympy", LinearCombination(fmt(sym)).expr), ("Schur", Schur(list(sym))))], w)
    if sp[0] != "A":
        pr = exact(sut(g.part2pair, fmt(c))).schurs()[0]
        t = fmt(pr)
        w = f"{name(*sp)}.pair2part of {t}"
        agree([(f, exact(sut(g.pair2part, a, what=f"{w} as {f}"), w)) for f, a in
               (("text", t), ("list", [list(pr[0]), list(pr[1])]), ("LinearCombination", LinearCombination(t)), ("sympy", LinearCombination(t).expr))], w)
    if sp[0] == "D":
        w = f"{name(*sp)}.schub_type({fmt(c)})"
        a, b = sut(g.schub_type, list(c), what=w), sut(g.schub_type, Schur(list(c)), what=w)
        need(a == b, lambda: f"{w}: {a} for the list, {b} for the Schur object")


BIN = ["mult", "qmult", "act", "qact", "qmult_rh"]


@st.composite
def binary(draw, tier):
    sp = draw(gens.wide_spaces(maxA=7, maxr=4))
    op = draw(st.sampled_from(BIN))
    if op == "qmult_rh" and sp[0] != "A":
        op = "qmult"
    if op == "qmult_rh" and sp[2] > 5:
        sp = ["A", min(sp[1], 3), 5]
    cl = gens.small_class(sp, 4)
    spec = st.sampled_from([c for _, c in gens.generators_of(sp)])
    first = spec if op in ("act", "qact") else cl
    return [sp, op, draw(first), draw(cl), draw(gens.lincomb(sp, 2, cls=first, minterms=1)), draw(gens.lincomb(sp, 2, cls=cl, minterms=1)), draw(st.integers(0, 10 ** 6))]


def check_binary(case):
    sp, op, c, d, x, y, pick = case
    g, n = G(*sp), ref.nq(*sp)
    f = getattr(g, op)
    for A, B, wa, wb in ((forms_class(c), forms_class(d), fmt(c), fmt(d)), (forms_lc(x, n), forms_lc(y, n), gens.terms_text(x, n), gens.terms_text(y, n)),
                         (forms_class(c), forms_lc(y, n), fmt(c), gens.terms_text(y, n)), (forms_lc(x, n), forms_class(d), gens.terms_text(x, n), fmt(d))):
        w = f"{name(*sp)}.{op}({wa}, {wb})"
        res = []
        # every form of each argument once, in a drawn pairing, plus text/text
        idx = [(0, 0)] + [(j % len(A), (j + pick) % len(B)) for j in range(max(len(A), len(B)))]
        for i, j in idx:
            fm = f"{A[i][0]}/{B[j][0]}"
            res.append((fm, exact(sut(f, A[i][1], B[j][1], what=f"{w} as {fm}"), w)))
        agree(res, w)


PARTS = [
    Part("unary", check_unary, 1600, 8000, strategy=unary, nontrivial=lambda c: bool(c[2]), label=lambda c: [f"type {c[0][0]}", c[4]]),
    Part("long classes", check_unary, 400, 4000, strategy=maps, nontrivial=lambda c: len(c[2]) > 4, label=lambda c: [f"type {c[0][0]}", c[4]]),
    Part("many terms", check_unary, 80, 800, strategy=many, nontrivial=lambda c: len(c[3]) > 20, label=lambda c: [f"type {c[0][0]}", c[4]]),
    Part("binary", check_binary, 600, 4000, strategy=binary, nontrivial=lambda c: bool(c[2]) and bool(c[3]), label=lambda c: [f"type {c[0][0]}", c[1]]),
]
