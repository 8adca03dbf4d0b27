"""Reading a LinearCombination term by term: expansion, substitution, predicates."""
from fractions import Fraction

import exprs
import gens
import poly
import sympy as sp
from core import Part
from gens import st
from lib import LinearCombination, Schur, exact, fmt, need, norm, sut, text

RULE = ("expansion: schur_expansion of a random linear combination (integer, fractional and q coefficients; single term or sum; text, objects, or the multiple of S[] as a bare number) must list every class with its coefficient, sorted by partition, equal terms merged, "
        "without q terms when include_q=False, and put together again give the input. reject: a product or power of classes in any position raises ValueError instead of being dropped. "
        "substitution: apply and apply2 with a random map from classes to classes, numbers or combinations is the ring homomorphism it defines, on arbitrary random expressions. "
        "many terms: the same on sums of 10 to 140 terms. one object: several of these questions, with different arguments, put to one object in random order. predicates: is_valid, has_part_zero_padding, is_operator, len and list_schur_oprands on random sums of monomials (classes and q) against their definitions. Non-trivial: at least two terms.")

CLS = st.lists(st.integers(1, 9), max_size=4).map(lambda l: sorted(l, reverse=True)).flatmap(lambda l: st.booleans().map(lambda z: l + [0] if z and l and len(l) < 3 and l[0] % 3 == 0 else l))


@st.composite
def expansions(draw, tier):
    two = draw(st.integers(0, 3)) == 0
    sp_ = ["D", 2, 6] if two else ["A", 2, 5]
    terms = draw(gens.lincomb(sp_, 6, cls=CLS, minterms=0))
    if terms and draw(st.integers(0, 2)) == 0 and not any(not t[3] for t in terms):
        terms[-1][2], terms[-1][3] = [0] * len(terms[-1][2]), []
    return [terms, 2 if two else 1, draw(st.booleans()), draw(st.sampled_from(["text", "built", "result", "constant"]))]


def build(x, n, how):
    t = gens.terms_text(x, n)
    if how == "text":
        return LinearCombination(t)
    if how == "constant":
        # the multiple of S[] typed as a number: S[1] + 1/2
        return LinearCombination(gens.mono_text([[a, b, d, [c] if c or any(d) else []] for a, b, d, c in x], n))
    r = LinearCombination(0)
    for a, b, d, c in x:
        m = sp.Rational(a, b)
        for q, e in zip(gens.ref.QV[n], d):
            m = m * sp.Symbol(q) ** e
        r = r + (m * Schur(list(c)) if how == "built" else LinearCombination(Schur(list(c))) * m)
    return r


def check_expansion(case):
    x, n, inc, how = case
    L = build(x, n, how)
    # both questions, then the first again, put to one object
    for i in (inc, not inc, inc):
        expansion(L, x, n, i)


def expansion(L, x, n, inc):
    v = gens.vec(x)
    qv = gens.ref.QV[n]
    before = str(L)
    w = f"LinearCombination({before!r}).schur_expansion({'' if inc else 'include_q=False'})"
    r = sut(L.schur_expansion, include_q=inc, what=w)
    need(str(L) == before, f"{w} changed the expression")
    want = {}
    for (c, d), a in v.items():
        if inc or not any(d):
            mono = tuple((q, e) for q, e in zip(qv, d) if e)
            want.setdefault((c, d), poly.Poly({mono: a}))
    rows = [r] if isinstance(r, tuple) else list(r)
    need(isinstance(r, (tuple, list)), lambda: f"{w} = {r!r}")
    if len(v) > 1:
        need(isinstance(r, list), lambda: f"{w} = {r!r}: a sum must give a list")
    for y in rows:
        need(isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], list), lambda: f"{w} has the entry {y!r}")
    need([y[1] for y in rows] == sorted(y[1] for y in rows), lambda: f"{w} = {rows} is not sorted by partition")
    if not v:
        need(rows == [(0, [])], lambda: f"{w} = {rows}")
        return
    got = sorted((tuple(p), str(coefficient(c, w))) for c, p in rows)
    exp = sorted((c, str(p)) for (c, d), p in want.items())
    need(got == exp, lambda: f"{w} = {rows}, expected {exp}")


def coefficient(c, w):
    p = norm(c, f"a coefficient of {w}")
    need("." not in text(c), lambda: f"{w} has the floating point coefficient {c}")
    need(not p.schurs(), lambda: f"{w} has the coefficient {c}, which contains classes")
    return p


# ---- sums of many terms
@st.composite
def many(draw, tier):
    return [draw(st.integers(10, 140)), draw(st.integers(0, 9)), draw(st.integers(1, 4)), draw(st.sampled_from([0, 0, 1, 2])), draw(st.one_of(st.none(), st.integers(0, 139))), draw(st.booleans())]


def many_terms(case):
    """Classes whose value under the map below stay apart, with coefficients and, in some, q."""
    n, a, b, qs, pad, _ = case
    out = []
    for i in range(n):
        c = [a + b * i + 3, i + 1, i % 3 + 1][:2 + i % 2] if i % 7 else [a + i + 1]
        if pad == i:
            c = c + [0]
        d = [i % (qs + 1)]
        out.append([((i * b + a) % 9 - 4) or 1, 1 if i % 5 else 1 + (a + i) % 4, d, c])
    return out


def check_many(case):
    n, a, b, qs, pad, built = case
    x = many_terms(case)
    L = build(x, 1, "built" if built else "text")
    v = gens.vec(x)
    w = f"the sum of {n} terms {text(L)[:200]}..."
    expansion(L, x, 1, True)
    expansion(L, x, 1, False)
    need(sut(len, L) == len(v), lambda: f"len of {w} is {len(L)}, expected {len(v)}")
    z = any(c and c[-1] == 0 for c, _ in v)
    need(sut(L.has_part_zero_padding) is z, lambda: f"has_part_zero_padding of {w} is not {z}")
    if not any(any(d) for _, d in v):
        need(sut(L.is_valid) is True, lambda: f"is_valid of {w} is not True")
    for nm, f in (("apply", L.apply), ("apply2", L.apply2)):
        got = norm(sut(f, lambda p: Schur([y + 2 for y in p] + [1]), what=f"{nm} on {w}"), nm)
        want = poly.Poly()
        for (c, d), co in v.items():
            want = want + poly.S([y + 2 for y in c] + [1]) * poly.Poly.var("q") ** d[0] * co
        need(got == want, lambda: f"{nm}(adding two columns and a row) on {w}: {got - want} too much")


# ---- expressions that are not linear
@st.composite
def nonlinear(draw, tier):
    n = 1
    mono = draw(st.lists(CLS.filter(len), min_size=2, max_size=3))
    shape = draw(st.sampled_from(["product", "power", "factored", "product in a sum", "power in a sum", "power times class"]))
    rest = draw(gens.lincomb(["A", 2, 5], 3, cls=CLS, minterms=1))
    return [shape, mono, rest, draw(st.integers(-5, 5).filter(bool)), draw(st.booleans())]


def check_nonlinear(case):
    shape, mono, rest, a, inc = case
    prod = "*".join(fmt(c) for c in mono)
    t = {"product": f"{a}*{prod}", "power": f"{a}*{fmt(mono[0])}^2", "factored": f"({fmt(mono[0])} + {a})*{fmt(mono[1])}",
         "product in a sum": f"{gens.terms_text(rest, 1)} + {a}*{prod}", "power in a sum": f"{gens.terms_text(rest, 1)} + {fmt(mono[0])}^{2 + abs(a) % 2}",
         "power times class": f"{fmt(mono[0])}^2*{fmt(mono[1])}*{a} + {gens.terms_text(rest, 1)}"}[shape]
    p = poly.parse(t)
    if all(sum(e for v, e in m if isinstance(v, tuple)) <= 1 for m in p.t):
        return
    L = sut(LinearCombination, t)
    if shape == "factored" and L.is_operator("+"):
        return
    w = f"LinearCombination({t!r}).schur_expansion({'' if inc else 'include_q=False'})"
    try:
        r = L.schur_expansion(include_q=inc)
    except ValueError:
        return
    except Exception as e:
        need(False, f"{w} raised {type(e).__name__}: {e}; expected ValueError")
    need(False, f"{w} = {r}; expected ValueError")


# ---- substitution
@st.composite
def subs(draw, tier):
    t = draw(exprs.trees(7 if tier == "quick" else 12).filter(lambda t: exprs.nterms(t) <= 20 and exprs.degree(t) <= 7))
    found = []
    collect(t, found)
    image = {}
    for c in found:
        image[fmt(c)] = draw(st.one_of(
            st.tuples(st.just("schur"), CLS).map(list), st.tuples(st.just("num"), st.integers(-4, 4)).map(list),
            st.tuples(st.just("lc"), exprs.trees(3).filter(lambda t: exprs.nterms(t) <= 3 and exprs.degree(t) <= 2)).map(list),
            st.tuples(st.just("expr"), exprs.trees(3).filter(lambda t: exprs.nterms(t) <= 3 and exprs.degree(t) <= 2)).map(list)))
    return [t, image]


def collect(t, out):
    if t[0] == "S":
        if t[1] not in out:
            out.append(t[1])
    else:
        for x in t[1:]:
            if isinstance(x, list):
                collect(x, out)


def image_value(i):
    return poly.S(i[1]) if i[0] == "schur" else poly.Poly.const(i[1]) if i[0] == "num" else exprs.value(i[1])


def image_object(i, second):
    if i[0] == "schur":
        return list(i[1]) if second and len(i[1]) % 2 else Schur(list(i[1]))
    if i[0] == "num":
        return sp.Integer(i[1])
    L = LinearCombination(exprs.text(i[1]))
    return L if i[0] == "lc" else L.expr


def check_subs(case):
    t, image = case
    p = exprs.value(t)
    want = poly.Poly()
    for m, c in p.t.items():
        z = poly.Poly.const(c)
        for v, e in m:
            z = z * (image_value(image[fmt(v[1])]) if isinstance(v, tuple) else poly.Poly.var(v)) ** e
        want = want + z
    if len(want.t) > 300:
        return
    src = exprs.text(t)
    for nm, second in (("apply", False), ("apply2", True)):
        L = sut(LinearCombination, src)
        before = str(L)

        def f(part):
            return image_object(image[fmt(part)], second)
        w = f"LinearCombination({src!r}).{nm}({image})"
        r = sut(getattr(L, nm), f, what=w)
        need(isinstance(r, LinearCombination), lambda: f"{w} is a {type(r).__name__}")
        got = exact(r, w)
        need(got == want, lambda: f"{w} = {got}, expected {want}")
        need(str(L) == before, lambda: f"{w} changed the expression to {L}")


# ---- several questions put to one object
@st.composite
def asked(draw, tier):
    terms = draw(gens.lincomb(["A", 2, 5], 5, cls=CLS, minterms=1))
    ask = st.one_of(st.sampled_from(["all", "without q", "len", "valid", "padding", "str", "operands"]).map(lambda k: [k]),
                    st.tuples(st.sampled_from(["apply", "apply2"]), st.integers(1, 5), st.integers(-2, 2)).map(list))
    return [terms, draw(st.sampled_from(["text", "built", "result"])), draw(st.lists(ask, min_size=2, max_size=8))]


def check_asked(case):
    x, how, asks = case
    v = gens.vec(x)
    L = build(x, 1, how)
    before = str(L)
    base = gens.ref.vec_poly(v, 1)
    for kind, *arg in asks + asks[:2]:
        w = f"{before}: {kind} {arg} after other questions"
        if kind == "all":
            expansion(L, x, 1, True)
        elif kind == "without q":
            expansion(L, x, 1, False)
        elif kind == "valid":
            need(sut(L.is_valid, what=w) is sut(LinearCombination(before).is_valid), lambda: w)
        elif kind == "padding":
            need(sut(L.has_part_zero_padding, what=w) is any(c and c[-1] == 0 for c, _ in v), lambda: w)
        elif kind == "len":
            need(sut(len, L, what=w) == len(LinearCombination(before)), lambda: w)
        elif kind == "operands":
            got = sorted(str(y) for y in flat(sut(L.list_schur_oprands, what=w)) if y is not None)
            need(got == sorted(fmt(c) for (c, _) in v if c or fmt(c) in before), lambda: f"{w}: {got}")
        elif kind == "str":
            need(exact(L, w) == base, lambda: f"{w}: {L}")
        else:
            add, mul = arg
            r = sut(getattr(L, kind), lambda p: mul * Schur([y + add for y in p]).symbol(), what=w)
            want = poly.Poly()
            for (c, d), a in v.items():
                want = want + poly.Poly({tuple((q, e) for q, e in zip(("q",), d) if e): a}) * poly.S([y + add for y in c]) * mul
            need(exact(r, w) == want, lambda: f"{w} = {r}, expected {want}")
        need(str(L) == before, lambda: f"{w}: the object changed to {L}")


# ---- predicates
@st.composite
def sums(draw, tier):
    mono = st.tuples(st.integers(-9, 9).filter(bool), st.lists(CLS, max_size=3), st.sampled_from([0, 0, 0, 0, 1, 2])).map(list)
    return draw(st.lists(mono, min_size=1, max_size=5))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def check_pred(case):
    t = gens.mono_text([[a, 1, [d], cs] for a, cs, d in case], 1)
    p = poly.parse(t)
    L = sut(LinearCombination, t)
    w = f"LinearCombination({t!r})"
    monos = [m for m in p.t]
    linear = all(sum(e for _, e in m) <= 1 for m in monos)
    r = sut(L.is_valid, what=f"{w}.is_valid()")
    need(r is linear, lambda: f"{w}.is_valid() = {r}")
    zero = any(v[1] and v[1][-1] == 0 for m in monos for v, _ in m if isinstance(v, tuple))
    r = sut(L.has_part_zero_padding, what=f"{w}.has_part_zero_padding()")
    need(r is zero, lambda: f"{w}.has_part_zero_padding() = {r}")
    n = len(monos)
    if n > 1:
        kind = "+"
    elif n == 1 and (len(monos[0]) > 1 or (len(monos[0]) == 1 and p.t[monos[0]] != 1)):
        kind = "*"
    elif n == 1 and len(monos[0]) == 1 and monos[0][0][1] > 1:
        kind = "^"
    else:
        kind = ""
    for op in "+*^":
        r = sut(L.is_operator, op, what=f"{w}.is_operator({op!r})")
        need(bool(r) == (op == kind), lambda: f"{w}.is_operator({op!r}) = {r}")
    for op in ("-", "", "**", "x"):
        try:
            r = L.is_operator(op)
        except ValueError:
            continue
        except Exception as e:
            need(False, f"{w}.is_operator({op!r}) raised {type(e).__name__}")
        need(False, f"{w}.is_operator({op!r}) = {r}; expected ValueError")
    size = n if n > 1 else 1
    if kind == "*":
        size = len(monos[0]) + (p.t[monos[0]] != 1)
    r = sut(len, L, what=f"len({w})")
    need(r == size, lambda: f"len({w}) = {r}, expected {size}")
    want = sorted(str(poly.fmt_class(v[1])) for m in monos for v, _ in m if isinstance(v, tuple))
    r = sut(L.list_schur_oprands, what=f"{w}.list_schur_oprands()")
    got = sorted(str(x) for x in flat(r) if x is not None)
    need(got == want, lambda: f"{w}.list_schur_oprands() = {r}")


PARTS = [
    Part("expansion", check_expansion, 5000, 30000, strategy=expansions, nontrivial=lambda c: len(c[0]) > 1,
         label=lambda c: [f"{min(len(c[0]), 4)} terms", c[3], "all" if c[2] else "without q"]),
    Part("reject", check_nonlinear, 2000, 8000, strategy=nonlinear, label=lambda c: c[0]),
    Part("substitution", check_subs, 2000, 10000, strategy=subs, nontrivial=lambda c: len(c[1]) > 1),
    Part("one object", check_asked, 1200, 8000, strategy=asked, nontrivial=lambda c: len({str(a) for a in c[2]}) > 1, label=lambda c: sorted({a[0] for a in c[2]})),
    Part("predicates", check_pred, 3000, 12000, strategy=sums, nontrivial=lambda c: len(c) > 1),
    Part("many terms", check_many, 320, 2400, strategy=many, nontrivial=lambda c: c[0] > 40, label=lambda c: ["over 40 terms" if c[0] > 40 else "10 to 40 terms"]),
]
