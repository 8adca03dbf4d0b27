"""Generators shared by the properties.  Cases are JSON-able: spaces are [tp, m, N]; a linear
combination is a list of terms [num, den, [q exponents], [class]]."""
from fractions import Fraction
import zlib

import lib  # noqa: F401  (puts hypothesis on the path)
from hypothesis import strategies as st

import poly
import ref
import refring


def space_list(maxn, types="ABCD", full=None, minn=2):
    return [[tp, m, N] for tp, m, N, n, f in ref.spaces()
            if minn <= n <= maxn and tp in types and (full is None or f == full)]


def spaces(maxn, types="ABCD", full=None, minn=2):
    """A stored space; types are drawn evenly, and within a type all sizes."""
    by = {t: space_list(maxn, t, full, minn) for t in types}
    by = {t: v for t, v in by.items() if v}
    return st.sampled_from(sorted(by)).flatmap(lambda t: st.sampled_from(by[t]))


def nq(sp):
    tp, m, N = sp
    return 2 if tp == "D" and m == N // 2 - 1 else 1


def classes_of(sp):
    return [list(c) for c in refring.classes(*sp)]


def klass(sp):
    return st.sampled_from(classes_of(sp))


COEFS = st.one_of(
    st.integers(-3, 3).filter(bool).map(lambda a: [a, 1]),
    st.integers(-99, 99).filter(bool).map(lambda a: [a, 1]),
    st.one_of(*[st.integers(-9, 9).filter(bool).map(lambda a: [a, 1])] * 7, st.sampled_from([[2 ** 53 + 1, 1], [-10 ** 20 - 7, 1], [10 ** 17 + 3, 10 ** 6 + 3]])),
    st.tuples(st.integers(-7, 7).filter(bool), st.integers(2, 6)).map(lambda t: list(_red(*t))),
)
INTCOEFS = st.one_of(st.integers(-3, 3).filter(bool), st.integers(-99, 99).filter(bool)).map(lambda a: [a, 1])


def _red(a, b):
    f = Fraction(a, b)
    return f.numerator, f.denominator


def qexps(n, top=2):
    few = st.lists(st.integers(0, top), min_size=n, max_size=n)
    return st.one_of(st.just([0] * n), st.just([0] * n), few, few, few, st.lists(st.integers(0, top + 5), min_size=n, max_size=n))


def lincomb(sp, maxterms=4, q=True, coefs=None, cls=None, minterms=0):
    n = nq(sp)
    one = st.tuples(coefs or COEFS, qexps(n) if q else st.just([0] * n), cls or klass(sp)).map(
        lambda t: [t[0][0], t[0][1], t[1], list(t[2])])
    return st.lists(one, min_size=minterms, max_size=maxterms, unique_by=lambda t: (tuple(t[2]), tuple(t[3])))


@st.composite
def many_terms(draw, types="ABCD", top=120, keep=None):
    """[space, combination of 12 to 120 of its classes]: more terms than lincomb has."""
    sp = draw(st.sampled_from(types).flatmap(lambda t: st.sampled_from([s for s in space_list(200, t, minn=15) if keep is None or keep(s)])))
    cl = classes_of(sp)
    m = draw(st.integers(12, min(top, len(cl))))
    a, b = draw(st.integers(0, 50)), draw(st.sampled_from([1, 3, 7, 11, 13]))
    while len(cl) % b == 0 and b > 1:
        b -= 2
    qs, n = draw(st.sampled_from([0, 0, 1, 2])), nq(sp)
    return [sp, [[((a + 5 * i) % 13 - 6) or 1, 1, [(i + j) % (qs + 1) for j in range(n)], cl[(a + b * i) % len(cl)]] for i in range(m)]]


def monomials(sp, gens, maxterms=3, maxfac=3, q=True, coefs=None, nonunit=False):
    """Polynomials: list of [num, den, [q exps], [classes...]] (a product of classes per term).
    nonunit: most factors are not S[], and most terms have two or more factors."""
    n = nq(sp)
    facs = st.lists(gens, min_size=0, max_size=maxfac)
    if nonunit:
        g2 = gens.filter(len)
        facs = st.one_of(st.lists(g2, min_size=2, max_size=maxfac), st.lists(g2, min_size=2, max_size=2), facs)
    one = st.tuples(coefs or COEFS, qexps(n, 1) if q else st.just([0] * n), facs).map(
        lambda t: [t[0][0], t[0][1], t[1], [list(x) for x in t[2]]])
    return st.lists(one, min_size=1, max_size=maxterms)


def vec(terms):
    """terms -> {(class, dvec): Fraction}"""
    out = {}
    for a, b, d, c in terms:
        k = (tuple(c), tuple(d))
        out[k] = out.get(k, 0) + Fraction(a, b)
    return {k: v for k, v in out.items() if v}


def terms_poly(terms, n):
    return ref.vec_poly(vec(terms), n)


def mono_poly(monos, n):
    p = poly.Poly()
    for a, b, d, cs in monos:
        t = poly.Poly.const(Fraction(a, b))
        for q, e in zip(ref.QV[n], d):
            if e:
                t = t * poly.Poly({((q, e),): Fraction(1)})
        for c in cs:
            t = t * poly.S(c)
        p = p + t
    return p


def _coef(a, b):
    return str(a) if b == 1 else f"{a}/{b}"


def terms_text(terms, n, power="^"):
    """What a user would type."""
    return mono_text([[a, b, d, [c]] for a, b, d, c in terms], n, power)


def mono_text(monos, n, power="^"):
    if not monos:
        return "0"
    out = ""
    for a, b, d, cs in monos:
        fs = []
        if (abs(a), b) != (1, 1) or not (any(d) or cs):
            fs.append(_coef(abs(a), b))
        for q, e in zip(ref.QV[n], d):
            if e:
                fs.append(q if e == 1 else f"{q}{power}{e}")
        seen = []
        for c in cs:
            if c not in seen:
                seen.append(c)
                e = cs.count(c)
                fs.append(poly.fmt_class(c) + (f"{power}{e}" if e > 1 else ""))
        t = "*".join(fs)
        out += (("-" if a < 0 else "") if not out else (" - " if a < 0 else " + ")) + t
    return out


def spell(monos, n, mode=None):
    """mono_text half of the time; otherwise (decided by the content, so that replays and shrinking are stable) the same
    polynomial written in another way: common factors taken out in front, Horner form, regrouped, or with a part
    added and taken away."""
    h = zlib.crc32(repr(monos).encode())
    mode, h = h % 8 if mode is None else mode, h // 8
    if mode < 4 or not monos:
        return mono_text(monos, n)
    items = [[a, b, list(d), list(cs)] for a, b, d, cs in monos]
    if mode == 4:
        return _horner(items, n, h)
    if mode == 5:      # common factors in front
        d0 = [min(t[2][i] for t in items) for i in range(n)]
        com = [c for c in items[0][3] if all(c in t[3] for t in items)][:1]
        rest = [[a, b, [x - y for x, y in zip(d, d0)], _without(cs, com)] for a, b, d, cs in items]
        f = mono_text([[1, 1, d0, com]], n)
        return f"({mono_text(rest, n)})*{f}" if h % 2 else f"{f}*({mono_text(rest, n)})"
    if mode == 6:      # in two groups, the second with its sign taken out
        k = h % len(items)
        A, B = items[:k], [[-a, b, d, cs] for a, b, d, cs in items[k:]]
        return (mono_text(A, n) if A else "") + f"-({mono_text(B, n)})"
    X = mono_text(items, n)
    q = ref.QV[n][h % n]
    return [f"(1 + {q})*({X}) - {q}*({X})", f"({X})*({q} + 1/2) + ({X})*(1/2 - {q})", f"(3*({X}) - ({X}))/2", f"({q} + {X}) - {q}"][h // 8 % 4]


def _without(cs, com):
    cs = list(cs)
    for c in com:
        cs.remove(c)
    return cs


def _horner(items, n, h):
    """take out the quantum parameter or the class that occurs in most terms, recursively"""
    occ = {}
    for a, b, d, cs in items:
        for i, e in enumerate(d):
            if e:
                occ[("q", i)] = occ.get(("q", i), 0) + 1
        for c in {poly.freeze(c) for c in cs}:
            occ[("S", c)] = occ.get(("S", c), 0) + 1
    best = max(occ.items(), key=lambda t: (t[1], str(t[0])), default=(None, 0))
    if best[1] < 2:
        return mono_text(items, n)
    (kind, v), _ = best
    A, B = [], []
    for a, b, d, cs in items:
        if kind == "q" and d[v]:
            A.append([a, b, [e - (i == v) for i, e in enumerate(d)], cs])
        elif kind == "S" and v in [poly.freeze(c) for c in cs]:
            A.append([a, b, d, _without(cs, [c for c in cs if poly.freeze(c) == v][:1])])
        else:
            B.append([a, b, d, cs])
    f = ref.QV[n][v] if kind == "q" else poly.fmt_class(v)
    inner = _horner(A, n, h)
    t = f"({inner})*{f}" if h % 2 else f"{f}*({inner})"
    return t + (f" + ({_horner(B, n, h)})" if B else "")


def spell_terms(terms, n, mode=None):
    return spell([[a, b, d, [c]] for a, b, d, c in terms], n, mode)


# ------------------------------------------------------------------ spaces without stored tables
def wide_spaces(types="ABCD", maxA=12, maxr=7, minm=1, keep=None):
    """Any Grassmannian with N <= maxA (type A) or rank <= maxr; types evenly, thin spaces (projective
    spaces, quadrics) less often than the rest."""
    by = {}
    for t in types:
        lst = []
        if t == "A":
            lst = [["A", m, N] for N in range(2, maxA + 1) for m in range(minm, N)]
        else:
            for r in range(2 if t == "D" else 1, maxr + 1):
                lst += [[t, m, {"C": 2 * r, "B": 2 * r + 1, "D": 2 * r}[t]] for m in range(minm, r + 1)]
        if keep:
            lst = [s for s in lst if keep(s)]
        out = []
        for s in lst:
            thin = s[1] == 1 or (s[0] == "A" and s[1] == s[2] - 1)
            out += [s] * (1 if thin else 4)
        by[t] = out
    return st.sampled_from(sorted(by)).flatmap(lambda t: st.sampled_from(by[t]))


@st.composite
def wide_class(draw, sp):
    """A class of any space: drawn through its Schubert symbol, or one of a special shape."""
    if draw(st.integers(0, 3)) == 3:
        return draw(shaped_class(sp))
    return list(ref.random_class(lambda a, b: draw(st.integers(a, b)), *sp))


@st.composite
def far_class(draw, sp):
    """wide_class, or (one time in four) the dual of a class of few boxes: next to the class of a point."""
    if draw(st.integers(0, 3)) == 3:
        return list(ref.dual(*sp, tuple(draw(small_class(sp, draw(st.integers(0, max(3, refring.box(*sp)[1]))))))))
    return draw(wide_class(sp))


@st.composite
def shaped_class(draw, sp):
    """Tall, flat or level partitions (many or few rows of about the same length); in type D often with a part k."""
    tp, m, N = sp
    k, _ = refring.params(tp, m, N)
    rows, cols = refring.box(tp, m, N)
    style = draw(st.sampled_from(["tall", "flat", "level", "part k"] + ["stairs"] * (2 if tp != "A" else 0)))
    if style == "stairs":      # many rows longer than k, in steps of one or two; then rows of at most k
        b = draw(st.integers((rows + 1) // 2, rows))
        lam, x = [], k + draw(st.integers(0, 2))
        for _ in range(b):
            x += draw(st.integers(1, 2))
            if x > cols:
                break
            lam.insert(0, x)
        lam += sorted((draw(st.integers(0, k)) for _ in range(rows - len(lam))), reverse=True)
        lam = [x for x in lam if x]
        if tp == "D" and k > 0 and k in lam and draw(st.booleans()):
            lam.append(0)
        return lam
    r = draw(st.integers(0 if style == "level" else (rows + 1) // 2 if style != "flat" else 1, rows if style != "flat" else min(rows, 3)))
    if style == "flat":
        lo, hi = max(0, cols - 3), cols
    elif style == "tall":
        lo, hi = 1, max(1, min(cols, 3))
    elif style == "part k":
        lo, hi = min(1, k), max(k, 1)
    else:
        lo = draw(st.integers(0, cols))
        hi = min(cols, lo + 2)
    lam = sorted((draw(st.integers(lo, min(hi, cols))) for _ in range(r)), reverse=True)
    if style == "part k" and lam and k > 0:
        lam[0] = k
    out = []
    for x in lam:
        x = min(x, out[-1]) if out else x
        if tp != "A" and out and x == out[-1] > k:
            x -= 1
        if x > 0:
            out.append(x)
    if tp == "D" and k > 0 and k in out and draw(st.booleans()):
        out.append(0)
    return out


@st.composite
def small_class(draw, sp, maxdeg):
    """A class of degree <= maxdeg: a wide class with boxes removed until it fits."""
    c = draw(wide_class(sp))
    while sum(c) > maxdeg:
        c = shrink_class(sp, c, draw(st.integers(0, 20)))
    return c


def shrink_class(sp, c, pick):
    """A class of the same space whose partition is one box (or one part) smaller."""
    tp, m, N = sp
    k, _ = refring.params(tp, m, N)
    core = [x for x in c if x]
    cands = []
    for i in range(len(core)):
        d = core[:i] + [core[i] - 1] + core[i + 1:]
        d = [x for x in d if x]
        if all(a >= b for a, b in zip(d, d[1:])) and (tp == "A" or refring.is_kstrict(d, k)):
            cands.append(d)
    if not cands:
        cands = [core[:-1]]
    d = cands[pick % len(cands)]
    if tp == "D" and k > 0 and k in d and c[-1] == 0:
        d = d + [0]
    return d


def generators_of(sp):
    """Special classes in the library's signed numbering, [(i, class)]."""
    return [(i, list(c)) for i, c in refring.special(*sp)]


def shrink_to(sp, c, maxdeg):
    c = list(c)
    while sum(c) > maxdeg:
        c = shrink_class(sp, c, 0)
    return c
