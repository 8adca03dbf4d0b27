"""The same ring under two names: isomorphic spaces and stability in the size."""
import gens
import poly
import ref
import refring
from core import Part
from gens import st
from lib import G, exact, fmt, name, need, sut

RULE = ("isomorphic: Gr(m,N)=Gr(N-m,N) by transposition, OG(n,2n+1)=OG(n+1,2n+2), IG(1,2n)=Gr(1,2n), OG(1,5)=IG(2,4), OG(2,5)=OG(3,6)=Gr(1,4), OG(1,6)=Gr(2,4), OG(3,7)=OG(4,8)=OG(1,8), OG(1,3)=IG(1,2)=Gr(1,2): "
        "classical and quantum products of corresponding classes correspond, and so do duals. far: the same for Pieri products and duals in spaces of rank up to 14 (N up to 18). stability: the classical product in a space is the product in a larger space of the same family with the same k (or, in type A, with "
        "more rows or more columns) with the classes that do not fit dropped. rotation: in Gr(m,N), quantum multiplication by the class of one full row or one full column moves every class to one class. "
        "Non-trivial: neither factor is S[].")


def conj(lam):
    return [sum(1 for x in lam if x > j) for j in range(lam[0])] if lam else []


CHAIN6 = {(): (), (1,): (1,), (2,): (2,), (3,): (3,), (2, 1): (3, 0), (3, 1): (4,), (3, 2): (5,), (3, 2, 1): (6,)}


def pairs_list(tier):
    """[space, space, rule]"""
    out = []
    top = 8 if tier == "quick" else 10
    for N in range(3, top + 1):
        for m in range(1, N):
            if 2 * m != N:
                out.append([["A", m, N], ["A", N - m, N], "transpose"])
            else:
                out.append([["A", m, N], ["A", m, N], "transpose"])
    for n in range(1, (6 if tier == "quick" else 8)):
        out += [[["B", n, 2 * n + 1], ["D", n + 1, 2 * n + 2], "same"]] * 4
        out.append([["C", 1, 2 * n], ["A", 1, 2 * n], "same"])
    out += [
        [["B", 1, 5], ["C", 2, 4], {"": "", "1": "1", "2": "2", "3": "2,1"}],
        [["B", 2, 5], ["A", 1, 4], {"": "", "1": "1", "2": "2", "2,1": "3"}],
        [["D", 3, 6], ["A", 1, 4], {"": "", "1": "1", "2": "2", "2,1": "3"}],
        [["D", 1, 6], ["A", 2, 4], {"": "", "1": "1", "2": "2", "2,0": "1,1", "3": "2,1", "4": "2,2"}],
        [["D", 1, 6], ["A", 2, 4], {"": "", "1": "1", "2,0": "2", "2": "1,1", "3": "2,1", "4": "2,2"}],
        [["B", 1, 3], ["A", 1, 2], "same"], [["C", 1, 2], ["B", 1, 3], "same"],
    ]
    q6 = {",".join(map(str, a)): ",".join(map(str, b)) for a, b in CHAIN6.items()}
    out += [[["B", 3, 7], ["D", 1, 8], q6], [["D", 4, 8], ["D", 1, 8], q6]] * 3
    q6b = dict(q6)
    q6b["3"], q6b["2,1"] = "3,0", "3"
    out.append([["D", 4, 8], ["D", 1, 8], q6b])
    return out


def convert(rule, c):
    c = list(c)
    if rule == "same":
        return c
    if rule == "transpose":
        return conj(c)
    t = rule[",".join(map(str, c))]
    return [int(x) for x in t.split(",")] if t else []


@st.composite
def iso(draw, tier):
    a, b, rule = draw(st.sampled_from(pairs_list(tier)))
    mx = 9 if a[0] == "A" else 12
    cl = gens.small_class(a, mx)
    return [a, b, rule, draw(cl), draw(cl)]


def map_poly(p, f):
    out = poly.Poly()
    for m, c in p.t.items():
        t = poly.Poly.const(c)
        for v, e in m:
            t = t * (poly.S(f(list(v[1]))) if isinstance(v, tuple) else poly.Poly.var(v)) ** e
        out = out + t
    return out


def check_iso(case):
    a, b, rule, u, v = case
    ga, gb = G(*a), G(*b)
    f = lambda c: convert(rule, c)
    fu, fv = f(u), f(v)
    for op in ("qmult", "mult"):
        w1, w2 = f"{name(*a)}.{op}({fmt(u)}, {fmt(v)})", f"{name(*b)}.{op}({fmt(fu)}, {fmt(fv)})"
        x = exact(sut(getattr(ga, op), fmt(u), fmt(v), what=w1), w1)
        y = exact(sut(getattr(gb, op), fmt(fu), fmt(fv), what=w2), w2)
        for cl in x.schurs():
            need(ref.is_class(*a, cl), lambda: f"{w1} = {x} contains {fmt(cl)}, which is no class of {name(*a)}")
        need(map_poly(x, f) == y, lambda: f"{w1} = {x} does not correspond to {w2} = {y}")
    d1 = exact(sut(ga.dualize, fmt(u), what=f"{name(*a)}.dualize({fmt(u)})"))
    d2 = exact(sut(gb.dualize, fmt(fu), what=f"{name(*b)}.dualize({fmt(fu)})"))
    need(map_poly(d1, f) == d2, lambda: f"{name(*a)}.dualize({fmt(u)}) = {d1} does not correspond to {name(*b)}.dualize({fmt(fu)}) = {d2}")
    need(ga.degree_q() == gb.degree_q(), lambda: f"deg q is {ga.degree_q()} for {name(*a)}, {gb.degree_q()} for {name(*b)}")


@st.composite
def iso_far(draw, tier):
    """Pieri products, duals and codes in large spaces."""
    t = draw(st.sampled_from(["BD", "BD", "A", "A", "CA"]))
    if t == "BD":
        n = draw(st.integers(4, 14))
        a, b, rule = ["B", n, 2 * n + 1], ["D", n + 1, 2 * n + 2], "same"
    elif t == "CA":
        n = draw(st.integers(2, 16))
        a, b, rule = ["C", 1, 2 * n], ["A", 1, 2 * n], "same"
    else:
        N = draw(st.integers(6, 18))
        m = draw(st.integers(1, N - 1))
        a, b, rule = ["A", m, N], ["A", N - m, N], "transpose"
    i = draw(st.integers(1, refring.box(*a)[1])) if t != "A" else 1
    return [a, b, rule, draw(gens.far_class(a)), i]


def check_iso_far(case):
    a, b, rule, u, i = case
    ga, gb = G(*a), G(*b)
    f = lambda c: convert(rule, c)
    for op in ("pieri", "qpieri", "dualize"):
        args = lambda x: (fmt(x),) if op == "dualize" else (i, fmt(x))
        w1, w2 = f"{name(*a)}.{op}{args(u)}", f"{name(*b)}.{op}{args(f(u))}"
        x = exact(sut(getattr(ga, op), *args(u), what=w1), w1)
        y = exact(sut(getattr(gb, op), *args(f(u)), what=w2), w2)
        for cl in x.schurs():
            need(ref.is_class(*a, cl), lambda: f"{w1} = {x} contains {fmt(cl)}, which is no class of {name(*a)}")
        need(map_poly(x, f) == y, lambda: f"{w1} = {x} does not correspond to {w2} = {y}")


@st.composite
def stable(draw, tier):
    sp = draw(gens.wide_spaces(maxA=7, maxr=4))
    tp, m, N = sp
    if tp == "A":
        how = draw(st.sampled_from(["row", "column", "both"]))
        big = [tp, m + (how != "column"), N + (2 if how == "both" else 1)]
    else:
        s = draw(st.integers(1, 1 if tier == "quick" else 2))
        big = [tp, m + s, N + 2 * s]
    cl = gens.small_class(sp, 6)
    return [sp, big, draw(cl), draw(cl)]


def check_stable(case):
    a, b, u, v = case
    w1, w2 = f"{name(*a)}.mult({fmt(u)}, {fmt(v)})", f"{name(*b)}.mult({fmt(u)}, {fmt(v)})"
    x = exact(sut(G(*a).mult, fmt(u), fmt(v), what=w1), w1)
    y = exact(sut(G(*b).mult, fmt(u), fmt(v), what=w2), w2)
    cut = poly.Poly({m: c for m, c in y.t.items() if all(not isinstance(z, tuple) or ref.is_class(*a, z[1]) for z, _ in m)})
    need(x == cut, lambda: f"{w1} = {x}; the part of {w2} that fits is {cut}")


@st.composite
def rotation(draw, tier):
    sp = draw(gens.wide_spaces("A", maxA=10 if tier == "quick" else 14))
    return [sp, draw(gens.far_class(sp)), draw(st.booleans()) or sp[1] > 5]


def check_rotation(case):
    sp, lam, row = case
    tp, m, N = sp
    k = N - m
    la = list(lam) + [0] * (m - len(lam))
    if row:
        s = [k]
        q, mu = (1, [x - 1 for x in la]) if la[-1] else (0, [k] + la[:-1])
    else:
        s = [1] * m
        q, mu = (1, la[1:] + [0]) if la[0] == k else (0, [x + 1 for x in la])
    want = poly.S([x for x in mu if x])
    if q:
        want = want * poly.Poly.var("q")
    ops = [("qmult", lambda a, b: G(*sp).qmult(a, b))]
    if N <= 6:
        ops.append(("qmult_rh", lambda a, b: G(*sp).qmult_rh(a, b)))
    for op, f in ops:
        w = f"{name(*sp)}.{op}({fmt(s)}, {fmt(lam)})"
        r = exact(sut(f, fmt(s), fmt(lam), what=w), w)
        need(r == want, lambda: f"{w} = {r}, expected {want}")


PARTS = [
    Part("far", check_iso_far, 480, 8000, strategy=iso_far, nontrivial=lambda c: bool(c[3]), label=lambda c: c[0][0] + c[1][0], heavy=True),
    Part("isomorphic", check_iso, 1680, 8000, strategy=iso, nontrivial=lambda c: bool(c[3]) and bool(c[4]),
         label=lambda c: f"{name(*c[0])[:2]}={name(*c[1])[:2]} " + (c[2] if isinstance(c[2], str) else "exceptional")),
    Part("stability", check_stable, 1680, 8000, strategy=stable, nontrivial=lambda c: bool(c[2]) and bool(c[3]), label=lambda c: f"type {c[0][0]}"),
    Part("rotation", check_rotation, 1200, 4000, strategy=rotation, nontrivial=lambda c: bool(c[1]), label=lambda c: "row" if c[2] else "column"),
]
