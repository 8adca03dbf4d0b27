"""Constructors, type data, description, clone."""
import gens
import ref
import refring
from core import Part
from gens import st
from lib import FAM, G, Grassmannian, IsotropicGrassmannian, OrthogonalGrassmannian, exact, fmt, make, name, need, sut

RULE = ("accept/reject: every pair of integers in -3..24 for each of the three constructors, and non-integer arguments, against the definition "
        "(0 <= m <= n; n even and m <= n/2 for IG; m <= floor(n/2) for OG; TypeError for non-integers, ValueError otherwise); for accepted ones the type data and printed description "
        "must be [type, k, n, name, m, N, deg q], and the clone has the same. clone: a clone has the same type data, is a new object and multiplies like the original. Non-trivial: an accepted space with 0 < m.")

CLS = {"Gr": Grassmannian, "IG": IsotropicGrassmannian, "OG": OrthogonalGrassmannian}


def ok(f, m, n):
    if m < 0 or n < 0:
        return False
    if f == "Gr":
        return m <= n
    if f == "IG":
        return n % 2 == 0 and m <= n // 2
    return m <= n // 2


def arg_cases(tier):
    hi = 24 if tier == "quick" else 60
    out = [[f, m, n] for f in CLS for m in range(-3, hi + 1) for n in range(-3, hi + 1)]
    for f in CLS:
        for bad in (2.0, 1.5, "2", None, [2], {"a": 1}):
            out += [[f, bad, 6], [f, 2, bad], [f, bad, bad]]
    return out


def build(f, m, n):
    try:
        return CLS[f](m, n)
    except TypeError:
        return "TypeError"
    except ValueError:
        return "ValueError"


def type_data(f, m, n):
    tp = {"Gr": "A", "IG": "C"}.get(f) or ("B" if n % 2 else "D")
    k, nn = refring.params(tp, m, n)
    return [tp, k, nn, f, m, n, ref.degq(tp, m, n)]


def check_args(case):
    f, m, n = case
    g = sut(build, f, m, n, what=f"{f}({m!r},{n!r})")
    if not (isinstance(m, int) and isinstance(n, int)):
        need(g == "TypeError", lambda: f"{f}({m!r},{n!r}) gave {g!r}, expected a TypeError")
        return
    if not ok(f, m, n):
        need(g == "ValueError", lambda: f"{f}({m},{n}) gave {g!r}, expected a ValueError")
        return
    need(not isinstance(g, str), lambda: f"{f}({m},{n}) raised {g}, but this space exists")
    c = sut(g.clone, what=f"{f}({m},{n}).clone()")
    need(c is not g and type(c) is type(g) and list(c.get_type_data()) == list(g.get_type_data()) and str(c) == str(g), lambda: f"the clone of {f}({m},{n}), {g}, is {c}")
    if m == 0 and f == "OG" and n % 2 == 0 or n == 0:
        return                       # no type (k, n) is defined for the empty even orthogonal case
    want = type_data(f, m, n)
    td = sut(g.get_type_data, what=f"{f}({m},{n}).get_type_data()")
    need(list(td) == want, lambda: f"{f}({m},{n}).get_type_data() = {td}, expected {want}")
    s = sut(str, g, what=f"str({f}({m},{n}))")
    t = f"Type {want[0]} ;  (k,n) = ({want[1]},{want[2]}) ;  {f}({m},{n}) ;  deg(q) = {want[6]}"
    need("".join(s.split()) == "".join(t.split()), lambda: f"str({f}({m},{n})) = {s!r}, expected {t!r}")
    if isinstance(td, list):
        # what the caller does with the list it received
        td[:] = ["A", 1, 2, "Gr", 1, 2, 2]
        for h, who in ((g, "same object"), (sut(g.clone), "clone"), (sut(build, f, m, n), "new object")):
            td2 = sut(h.get_type_data, what=f"{f}({m},{n}).get_type_data()")
            need(list(td2) == want and str(h) == s, lambda: f"{f}({m},{n}): after the caller edited the type data it received, the {who} has {td2}, {h}")


def args_nontrivial(case):
    f, m, n = case
    return isinstance(m, int) and isinstance(n, int) and ok(f, m, n) and m > 0


@st.composite
def clones(draw, tier):
    sp = draw(gens.wide_spaces(maxA=8, maxr=5))
    return [sp, draw(gens.small_class(sp, 4)), draw(gens.wide_class(sp))]


def check_clone(case):
    sp, a, b = case
    g = sut(make, *sp)
    c = sut(g.clone, what=f"{name(*sp)}.clone()")
    cc = sut(c.clone, what=f"{name(*sp)}.clone().clone()")
    need(c is not g, lambda: f"{name(*sp)}.clone() is the same object")
    for h, w in ((c, "clone"), (cc, "clone of the clone"), (g, "original, after cloning,")):
        need(type(h) is FAM[sp[0]], lambda: f"the {w} of {name(*sp)} is a {type(h).__name__}")
        need(list(h.get_type_data()) == type_data(name(*sp)[:2], sp[1], sp[2]), lambda: f"the {w} of {name(*sp)} has type data {h.get_type_data()}")
        need(str(h) == str(g), lambda: f"the {w} of {name(*sp)} prints {h}")
    x = exact(sut(g.qmult, list(a), list(b), what=f"{name(*sp)}.qmult({fmt(a)}, {fmt(b)})"))
    y = exact(sut(c.qmult, list(a), list(b), what=f"{name(*sp)}.clone().qmult({fmt(a)}, {fmt(b)})"))
    need(x == y, lambda: f"{name(*sp)} and its clone disagree on qmult({fmt(a)}, {fmt(b)}): {x} versus {y}")


PARTS = [
    Part("arguments", check_args, 5000, 20000, cases=arg_cases, nontrivial=args_nontrivial, size=lambda c: c[2] if isinstance(c[2], int) else 0,
         label=lambda c: c[0] + (" accepted" if args_nontrivial(c) else " rejected or m=0")),
    Part("clone", check_clone, 480, 3000, strategy=clones, nontrivial=lambda c: bool(c[1]) and bool(c[2]), label=lambda c: f"type {c[0][0]}"),
]
