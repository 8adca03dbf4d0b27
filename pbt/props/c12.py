"""Enumeration: classes, generators, point class, deg q."""
import gens
import ref
import refring
from core import Part
from math import comb
from lib import Schur, fmt, make, name, need, sut

RULE = ("Every space with 1 <= m, N <= 10 (type A) / rank <= 6 plus larger ones (N up to 40 / rank up to 30 while there are at most 1000, thorough 3000, classes), and the one-point Grassmannians Gr(0,n), Gr(n,n): "
        "schub_classes must list each class exactly once and nothing else, generators the special classes, point_class the unique class of top degree, degree_q the anticanonical degree of a line. data: generators, point_class and degree_q in every space up to N = 40 / rank 30, whatever its size. "
        "Non-trivial: the space has more than two classes.")


def count(tp, m, N):
    if tp == "A":
        return comb(N, m)
    r = N // 2
    if tp == "D" and m == r:
        return 2 ** (r - 1)
    return comb(r, m) * 2 ** m


def cases(tier):
    top = 1000 if tier == "quick" else 3000
    out = [["A", m, N] for N in range(1, 14) for m in range(0, N + 1)]
    for r in range(1, 9):
        out += [["C", m, 2 * r] for m in range(1, r + 1)]
        out += [["B", m, 2 * r + 1] for m in range(1, r + 1)]
        out += [["D", m, 2 * r] for m in range(1, r + 1) if r > 1]
    # thin spaces of any size
    out += [["A", m, N] for N in range(14, 41) for m in range(0, N + 1)]
    for r in range(9, 31):
        out += [["C", m, 2 * r] for m in range(1, r + 1)] + [["B", m, 2 * r + 1] for m in range(1, r + 1)] + [["D", m, 2 * r] for m in range(1, r + 1)]
    return [s for s in out if count(*s) <= top]


def data_cases(tier):
    """Every space up to these sizes; the classes are not listed."""
    out = [["A", m, N] for N in range(1, 41) for m in range(1, N + 1)]
    for r in range(1, 31):
        out += [["C", m, 2 * r] for m in range(1, r + 1)] + [["B", m, 2 * r + 1] for m in range(1, r + 1)]
        out += [["D", m, 2 * r] for m in range(1, r + 1) if r > 1]
    return out


def check_data(case):
    tp, m, N = case
    g = sut(make, tp, m, N, what=f"constructing {name(*case)}")
    w = f"{name(*case)}.generators()"
    gg = parts_of(sut(g.generators, what=w), w)
    spec = [c for _, c in refring.special(tp, m, N)]
    need(len(gg) == len(set(gg)) and set(gg) == set(spec), lambda: f"{w} = {gg}, expected {spec}")
    w = f"{name(*case)}.point_class()"
    p = sut(g.point_class, what=w)
    need(isinstance(p, Schur), lambda: f"{w} = {p!r} is not a Schur object")
    want = tuple(ref.dual(tp, m, N, ()))
    need(tuple(p.partition()) == want, lambda: f"{w} = {p}, expected {fmt(want)}")
    if 0 < m and not (tp == "A" and m == N):
        dq = sut(g.degree_q, what=f"{name(*case)}.degree_q()")
        need(dq == ref.degq(tp, m, N), lambda: f"{name(*case)}.degree_q() = {dq}, expected {ref.degq(tp, m, N)}")


def parts_of(lst, what):
    need(isinstance(lst, list), lambda: f"{what} is not a list: {lst!r}")
    for s in lst:
        need(isinstance(s, Schur), lambda: f"{what} contains {s!r}, not a Schur object")
    return [tuple(s.partition()) for s in lst]


def check(case):
    tp, m, N = case
    g = sut(make, tp, m, N, what=f"constructing {name(*case)}")
    w = f"{name(*case)}.schub_classes()"
    got = parts_of(sut(g.schub_classes, what=w), w)
    want = refring.classes(tp, m, N)
    assert len(want) == count(tp, m, N), (case, len(want))
    need(len(got) == len(set(got)), lambda: f"{w} lists some class twice: {sorted(c for c in set(got) if got.count(c) > 1)[:3]}")
    need(set(got) == set(want), lambda: f"{w} misses {sorted(set(want) - set(got))[:3]} and invents {sorted(set(got) - set(want))[:3]}")
    w = f"{name(*case)}.generators()"
    gg = parts_of(sut(g.generators, what=w), w)
    spec = [c for _, c in refring.special(tp, m, N)]
    need(len(gg) == len(set(gg)) and set(gg) == set(spec), lambda: f"{w} = {gg}, expected {spec}")
    w = f"{name(*case)}.point_class()"
    p = sut(g.point_class, what=w)
    need(isinstance(p, Schur), lambda: f"{w} = {p!r} is not a Schur object")
    top = max(want, key=lambda c: (sum(c), c))
    assert sum(sum(c) == sum(top) for c in want) == 1
    need(tuple(p.partition()) == top, lambda: f"{w} = {p}, expected {fmt(top)}")
    if 0 < m and not (tp == "A" and m == N):
        dq = sut(g.degree_q, what=f"{name(*case)}.degree_q()")
        need(dq == ref.degq(tp, m, N), lambda: f"{name(*case)}.degree_q() = {dq}, expected {ref.degq(tp, m, N)}")


def check_again(case):
    """What the caller does with the lists it received does not matter, on this object or on another one."""
    check(case)
    g = sut(make, *case)
    for lst in (g.schub_classes(), g.generators(), [g.point_class()]):
        for c in lst:
            c.partition().append(7)
        lst.reverse()
        del lst[::2]
    tp, m, N = case
    for h, who in ((g, "the same object"), (make(*case), "another object")):
        w = f"{name(*case)}.schub_classes() of {who} after the caller edited an earlier listing"
        need(sorted(parts_of(sut(h.schub_classes, what=w), w)) == sorted(refring.classes(tp, m, N)), lambda: w)
        w = f"{name(*case)}.generators() of {who} after the caller edited an earlier list"
        need(sorted(parts_of(sut(h.generators, what=w), w)) == sorted(c for _, c in refring.special(tp, m, N)), lambda: w)
        w = f"{name(*case)}.point_class() of {who} after the caller edited an earlier answer"
        need(tuple(sut(h.point_class, what=w).partition()) == max(refring.classes(tp, m, N), key=lambda c: (sum(c), c)), lambda: w)


PARTS = [
    Part("space", check_again, 1000, 2000, cases=cases, nontrivial=lambda c: count(*c) > 2, label=lambda c: f"type {c[0]}", size=lambda c: count(*c)),
    Part("data", check_data, 2500, 2500, cases=data_cases, nontrivial=lambda c: count(*c) > 2, label=lambda c: f"type {c[0]}", size=lambda c: c[2]),
]
