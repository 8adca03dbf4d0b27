"""Multiplication tables."""
import contextlib
import io

import gens
import ref
import refring
from core import Part
from gens import st
from lib import G, exact, fmt, make, name, need, sut, text
from schubertpy import MultTable, QMultTable

RULE = ("tables: every stored space with at most 15 classes (24 thorough), classical and quantum: rows and columns are the Schubert classes of the space in the order schub_classes lists them, each once; "
        "every entry is the reference product of its row and column class; the matrix form has the same entries; printing the table and str() succeed and show every entry of small tables. "
        "Two tables of different spaces built one after the other do not disturb each other. Non-trivial: at least 3 classes.")


def spaces(tier):
    mx = 15 if tier == "quick" else 24
    return [[s, q] for s in gens.space_list(mx, minn=1) for q in (False, True)]


def entries(T, n):
    m = sut(T.to_matrix, what="to_matrix()")
    need(isinstance(m, list) and len(m) == n and all(isinstance(r, list) and len(r) == n for r in m), lambda: f"to_matrix() is not a {n} x {n} list of lists")
    return m


def check_table(T, sp, quantum):
    R = ref.ring(*sp)
    nm = f"{'QMultTable' if quantum else 'MultTable'}({name(*sp)})"
    g = G(*sp)
    order = [tuple(c.partition()) for c in sut(g.schub_classes)]
    rows = [tuple(c.partition()) for c in list(T.df.index)]
    cols = [tuple(c.partition()) for c in list(T.df.columns)]
    need(rows == order and cols == order, lambda: f"{nm}: rows {rows}, columns {cols}, classes {order}")
    need(len(set(order)) == len(refring.classes(*sp)), lambda: f"{nm}: labels repeat or are missing")
    m = entries(T, len(order))
    for i, u in enumerate(order):
        for j, v in enumerate(order):
            want = R.prod_poly(u, v, quantum)
            got = exact(m[i][j], f"{nm} row {fmt(u)} column {fmt(v)}")
            need(got == want, lambda: f"{nm} row {fmt(u)} column {fmt(v)} is {got}; expected {want}")
    return m


def check(case):
    sp, quantum = case
    cls = QMultTable if quantum else MultTable
    nm = f"{'QMultTable' if quantum else 'MultTable'}({name(*sp)})"
    g = make(*sp)
    T = sut(cls, g, what=nm)
    need(T.gr is g, lambda: f"{nm}.gr is not the given space")
    m = check_table(T, sp, quantum)
    for f, w in ((str, "str"), (repr, "repr")):
        s = sut(f, T, what=f"{w}({nm})")
        need(isinstance(s, str), f"{w}({nm}) is a {type(s).__name__}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sut(T.print, what=f"{nm}.print()")
    if len(m) <= 4:
        for src, what in ((out.getvalue(), "print()"), (str(T), "str()")):
            squeezed = "".join(src.split())
            # narrow tables print without wrapping or eliding
            if "..." not in src and "\\" not in src:
                for row in m:
                    for e in row:
                        need("".join(text(e).split()) in squeezed, lambda: f"{nm}.{what} does not show the entry {e}:\n{src}")
    # still the same after printing, and still values rather than pictures of values
    for r0, r1 in zip(m, check_table(T, sp, quantum)):
        for x, y in zip(r0, r1):
            need(type(x) is type(y), lambda: f"{nm}: printing turned an entry from {type(x).__name__} into {type(y).__name__}")


@st.composite
def pairs(draw, tier):
    a = draw(gens.spaces(8))
    b = draw(gens.spaces(8))
    return [a, draw(st.booleans()), b, draw(st.booleans())]


def check_two(case):
    a, qa, b, qb = case
    S = sut(QMultTable if qa else MultTable, make(*a))
    T = sut(QMultTable if qb else MultTable, make(*b))
    check_table(S, a, qa)
    m = check_table(T, b, qb)
    # what the caller does with the matrix it received
    m[0][0] = None
    m[-1].clear()
    m.pop()
    check_table(T, b, qb)
    check_table(S, a, qa)


PARTS = [
    Part("tables", check, 400, 400, cases=spaces, nontrivial=lambda c: len(ref.ring(*c[0]).cls) >= 3, size=lambda c: len(ref.ring(*c[0]).cls),
         label=lambda c: [f"type {c[0][0]}", "quantum" if c[1] else "classical"]),
    Part("two tables", check_two, 40, 400, strategy=pairs, nontrivial=lambda c: c[0] != c[2]),
]
