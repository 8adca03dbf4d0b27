"""Comparing two CSV result files (check_bijection_with_permutation)."""
import os
import random
import tempfile

import exprs
import gens  # noqa: F401
from core import Part
from gens import st
from lib import need, schubertpy, sut
from schubertpy.csv_bijection import check_bijection_with_permutation

RULE = ("A random result file: rows 'key;key;expression' with 3 to 5 columns, blank lines and short rows. Its variant shuffles the rows, repeats rows, rewrites each expression in an algebraically equal form "
        "(reordered, expanded, multiplied by (S+1)-(S), factored), and adds short rows; each file has its own line ends (LF, CRLF, none after the last row) and its own fields in quotes: the comparison must say True, in both directions. A second variant changes one row (another coefficient, also by one where it has 20 digits, another sign, multiple or class, another key, the two keys exchanged, the values of two rows exchanged, "
        "a row removed or added) so that the sets of (key, key, value) differ: it must say False. Files rewritten under the same name are compared by their new contents. The comparison never changes the files. Non-trivial: at least two rows and an expression rewritten or a row altered.")


def rewrite(tree, how):
    """An algebraically equal expression, as text."""
    t = exprs.text(tree, "**", "", "")
    if how == 0:
        return t
    if how == 1:
        return poly_text(exprs.value(tree))
    if how == 2:
        return f"({t})*2/2"
    if how == 3:
        return f"S[7,7] + ({t}) - S[7,7]"
    if how == 4:
        return f"-(-({t}))"
    return f"({t})*(q+1) - q*({t})"


def poly_text(p):
    import poly
    out = ""
    items = list(p.t.items())
    random.Random(len(items)).shuffle(items)
    for m, c in items:
        fs = [f"({c})"]
        for v, e in m:
            fs.append((poly.fmt_class(v[1]) if isinstance(v, tuple) else v) + (f"**{e}" if e > 1 else ""))
        out += (" + " if out else "") + "*".join(fs)
    return out or "0"


def one_monomial(p):
    out = ["n", 1]
    for v, e in max(p.t, key=lambda m: (abs(p.t[m]), str(m)), default=()):
        x = ["S", v[1]] if isinstance(v, tuple) else ["q", v]
        out = ["*", out, ["^", x, e] if e > 1 else x]
    return out


def small(t):
    return exprs.nterms(t) <= 8 and exprs.degree(t) <= 3


@st.composite
def cases(draw, tier):
    key = st.one_of(exprs.PARTS.map(lambda p: str(p)), st.sampled_from(["S[1]", "S[2,1]", "2", "a", "S[1]*S[1]", "a\x01b"]))      # \x01: a semicolon inside a field
    n = draw(st.integers(1, 5))
    one = st.tuples(st.one_of(st.integers(-3, 3).filter(bool), st.sampled_from([2 ** 53 + 1, -10 ** 19 - 7, 10 ** 6 + 3])), exprs.PARTS, st.sampled_from(["", "q", "q2"])).map(
        lambda t: ["*", ["n", t[0]], ["*", ["q", t[2]], ["S", t[1]]] if t[2] else ["S", t[1]]])
    rows = [[draw(key), draw(key), draw(st.one_of(exprs.trees(3).filter(small), one)), draw(st.integers(0, 2))] for _ in range(n)]
    var = [[i, draw(st.integers(0, 5))] for i in draw(st.permutations(list(range(n))))]
    if draw(st.booleans()):
        var.append([draw(st.integers(0, n - 1)), draw(st.integers(0, 5))])
    alter = [draw(st.sampled_from(["coef", "class", "key1", "key2", "remove", "add", "const", "sign", "triple", "plus", "plus", "q", "swap", "keys"])), draw(st.integers(0, n - 1))]
    style = [[draw(st.sampled_from(["\n", "\n", "\r\n"])), draw(st.booleans()), draw(st.integers(0, 7))] for _ in range(3)]
    return [rows, var, draw(st.lists(st.integers(0, 2), max_size=3)), alter, style]


def styled(lines, style):
    """The same table as text: line ends, last line with or without one, some fields in quotes."""
    eol, last, mask = style
    out = []
    for i, l in enumerate(lines):
        fs = l.split(";")
        out.append(";".join('"' + f.replace("\x01", ";") + '"' if l and (mask >> ((i + j) % 3) & 1 or "\x01" in f) else f for j, f in enumerate(fs)))
    return eol.join(out) + (eol if last else "")


SHORT = ["", "S[1]", "S[1];S[2]"]


def line(k1, k2, t, extra):
    return ";".join([k1, k2, t] + ["note"] * extra)


def denote(rows):
    return {(k1, k2, exprs.value(t)) for k1, k2, t, _ in rows}


def check(case):
    rows, var, short, alter, style = case
    with tempfile.TemporaryDirectory() as tmp:
        def put(nm, lines):
            f = os.path.join(tmp, nm)
            with open(f, "w", newline="") as h:
                h.write(styled(lines, style["abc".index(nm[0])]))
            return f, open(f).read()
        A, ta = put("a.csv", [line(k1, k2, exprs.text(t, "**", "", ""), x) for k1, k2, t, x in rows])
        blines = [line(rows[i][0], rows[i][1], rewrite(rows[i][2], how), how % 2) for i, how in var]
        for s in short:
            blines.insert(s % (len(blines) + 1), SHORT[s])
        B, tb = put("b.csv", blines)
        for x, y in ((A, B), (B, A), (A, A), (B, B)):
            w = f"comparing\n{open(x).read()}with\n{open(y).read()}"
            need(sut(check_bijection_with_permutation, x, y, what=w) is True, lambda: f"{w} is not True")
        how, i = alter
        alt = [list(r) for r in rows]
        if how == "coef":
            alt[i][2] = ["+", alt[i][2], alt[i][2]]
        elif how == "class":
            alt[i][2] = ["+", alt[i][2], ["S", [9, 1]]]
        elif how == "const":
            alt[i][2] = ["+", alt[i][2], ["n", 1]]
        elif how == "sign":
            alt[i][2] = ["*", ["n", -1], alt[i][2]]
        elif how == "triple":
            alt[i][2] = ["*", ["n", 3], alt[i][2]]
        elif how == "plus":                  # one coefficient changes by one
            alt[i][2] = ["+", alt[i][2], one_monomial(exprs.value(alt[i][2]))]
        elif how == "q":
            alt[i][2] = ["*", ["q", "q"], alt[i][2]]
        elif how == "swap":                  # the values of two rows change places
            alt[i][2], alt[i - 1][2] = alt[i - 1][2], alt[i][2]
        elif how == "keys":
            alt[i][0], alt[i][1] = alt[i][1], alt[i][0]
        elif how == "key1":
            alt[i][0] += "x"
        elif how == "key2":
            alt[i][1] += "x"
        elif how == "remove":
            alt = [r for j, r in enumerate(alt) if j != i]
        else:
            alt.append(["new", "row", ["n", 1], 0])
        clines = [line(k1, k2, exprs.text(t, "**", "", ""), x) for k1, k2, t, x in alt]
        C, tc = put("c.csv", clines)
        want = denote(rows) == denote(alt)
        for x, y in ((A, C), (C, A), (B, C)):
            w = f"comparing\n{open(x).read()}with\n{open(y).read()}"
            r = sut(check_bijection_with_permutation, x, y, what=w)
            need(r is want, lambda: f"{w} is {r}, expected {want}")
        need((open(A).read(), open(B).read(), open(C).read()) == (ta, tb, tc), "the comparison changed a file")
        # the same names with other contents: what counts is what the files hold now
        put("c.csv", blines)
        for x, y in ((A, C), (C, A)):
            w = f"after c.csv was rewritten, comparing\n{open(x).read()}with\n{open(y).read()}"
            need(sut(check_bijection_with_permutation, x, y, what=w) is True, lambda: f"{w} is not True")
        put("a.csv", clines)
        w = f"after a.csv was rewritten, comparing\n{open(A).read()}with\n{open(B).read()}"
        r = sut(check_bijection_with_permutation, A, B, what=w)
        need(r is want, lambda: f"{w} is {r}, expected {want}")


def nt(c):
    return len(c[0]) >= 2


PARTS = [Part("files", check, 960, 8000, strategy=cases, nontrivial=nt, label=lambda c: [c[3][0], f"{len(c[0])} rows"])]
