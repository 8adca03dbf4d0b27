"""Pictures of partitions and linear combinations."""
import contextlib
import io
import os
import re
import tempfile
from fractions import Fraction

import gens
import poly
from core import Part
from gens import st
from lib import LinearCombination, Schur, fmt, need, schubertpy, sut
import matplotlib.pyplot as plt

RULE = ("partitions: random partitions (up to 7 rows of up to 9 boxes, some up to 16 rows or 30 columns, trailing zeros at random): print_partition, Partition.draw, yd, latex, latex_standalone, plot_partition and export_png must show exactly the boxes of the "
        "partition (row i has lambda_i boxes, left justified, rows from top to bottom), twice the same, also while earlier pictures are open, without changing the object. "
        "combinations: random linear combinations with integer, fractional and q coefficients drawn by draw_ascii_partition: reading the picture back column block by column block must give the coefficients and partitions, "
        "without the q terms when include_q=False. Non-trivial: at least two rows (two terms).")


@st.composite
def parts(draw, tier):
    lam = sorted(draw(st.lists(st.integers(1, draw(st.sampled_from([9, 9, 9, 30]))), max_size=draw(st.sampled_from([7, 7, 7, 16])))), reverse=True)
    return [lam + [0] * draw(st.sampled_from([0, 0, 0, 1, 2])), draw(st.integers(0, 9)) == 0]


def printed(f, w):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sut(f, what=w)
    return out.getvalue().splitlines()


def boxes_tikz(src):
    return sorted((int(float(x)), int(float(y))) for x, y in re.findall(r"\\node\s+at\s*\(\s*(-?[\d.]+)mm\s*,\s*(-?[\d.]+)mm\s*\)\s*\{\s*\}\s*;", src))


def check_plot(obj, lam, w):
    fig, ax = sut(obj.plot_partition, what=w)
    check_axes(ax, lam, w)
    return fig, ax


def check_axes(ax, lam, w):
    rects = sorted((round(p.get_x(), 6), round(p.get_y(), 6), p.get_width(), p.get_height()) for p in ax.patches)
    # rows go down by one; where the first row sits is a matter of taste
    want = sorted((x, -y, 1, 1) for y, r in enumerate(lam) for x in range(r))
    need(rects == want, lambda: f"{w} draws {rects}")
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    need(all(x0 <= x and x + 1 <= x1 and y0 <= y and y + 1 <= y1 + 1e-9 for x, y, _, _ in rects), lambda: f"{w}: boxes outside the axes {ax.get_xlim()} {ax.get_ylim()}")


def check_part(case):
    lam, png = case
    s = Schur(list(lam))
    rows = lambda b: [b * r for r in lam]
    for _ in range(2):
        w = f"{fmt(lam)}.print_partition()"
        got = [l.rstrip() for l in printed(s.print_partition, w)]
        need(got == rows("[ ]"), lambda: f"{w} prints {got}")
    w = f"yd({lam})"
    arg = list(lam)
    got = [l.rstrip() for l in printed(lambda: schubertpy.yd(arg), w)]
    need(arg == lam, f"{w} changed its argument")
    need(len(got) == len(lam) + 1 and got[1:] == rows("[]") and re.findall(r"\d+", got[0]) == [str(x) for x in lam], lambda: f"{w} prints {got}")
    P = sut(schubertpy.Partition, list(lam))
    w = f"Partition({lam}).draw()"
    got = [l.rstrip() for l in printed(P.draw, w)]
    need(got == (rows("[]") if lam else ["0"]), lambda: f"{w} prints {got}")
    need(P.partition == lam, f"{w} changed the partition")
    want = sorted((5 * x, -5 * y) for y, r in enumerate(lam) for x in range(r))
    w = f"{fmt(lam)}.latex()"
    t = sut(s.latex, what=w)
    need(boxes_tikz(t) == want, lambda: f"{w} draws boxes at {boxes_tikz(t)}, expected {want}")
    need(t.count("\\begin{tikzpicture}") == 1 == t.count("\\end{tikzpicture}") and "\\documentclass" not in t, lambda: f"{w}: {t}")
    label = re.findall(r"S_\{(.*?)\}\$", t)
    need(len(label) == 1 and re.findall(r"\d+", label[0]) == [str(x) for x in lam], lambda: f"{w} is labelled {label}")
    w = f"{fmt(lam)}.latex_standalone()"
    u = sut(s.latex_standalone, what=w)
    need(boxes_tikz(u) == want, lambda: f"{w} draws boxes at {boxes_tikz(u)}, expected {want}")
    marks = ["\\documentclass", "\\begin{document}", "\\begin{tikzpicture}", "\\end{tikzpicture}", "\\end{document}"]
    pos = [u.find(m) for m in marks]
    need(pos == sorted(pos) and pos[0] >= 0 and t.strip() in u, lambda: f"{w} is not a complete document around latex(): {u}")
    before = set(plt.get_fignums())
    figs = []
    try:
        # pictures that are kept open: the same partition again, another one, the first again
        other = [x + 1 for x in lam[:3]] + [1]
        for t, obj, l in ((0, s, lam), (1, Schur(list(lam)), lam), (2, Schur(list(other)), other), (3, s, lam))[:4 if png else 2]:
            figs.append((check_plot(obj, l, f"{fmt(l)}.plot_partition()" + " with earlier pictures open" * bool(t)), l))
        for (fig, ax), l in figs:
            check_axes(ax, l, f"{fmt(l)}.plot_partition() after later pictures")
    finally:
        for (fig, ax), l in figs:
            plt.close(fig)
    if png and any(lam):
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "p.png")
            w = f"{fmt(lam)}.export_png()"
            sut(s.export_png, f, what=w)
            need(os.listdir(tmp) == ["p.png"] and open(f, "rb").read(8) == b"\x89PNG\r\n\x1a\n", f"{w} did not write a PNG file")
            img = plt.imread(f)
            need(img.shape[0] > 10 and img.shape[1] > 10 and img[..., 0].min() < 0.5 < img[..., 0].max(), f"{w}: the picture is blank")
            # taller partitions give taller pictures: the aspect follows the boxes (label included)
    need(set(plt.get_fignums()) == before, "a figure is left open")
    need(s.partition() == lam, f"rendering {fmt(lam)} changed it")


@st.composite
def combos(draw, tier):
    sp = draw(gens.wide_spaces("ACB", maxA=draw(st.sampled_from([8, 8, 26])), maxr=draw(st.sampled_from([5, 5, 12]))))
    x = draw(gens.lincomb(sp, 5, cls=gens.wide_class(sp), minterms=1))
    if draw(st.booleans()):
        x = [[a, 1 if draw(st.booleans()) else b, d, c] for a, b, d, c in x]
    return [x, draw(st.booleans())]


def read_picture(lines, w):
    """[(coefficient Poly, partition)] drawn."""
    if not lines:
        return []
    starts, pos = [0], 0
    first = lines[0]
    for m in re.finditer(r" \+ ", first):
        starts.append(m.start())
    ends = starts[1:] + [max(len(l) for l in lines)]
    out = []
    for i, (a, b) in enumerate(zip(starts, ends)):
        head = first[a:b].rstrip()
        if i:
            head = head[3:]
            off = a + 3
        else:
            off = a
        coef = head.split("[]")[0]
        col = off + len(coef)
        part = []
        for l in lines:
            seg = l[col:b] if b < max(map(len, lines)) else l[col:]
            r = len(seg.rstrip()) // 2
            need(seg.rstrip() == "[]" * r, lambda: f"{w}: cannot read the block {seg!r} in\n" + "\n".join(lines))
            part.append(r)
        for l in lines[1:]:
            need(not l[a:col].strip(), lambda: f"{w}: something to the left of the boxes in\n" + "\n".join(lines))
        coef = coef.strip()
        if coef.endswith("*"):
            coef = coef[:-1]
        try:
            c = poly.parse(coef) if coef else poly.Poly.const(1)
        except poly.ParseError:
            need(False, lambda: f"{w}: cannot read the coefficient {coef!r} in\n" + "\n".join(lines))
        while part and part[-1] == 0:
            part.pop()
        out.append((c, tuple(part)))
    return out


def check_combo(case):
    x, inc = case
    v = {}
    for a, b, d, c in x:
        key = (tuple(c), tuple(d))
        v[key] = v.get(key, 0) + Fraction(a, b)
    L = LinearCombination(gens.terms_text(x, 1))
    before = str(L)
    w = f"LinearCombination({before!r}).draw_ascii_partition(include_q={inc})"
    if len(x) % 2:
        printed(lambda: L.draw_ascii_partition(include_q=not inc), w)
    lines = printed(lambda: L.draw_ascii_partition(include_q=inc), w)
    need(printed(lambda: L.draw_ascii_partition(include_q=inc), w) == lines, f"{w} draws another picture the second time")
    need(str(L) == before, f"{w} changed the expression")
    want = []
    for (c, d), a in v.items():
        if a and (inc or not any(d)):
            want.append((poly.Poly({tuple((q, e) for q, e in zip(("q",), d) if e): a}), c))
    # equal classes with different q powers are separate terms
    got = read_picture(lines, w)
    if not want:
        need(not any(l.strip() for l in lines), lambda: f"{w} draws {lines}, expected nothing")
        return
    key = lambda t: (str(t[0]), t[1])
    need(sorted(got, key=key) == sorted(want, key=key), lambda: f"{w} draws\n" + "\n".join(lines) + f"\nwhich reads {[(str(c), t) for c, t in got]}, expected {[(str(c), t) for c, t in want]}")


PARTS = [
    Part("partitions", check_part, 1440, 3000, strategy=parts, nontrivial=lambda c: len([x for x in c[0] if x]) >= 2, label=lambda c: "trailing zeros" if c[0] and c[0][-1] == 0 else None),
    Part("combinations", check_combo, 3600, 15000, strategy=combos, nontrivial=lambda c: len(c[0]) >= 2, label=lambda c: [f"{len(c[0])} terms", "with q" if c[1] else "without q"]),
]
