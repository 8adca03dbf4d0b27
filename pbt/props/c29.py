"""Schur objects are values; symbols, texts and numbers of special classes determine them."""
import copy
import pickle

import gens
import ref
import refring
import sympy as sp
from core import Part
from gens import st
from lib import G, LinearCombination, Schur, fmt, name, need, schubertpy, sut
from schubertpy.schur import isSchur, toSchur, translate_schur, unique_schur_list

RULE = ("forms: a random label (partition with parts up to 3 digits, trailing zeros, Schubert symbol, pair of partitions) built from list, tuple, text with random blanks, symbol and another Schur object: all equal, same hash, same text, "
        "symbol and toSchur inverse to each other, the caller's list not shared or changed, copies and pickles equal. "
        "family: a list of labels with near collisions (digits regrouped as in [1,1] and [11], zeros appended, rows moved) and repetitions: equality, hash, dictionary keys, symbols and texts tell exactly the different ones apart, "
        "order and sorting are those of the lists, unique_schur_list is the sorted list without repetitions. "
        "special: in every space spec2num and num2spec are inverse on the special classes, and spec2num rejects classes of two and more rows. "
        "junk: texts and symbols that are not classes are rejected. Non-trivial: two or more parts.")

PART = st.one_of(st.integers(1, 4), st.integers(1, 30), st.sampled_from([9, 10, 11, 12, 19, 99, 100, 111, 121]))


@st.composite
def partition(draw, mx=5):
    lam = sorted(draw(st.lists(PART, max_size=mx)), reverse=True)
    return lam + [0] * draw(st.sampled_from([0, 0, 0, 0, 1, 2]))


@st.composite
def label(draw):
    s = draw(st.integers(0, 7))
    if s == 0:
        return [draw(partition(3)), draw(partition(3))]
    if s == 1:
        return sorted(draw(st.sets(st.integers(1, 40), max_size=6)))
    return draw(partition())


@st.composite
def forms(draw, tier):
    return [draw(label()), draw(st.integers(0, 3)), draw(label())]


def spaced(lam, how):
    t = fmt(lam) if how < 2 else str(lam)
    return "S" + t if how >= 2 else t


def check_forms(case):
    lam, how, other = case
    given = copy.deepcopy(lam)
    a = sut(Schur, given, what=f"Schur({lam})")
    need(given == lam, lambda: f"Schur({lam}) changed its argument to {given}")
    given.append(5)
    need(a.partition() == lam, lambda: f"Schur({lam}) changes with the list it was made from: {a}")
    t = str(a)
    need(t == fmt(lam) and repr(a) == t, lambda: f"str(Schur({lam})) = {t!r}, repr = {a!r}")
    sym = sut(a.symbol, what=f"Schur({lam}).symbol()")
    need(isinstance(sym, sp.Symbol), lambda: f"Schur({lam}).symbol() is a {type(sym).__name__}")
    need(isSchur(sym) is True, lambda: f"isSchur({sym}) is false")
    need(translate_schur(sym) == t, lambda: f"translate_schur of the symbol of {t} is {translate_schur(sym)!r}")
    for x, w in ((tuple(lam), f"Schur({tuple(lam)})"), (a, f"Schur(Schur({lam}))"), (spaced(lam, how), f"Schur({spaced(lam, how)!r})"), (sym, f"Schur(<symbol of {t}>)"), (str(lam), f"Schur({str(lam)!r})")):
        b = sut(Schur, x, what=w)
        need(b == a and not b != a and hash(b) == hash(a) and b.partition() == lam and str(b) == t, lambda: f"{w} = {b} differs from Schur({lam}) = {a}")
        need(not (a < b) and not (b < a), lambda: f"{w} is not of the same order as Schur({lam})")
    for x, w in ((sym, f"toSchur(<symbol of {t}>)"), (t, f"toSchur({t!r})")):
        b = sut(toSchur, x, what=w)
        need(isinstance(b, Schur) and b == a, lambda: f"{w} = {b}")
    for b in (copy.copy(a), copy.deepcopy(a), pickle.loads(pickle.dumps(a))):
        need(b == a and hash(b) == hash(a), f"a copy of {t} is not equal to it")
    L = sut(LinearCombination, a, what=f"LinearCombination({t})")
    need(str(L) == t and L.expr == sym, lambda: f"LinearCombination({t}) = {L}")
    for M in (copy.deepcopy(L), pickle.loads(pickle.dumps(L)), LinearCombination(t), LinearCombination(sym)):
        need(M.expr == sym, lambda: f"a copy of LinearCombination({t}) is {M}")
    flat = not any(isinstance(x, list) for x in lam)
    if flat:
        zero = bool(lam) and lam[-1] == 0
        r = sut(a.has_part_zero_padding, what=f"{t}.has_part_zero_padding()")
        need(r is zero, lambda: f"{t}.has_part_zero_padding() = {r}")
    b = Schur(list(other))
    need((a == b) is (lam == other), lambda: f"{a} == {b} is {a == b}")
    for y in (lam, t, None, 3, tuple(lam)):
        need((a == y) is False and (a != y) is True, lambda: f"{t} == {y!r}")
    need(a.partition() == lam and str(a) == t, f"{t} changed")


@st.composite
def family(draw, tier):
    base = draw(st.lists(partition(4), min_size=1, max_size=4))
    out = list(base)
    for lam in base:
        for _ in range(draw(st.integers(0, 3))):
            how = draw(st.integers(0, 5))
            if how == 0:
                out.append(lam + [0])
            elif how == 1:
                out.append([x for x in lam if x])
            elif how == 2 and len(lam) > 1 and lam[0]:
                out.append([int(f"{lam[0]}{lam[1]}")] + lam[2:])
            elif how == 3 and lam and lam[0] > 9:
                s = str(lam[0])
                out.append([int(s[0]), int(s[1:])] + lam[1:])
            elif how == 4 and lam:
                out.append([lam[0] + 1] + lam[1:])
            else:
                out.append(list(lam))
    return draw(st.permutations(out))


def check_family(case):
    objs = [Schur(list(l)) for l in case]
    for i, a in enumerate(case):
        for j, b in enumerate(case):
            x, y = objs[i], objs[j]
            need((x == y) is (a == b), lambda: f"{x} == {y} is {x == y}")
            need((x != y) is (a != b), lambda: f"{x} != {y} is {x != y}")
            need((x < y) is (a < b), lambda: f"{x} < {y} is {x < y}")
            need((x > y) is (a > b), lambda: f"{x} > {y} is {x > y}")
            if a == b:
                need(hash(x) == hash(y), lambda: f"two objects {x} hash differently")
            need((x.symbol() == y.symbol()) is (a == b), lambda: f"the symbols of {x} and {y} are {'equal' if a != b else 'different'}")
            need((str(x) == str(y)) is (a == b), lambda: f"the texts of {x} and {y}")
    distinct = sorted({tuple(l) for l in case})
    u = sut(unique_schur_list, list(objs), what=f"unique_schur_list({objs})")
    need(isinstance(u, list) and all(isinstance(x, Schur) for x in u) and [tuple(x.partition()) for x in u] == distinct, lambda: f"unique_schur_list({objs}) = {u}")
    need([x.partition() for x in sorted(objs)] == sorted(case), lambda: f"sorted({objs}) = {sorted(objs)}")
    d = {}
    for x in objs:
        d[x] = d.get(x, 0) + 1
    need({tuple(x.partition()): c for x, c in d.items()} == {t: case.count(list(t)) for t in distinct}, lambda: f"counting {objs} in a dictionary gives {d}")
    need([x.partition() for x in objs] == case, "an object changed")


def special_cases(tier):
    out = []
    for s in gens_spaces(9 if tier == "quick" else 14):
        out.append(s)
    return out


def gens_spaces(r):
    out = [["A", m, N] for N in range(2, r + 4) for m in range(1, N)]
    for n in range(1, r + 1):
        out += [["C", m, 2 * n] for m in range(1, n + 1)] + [["B", m, 2 * n + 1] for m in range(1, n + 1)]
        if n > 1:
            out += [["D", m, 2 * n] for m in range(1, n + 1)]
    return out


def check_special(sp_):
    g = G(*sp_)
    nm = name(*sp_)
    for i, c in refring.special(*sp_):
        c = list(c)
        for x in (Schur(c), Schur(c).symbol()):
            r = sut(g.spec2num, x, what=f"{nm}.spec2num({fmt(c)})")
            need(r == i, lambda: f"{nm}.spec2num({fmt(c)}) = {r}, expected {i}")
        r = sut(g.num2spec, i, what=f"{nm}.num2spec({i})")
        need(isinstance(r, Schur) and r.partition() == c, lambda: f"{nm}.num2spec({i}) = {r}, expected {fmt(c)}")
    for lam in ([2, 1], [3, 1], [1, 1], [2, 2, 1], [4, 3, 2, 1], [3, 1, 0]):
        for x in (Schur(lam), Schur(lam).symbol()):
            try:
                r = g.spec2num(x)
            except ValueError:
                continue
            except Exception as e:
                need(False, f"{nm}.spec2num({fmt(lam)}) raised {type(e).__name__}: {e}; expected ValueError")
            need(False, lambda: f"{nm}.spec2num({fmt(lam)}) = {r}; expected ValueError")


# ---- not classes
def junk_cases(tier):
    return ["q", "S", "S[", "S[1", "S]1[", "S(1)", "S[1.5]", "S['a']", "S{1}", "1", "S[1]+S[2]", "2*S[1]", "S[a]", "", "None", "S[1][2]", "x", "S[1,None]", "S[(1,2)]"]


def check_junk(t):
    for f, w in ((toSchur, "toSchur"), (Schur, "Schur")):
        try:
            r = f(t)
        except Exception:
            continue
        need(False, lambda: f"{w}({t!r}) = {r}, but it is not the text of a class")


PARTS = [
    Part("forms", check_forms, 2400, 24000, strategy=forms, nontrivial=lambda c: len(c[0]) > 1,
         label=lambda c: "pair" if any(isinstance(x, list) for x in c[0]) else "two-digit parts" if any(x > 9 for x in c[0]) else "small parts"),
    Part("family", check_family, 1600, 16000, strategy=family, nontrivial=lambda c: len({tuple(l) for l in c}) > 1 and any(len(l) > 1 for l in c)),
    Part("special", check_special, 400, 1000, cases=special_cases, nontrivial=lambda c: c[1] > 1),
    Part("junk", check_junk, 100, 100, cases=junk_cases),
]
