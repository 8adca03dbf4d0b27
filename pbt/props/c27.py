"""The partition toolkit."""
import gens  # noqa: F401
import poly
import refring
from core import Part
from gens import st
from lib import need, schubertpy, sut
from schubertpy.partition import is_valid_part, skew_partition_height
from schubertpy.qcalc import all_kstrict, part_clip, part_conj, part_gen, part_itr, part_len
from schubertpy.utils.const import decode, encode
from schubertpy.utils.mix import padding_right

RULE = ("Random partitions (up to 8 rows, parts up to 12, trailing zeros at random): conjugation transposes the set of boxes and undoes itself, clip and len drop trailing zeros, enumeration from a partition is the decreasing "
        "lexicographic list of all partitions below it with as many rows, none repeated; all_kstrict(k, rows, cols) is the set of k-strict partitions in the box for every k <= cols, rows up to 7; is_valid_part is the definition on arbitrary lists; "
        "skew height counts the non-empty rows and rejects non-contained pairs; padding and the bracket encoding are reversible. same list: one list with changing contents, and the lists received are overwritten. No argument is modified. Non-trivial: at least two different non-zero parts.")


@st.composite
def parts(draw, maxlen=8, maxpart=12):
    lam = sorted(draw(st.lists(st.integers(1, maxpart), max_size=maxlen)), reverse=True)
    return lam + [0] * draw(st.sampled_from([0, 0, 0, 1, 3]))


def call(f, *args):
    import copy
    a = copy.deepcopy(args)
    w = f"{f.__name__}({', '.join(map(repr, args))})"
    r = sut(f, *a, what=w)
    need(a == args, lambda: f"{w} changed its arguments to {a}")
    return r, w


def check_basic(case):
    lam, n = case
    core = [x for x in lam if x]
    boxes = {(i, j) for i, r in enumerate(core) for j in range(r)}
    r, w = call(part_conj, lam)
    need(list(r) == [sum(1 for x in core if x > j) for j in range(core[0] if core else 0)], lambda: f"{w} = {r}")
    need({(j, i) for i, x in enumerate(r) for j in range(x)} == boxes, lambda: f"{w} = {r} is not the transpose")
    rr, w2 = call(part_conj, list(r))
    need(list(rr) == core, lambda: f"{w2} = {rr}, expected {core}")
    r, w = call(part_clip, lam)
    need(list(r) == core, lambda: f"{w} = {r}, expected {core}")
    r, w = call(part_len, lam)
    need(r == len(core), lambda: f"{w} = {r}, expected {len(core)}")
    r, w = call(padding_right, lam, n, n)
    need(list(r) == lam + [n] * n, lambda: f"{w} = {r}")
    t = poly.fmt_class(lam) + "*q^2 - S[" + str(n) + "]"
    e = sut(encode, t)
    need("[" not in e and "]" not in e and "," not in e and sut(decode, e) == t, lambda: f"encode({t!r}) = {e!r}, decoded {decode(e)!r}")


def check_same_list(case):
    """The caller reuses one list: what counts is what it holds at the time of the call."""
    box = []
    for lam in case + case[:1]:
        box[:] = lam
        core = [x for x in lam if x]
        for f, want in ((part_clip, core), (part_len, len(core)), (part_conj, [sum(1 for x in core if x > j) for j in range(core[0] if core else 0)]), (is_valid_part, True)):
            w = f"{f.__name__}({lam}), one list with several contents,"
            r = sut(f, box, what=w)
            need(box == lam, lambda: f"{w} changed the list to {box}")
            need((list(r) if isinstance(want, list) else r) == want, lambda: f"{w} = {r}, expected {want}")
            if isinstance(r, list):
                r.append(99)
        w = f"skew_partition_height([], {lam}), one list with several contents,"
        r = sut(skew_partition_height, [], box, what=w)
        need(r == len(core), lambda: f"{w} = {r}")
        if len(lam) <= 4 and all(x <= 4 for x in lam) and lam:
            want = lex_below(lam)
            r = sut(part_gen, box, what=f"part_gen({lam})")
            need([list(x) for x in r] == want, lambda: f"part_gen({lam}) = {r}")
            for x in r:
                x.append(99)
            del r[::2]


def lex_below(lam):
    """partitions with len(lam) rows (zeros allowed), lexicographically <= lam, in decreasing order"""
    out = []

    def rec(pre, tight):
        i = len(pre)
        if i == len(lam):
            out.append([x for x in pre if x])
            return
        top = lam[i] if tight else pre[-1]
        for x in range(top, -1, -1):
            rec(pre + [x], tight and x == lam[i])
    rec([], True)
    return out


def check_gen(lam):
    want = lex_below(lam)
    r, w = call(part_gen, lam)
    need([list(x) for x in r] == want, lambda: f"{w} has {len(r)} entries, expected {len(want)}: {first_diff(r, want)}")
    cur, k = list(lam), 0
    while cur is not None and k < 40:
        nx, w = call(part_itr, cur)
        if nx is None:
            need(not any(cur), lambda: f"{w} is None, but smaller partitions exist")
            break
        k += 1
        need(part_clip(nx) == want[k] and len(nx) == len(lam), lambda: f"{w} = {nx}, expected {want[k]}")
        cur = nx


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else "nothing"), (b[i] if i < len(b) else "nothing")
        if x != y:
            return f"entry {i} is {x}, expected {y}"


def strict_cases(tier):
    mr, mc = (5, 7) if tier == "quick" else (7, 8)
    return [[k, r, c] for c in range(0, mc + 1) for k in range(0, c + 1) for r in range(1, mr + 1)]


def check_strict(case):
    k, r, c = case
    want = {tuple(x for x in p if x) for p in refring.partitions_in_box(r, c) if refring.is_kstrict([x for x in p if x], k)}
    res, w = call(all_kstrict, k, r, c)
    got = [tuple(x) for x in res]
    need(len(got) == len(set(got)), lambda: f"{w} repeats {[x for x in got if got.count(x) > 1][:3]}")
    need(set(got) == want, lambda: f"{w}: missing {sorted(want - set(got))[:3]}, extra {sorted(set(got) - want)[:3]}")
    # a fresh list every time
    if res:
        res[0].append(99)
        res.clear()
        again, _ = call(all_kstrict, k, r, c)
        need([tuple(x) for x in again] == got, lambda: f"{w} gives another answer after the returned list was emptied")


ANY = st.one_of(st.integers(-1, 5), st.integers(0, 5), st.integers(0, 5), st.integers(0, 5), st.sampled_from([1.0, 2.5, "1", None]))
LISTS = st.one_of(st.lists(ANY, max_size=5), st.lists(st.integers(0, 6), max_size=5), parts().map(list))


def check_valid(case):
    lam, tup = case
    ok = all(type(x) is int and x >= 0 for x in lam) and all(a >= b for a, b in zip(lam, lam[1:]))
    arg = tuple(lam) if tup else list(lam)
    r = sut(is_valid_part, arg, what=f"is_valid_part({arg!r})")
    need(bool(r) == (ok and not tup), lambda: f"is_valid_part({arg!r}) = {r}")
    if not tup:
        try:
            p = schubertpy.Partition(list(lam))
            need(ok, lambda: f"Partition({lam}) is accepted")
            need(p.partition == lam and str(p) == str(lam), lambda: f"Partition({lam}) is {p}")
        except ValueError:
            need(not ok, lambda: f"Partition({lam}) is rejected")


@st.composite
def skews(draw, tier):
    mu = draw(parts(6, 8))
    if draw(st.integers(0, 3)):
        lam = []
        for x in mu:
            lam.append(min(x, draw(st.integers(0, x)), lam[-1] if lam else 99))
        lam = lam + [0] * draw(st.integers(0, 1))
    else:
        lam = draw(parts(6, 8))
    return [lam, mu]


def check_skew(case):
    lam, mu = case
    n = max(len(lam), len(mu))
    a, b = lam + [0] * (n - len(lam)), mu + [0] * (n - len(mu))
    w = f"skew_partition_height({lam}, {mu})"
    l2, m2 = list(lam), list(mu)
    try:
        r = skew_partition_height(l2, m2)
    except ValueError:
        need(any(x > y for x, y in zip(a, b)), lambda: f"{w} raised ValueError although {lam} is contained in {mu}")
        return
    except Exception as e:
        need(False, f"{w} raised {type(e).__name__}: {e}")
    need((l2, m2) == (lam, mu), f"{w} changed its arguments")
    need(all(x <= y for x, y in zip(a, b)), lambda: f"{w} = {r}, expected ValueError")
    want = sum(1 for x, y in zip(a, b) if y > x)
    need(r == want, lambda: f"{w} = {r}, expected {want}")


PARTS = [
    Part("basic", check_basic, 8000, 20000, strategy=lambda tier: st.tuples(parts(), st.integers(0, 4)).map(list), nontrivial=lambda c: len(set(x for x in c[0] if x)) > 1),
    Part("enumeration", check_gen, 1600, 3000, strategy=lambda tier: parts(4, 6).filter(len), nontrivial=lambda c: len(set(x for x in c if x)) > 1),
    Part("k-strict", check_strict, 1600, 1000, cases=strict_cases, nontrivial=lambda c: c[1] > 1 and c[2] > c[0] > 0, size=lambda c: c[1] * c[2]),
    Part("valid", check_valid, 6400, 15000, strategy=lambda tier: st.tuples(LISTS, st.integers(0, 5).map(lambda x: x == 0)).map(list), nontrivial=lambda c: len(c[0]) > 1),
    Part("skew height", check_skew, 6400, 15000, strategy=skews, nontrivial=lambda c: any(c[0]) and any(c[1])),
    Part("same list", check_same_list, 800, 6000, strategy=lambda tier: st.lists(st.one_of(parts(), parts(4, 4)), min_size=2, max_size=5), nontrivial=lambda c: len({tuple(x) for x in c}) > 1),
]
