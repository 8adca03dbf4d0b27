"""Rim hook removal and grid membership on partitions."""
import gens
from core import Part
from gens import st
from lib import need, sut
from schubertpy import Partition

RULE = ("Random partitions (up to 9 rows of length up to 14) that do not fit a random grid, with hook size rows+columns (as the rim-hook algorithm uses it) or any other size. "
        "Oracle: the n-core, the number of hooks and the sign, computed on first-column hook lengths (beads). If the core does not fit the grid the answer must be empty/zero with no hooks; "
        "otherwise the answer fits the grid, is reached from the input by removing exactly the reported number of hooks, and the reported total height has the parity fixed by the bead permutation. "
        "The argument is never modified. one object: several removals and grid questions put to one Partition, in random order. grid: is_in_range against the definition. invalid: non-partitions are rejected. Non-trivial: at least one hook is removed.")


def partitions(rows, cols):
    return st.lists(st.integers(1, cols), min_size=1, max_size=rows).map(lambda l: sorted(l, reverse=True))


def beads(lam, length):
    lam = list(lam) + [0] * (length - len(lam))
    return [lam[i] + (length - 1 - i) for i in range(length)]


def core_of(lam, n):
    """(core, number of hooks, parity of the sum of leg lengths)"""
    L = len(lam)
    b = beads(lam, L)
    # each move of a bead down by n passes some beads: that number is the leg length
    w = par = 0
    b = sorted(b)
    moved = True
    while moved:
        moved = False
        for x in list(b):
            if x >= n and x - n not in b:
                par += sum(1 for y in b if x - n < y < x)
                b.remove(x); b.append(x - n)
                w += 1
                moved = True
                break
    b = sorted(b, reverse=True)
    core = [b[i] - (L - 1 - i) for i in range(L)]
    return [x for x in core if x], w, par % 2


def fits(lam, grid):
    return len(lam) <= grid[0] and (not lam or lam[0] <= grid[1])


@st.composite
def cases(draw, tier):
    nr, nc = draw(st.integers(1, 6)), draw(st.integers(1, 7))
    lam = draw(partitions(9, 14))
    while fits(lam, (nr, nc)):
        lam = [lam[0] + draw(st.integers(nc, nc + 4))] + lam[1:]
    exact_size = draw(st.booleans()) or draw(st.booleans())
    rim = nr + nc if exact_size else draw(st.integers(1, 16))
    return [lam, rim, [nr, nc]]


@st.composite
def hooked(draw, tier):
    """start from a partition inside the grid and add rim hooks, so that the core fits"""
    nr, nc = draw(st.integers(1, 5)), draw(st.integers(1, 6))
    n = nr + nc if draw(st.integers(0, 3)) else draw(st.integers(1, 9))
    lam = sorted(draw(st.lists(st.integers(0, nc), min_size=nr, max_size=nr)), reverse=True)
    L = nr + 2 * n
    b = beads(lam, L)
    for _ in range(draw(st.integers(1, 3))):
        movable = [x for x in sorted(b, reverse=True) if x + n not in b]
        x = movable[draw(st.integers(0, len(movable) - 1)) if draw(st.booleans()) else min(draw(st.integers(0, nr)), len(movable) - 1)]
        b.remove(x)
        b.append(x + n)
    b.sort(reverse=True)
    lam = [y for y in (b[i] - (L - 1 - i) for i in range(L)) if y]
    if not lam or fits(lam, (nr, nc)):
        lam = [nc + n] + lam[1:]
    return [lam, n, [nr, nc]]


def check(case):
    lam, rim, grid = case
    arg = list(lam)
    P = sut(Partition, arg, what=f"Partition({lam})")
    ask(P, arg, lam, rim, grid)


@st.composite
def several(draw, tier):
    """One object, several questions."""
    lam, rim, grid = draw(st.one_of(cases(tier), hooked(tier)))
    qs = [[rim, grid]]
    for _ in range(draw(st.integers(1, 4))):
        nr, nc = draw(st.integers(0, 7)), draw(st.integers(0, 9))
        if draw(st.booleans()):
            nr, nc = grid[0] + draw(st.integers(-1, 1)), grid[1] + draw(st.integers(-1, 1))
        if nr < 0 or nc < 0 or fits(lam, (nr, nc)):
            nr, nc = 0, 0
        qs.append([draw(st.sampled_from([rim, rim, rim + 1, max(1, nr + nc), 2, 1])), [nr, nc]])
    return [lam, draw(st.permutations(qs))]


def check_several(case):
    lam, qs = case
    arg = list(lam)
    P = sut(Partition, arg, what=f"Partition({lam})")
    for rim, grid in qs + qs[:1]:
        ask(P, arg, lam, rim, grid)
        got = sut(P.is_in_range, *grid, what=f"Partition({lam}).is_in_range{tuple(grid)}")
        need(got is fits(lam, grid), lambda: f"Partition({lam}).is_in_range{tuple(grid)} = {got}")


def ask(P, arg, lam, rim, grid):
    w = f"Partition({lam}).remove_rim_hooks({rim}, {tuple(grid)})"
    r = sut(P.remove_rim_hooks, rim, tuple(grid), what=w)
    need(arg == lam and list(P.partition) == lam, lambda: f"{w} changed the partition to {P.partition}")
    need(isinstance(r, tuple) and len(r) == 3, lambda: f"{w} = {r!r}")
    res, q, h = r
    out = [] if not isinstance(res, Partition) else list(res.partition)
    need(isinstance(res, Partition) or res == 0, lambda: f"{w} = {r!r}")
    core, total, par = core_of(lam, rim)
    if not fits(core, grid):
        need(out == [] and q == 0, lambda: f"{w} = {r!r}, but no removal of {rim}-rim hooks fits the grid (core {core})")
        return
    need(fits(out, grid), lambda: f"{w} = {r!r} does not fit the grid")
    need(q >= 1 and sum(out) == sum(lam) - q * rim, lambda: f"{w} = {r!r}: {q} hooks of size {rim} do not take {sum(lam)} boxes to {sum(out)}")
    need(all(a >= b > 0 for a, b in zip(out, out[1:] + [out[-1]] if out else [])), lambda: f"{w} = {r!r} is not a partition")
    core2, rest, par2 = core_of(out, rim) if out else ([], 0, 0)
    need(core2 == core and rest == total - q, lambda: f"{w} = {r!r}, which {q} rim hooks cannot reach (core {core}, {total} hooks)")
    need((h - q - (par - par2)) % 2 == 0, lambda: f"{w} reports total height {h} for {q} hooks; the parity of the legs must be {(par - par2) % 2}")
    need(q <= h <= q * rim, lambda: f"{w} reports total height {h} for {q} hooks")
    if rim >= grid[0] + grid[1]:
        need(out == core and q == total, lambda: f"{w} = {r!r}, expected the core {core} after {total} hooks")


@st.composite
def grids(draw, tier):
    lam = draw(st.one_of(st.just([]), partitions(7, 9)))
    return [lam, draw(st.integers(0, 8)), draw(st.integers(0, 10))]


def check_grid(case):
    lam, nr, nc = case
    P = sut(Partition, list(lam))
    got = sut(P.is_in_range, nr, nc, what=f"Partition({lam}).is_in_range({nr},{nc})")
    need(got is fits(lam, (nr, nc)), lambda: f"Partition({lam}).is_in_range({nr},{nc}) = {got}")
    for a, b in ((-1 - nr, nc), (nr, -1 - nc)):
        try:
            r = P.is_in_range(a, b)
        except ValueError:
            continue
        except Exception as e:
            need(False, lambda: f"Partition({lam}).is_in_range({a},{b}) raised {type(e).__name__}")
        need(False, lambda: f"Partition({lam}).is_in_range({a},{b}) = {r}, expected a ValueError")


@st.composite
def lists(draw, tier):
    return draw(st.lists(st.one_of(st.integers(-2, 9), st.sampled_from([1.5, "2", None])), max_size=6)) if draw(st.booleans()) else \
        sorted(draw(st.lists(st.integers(0, 9), max_size=6)), reverse=True)


def check_valid(case):
    good = all(isinstance(x, int) and x >= 0 for x in case) and all(a >= b for a, b in zip(case, case[1:]))
    try:
        P = Partition(list(case))
        got = True
    except ValueError:
        got = False
    except Exception as e:
        need(False, lambda: f"Partition({case}) raised {type(e).__name__}: {e}")
    need(got == good, lambda: f"Partition({case}) was {'accepted' if got else 'rejected'}")
    if got:
        need(list(P.partition) == case, lambda: f"Partition({case}).partition = {P.partition}")
        need(str(P).replace(" ", "") == str(case).replace(" ", ""), lambda: f"str(Partition({case})) = {P}")


def nt(case):
    lam, rim, grid = case
    core, w, _ = core_of(lam, rim)
    return w > 0 and fits(core, grid)


def lab(case):
    lam, rim, grid = case
    core, w, _ = core_of(lam, rim)
    return [f"hooks {min(w, 5)}" if fits(core, grid) else "core does not fit", "hook size = rows+cols" if rim == sum(grid) else "other hook size"]


PARTS = [
    Part("random", check, 12000, 60000, strategy=cases, nontrivial=nt, label=lab),
    Part("hooked", check, 12000, 60000, strategy=hooked, nontrivial=nt, label=lab),
    Part("one object", check_several, 2400, 12000, strategy=several, nontrivial=lambda c: len({str(q) for q in c[1]}) > 1),
    Part("grid", check_grid, 3600, 10000, strategy=grids, nontrivial=lambda c: bool(c[0])),
    Part("valid", check_valid, 3600, 10000, strategy=lists, nontrivial=lambda c: len(c) > 1),
]
