"""Answers do not depend on history, on other live spaces, on the hash seed or on threads."""
import json
import os
import random
import subprocess
import sys
import threading
import time
from fractions import Fraction

import gens
import poly
import ref
import refring
from core import NSHARDS, Part, child_env, python  # noqa: F401
from gens import st
from lib import LinearCombination, REPO, Schur, exact, expect, fmt, make, name, need, schubertpy, sut, text
from schubertpy import qcalc

RULE = ("history: 2 to 4 live spaces (most with the same k or the same classes; some are clones of others) and 6 to 14 operations (products, powers, Pieri, Giambelli, duals, symbols, listings, swaps, rim hooks) interleaved over them, one step in three a repetition of an earlier question to another space; "
        "after every step the answer must be the reference answer, the arguments unchanged, and at the end every earlier answer must still read the same, a repeated step gives the same answer, and emptying a returned listing or the "
        "caller's own list changes nothing; lists padded with zeros stay as they are. hash seed: the same batch of operations in two fresh interpreters with different PYTHONHASHSEED prints the same text. "
        "threads: the same operations from several threads sharing the spaces, with a tiny switch interval, must all give the reference answer. Non-trivial: at least two different spaces and two operations on each of two of them.")
ASSUMPTIONS = ["threads: schedules are whatever the interpreter produces with a 1-10 microsecond switch interval; they are sampled, not enumerated"]

OPS = ["mult", "qmult", "mult", "qmult", "pieri", "qpieri", "giambelli", "qgiambelli", "toS", "qtoS", "dualize", "part2index", "listing", "miami_swap", "type_swap", "qmult_rh", "sum", "tools", "pair", "bad", "power", "qpower", "padded"]
FORMS = ["text", "list", "schur", "lc"]


def kof(sp):
    return refring.params(*sp)[0]


@st.composite
def world(draw, tier, nobj=4, nsteps=14, mx=20):
    pool = gens.space_list(mx, full=True)
    first = draw(gens.spaces(mx, full=True, minn=4))
    objs = [[first, -1]]
    for _ in range(draw(st.integers(1, nobj - 1))):
        how = draw(st.integers(0, 5))
        if how == 0:
            j = draw(st.integers(0, len(objs) - 1))
            objs.append([objs[j][0], j])             # clone
        elif how == 1:
            objs.append([draw(st.sampled_from([o[0] for o in objs])), -1])
        elif how <= 3:
            objs.append([draw(st.sampled_from([s for s in pool if kof(s) == kof(first)])), -1])
        elif how == 4:
            same = [s for s in pool if s[0] == first[0]]
            twins = [s for s in same if kof(s) == kof(first)]
            objs.append([draw(st.sampled_from(draw(st.sampled_from([same, twins, twins])))), -1])
        else:
            objs.append([draw(gens.spaces(mx, full=True)), -1])
    steps = []
    for _ in range(draw(st.integers(6, nsteps))):
        i = draw(st.integers(0, len(objs) - 1))
        sp = objs[i][0]
        op = draw(st.sampled_from(OPS))
        if op == "qmult_rh" and sp[0] != "A":
            op = "qmult"
        p = draw(st.sampled_from([p for p, _ in gens.generators_of(sp)]))
        steps.append([i, op, p, draw(gens.klass(sp)), draw(gens.klass(sp)), draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))])
    # classes shared between spaces: often reuse an earlier class where it exists
    for t in range(1, len(steps)):
        if draw(st.booleans()):
            c = steps[draw(st.integers(0, t - 1))][3]
            if tuple(c) in ref.ring(*objs[steps[t][0]][0]).idx:
                steps[t][3] = c
    # the same question put to another space
    for t in range(1, len(steps)):
        if draw(st.integers(0, 2)) == 0:
            _, op, p, u, v, fu, fv = steps[draw(st.integers(0, t - 1))]
            sp = objs[steps[t][0]][0]
            R = ref.ring(*sp)
            if tuple(u) in R.idx and tuple(v) in R.idx and p in [x for x, _ in gens.generators_of(sp)] and (op != "qmult_rh" or sp[0] == "A"):
                steps[t] = [steps[t][0], op, p, u, v, fu, fv]
    return [objs, steps]


def form(c, how):
    if how == "text":
        return fmt(c)
    if how == "list":
        return list(c)
    if how == "schur":
        l = list(c)
        x = Schur(l)
        l.insert(0, 77)  # the caller goes on using the list
        return x
    return LinearCombination(fmt(c))


def snap(x):
    return ("list", list(x)) if isinstance(x, list) else (type(x).__name__, str(x))


def swap_class(sp, c):
    k = kof(sp)
    if sp[0] != "D" or k not in c:
        return tuple(c)
    return tuple(c[:-1]) if c[-1] == 0 else tuple(c) + (0,)


def miami_class(sp, c):
    k = kof(sp)
    if sum(1 for x in c if x > k) % 2 == 0:
        return tuple(c)
    return swap_class(sp, c)


class NotAValue:
    pass


def spoil(classes):
    for c in classes:
        c.partition().append(7)
    classes.reverse()
    del classes[::2]
    classes.append(Schur([99]))


def tools(sp, u, v):
    """Functions outside the spaces; every list handed out is then overwritten by the caller."""
    cu = [x for x in u if x]
    w = f"part_conj({cu})"
    c = sut(qcalc.part_conj, list(cu), what=w)
    need(list(c) == [sum(1 for x in cu if x > i) for i in range(cu[0] if cu else 0)], lambda: f"{w} = {c}")
    c.append(99)
    k, (rows, cols) = kof(sp), refring.box(*sp)
    if sp[0] != "A" and rows and cols >= k:
        w = f"all_kstrict({k}, {rows}, {cols})"
        r = sut(qcalc.all_kstrict, k, rows, cols, what=w)
        want = sorted(p for p in refring.partitions_in_box(rows, cols) if refring.is_kstrict(p, k))
        need(sorted(tuple(x) for x in r) == want, lambda: f"{w} = {r}")
        for x in r:
            x.append(99)
        del r[::2]
    t = f"{fmt(u)} + 2*q*{fmt(v)}" if u != v else f"2*{fmt(u)}"
    w = f"LinearCombination({t!r}).schur_expansion()"
    e = sut(sut(LinearCombination, t).schur_expansion, what=w)
    e = [e] if isinstance(e, tuple) else e
    got = {(tuple(x), str(a)) for a, x in e}
    need(got == ({(u, "1"), (v, "2*q")} if u != v else {(u, "2")}), lambda: f"{w} = {e}")
    for a, x in e:
        x.append(99)
    del e[::2]
    if cu:
        m, N = len(cu), cu[0] + len(cu) - 1
        w = f"Partition({cu}).remove_rim_hooks({N}, ({m - 1}, {cu[0]}))"
        arg = list(cu)
        h, n, ht = sut(sut(schubertpy.Partition, arg).remove_rim_hooks, N, (m - 1, cu[0]), what=w)
        want = [x - 1 for x in cu[1:] if x > 1]
        need(n == 1 and ht == m and h.partition == want, lambda: f"{w} = {h}, {n}, {ht}; expected {want}, 1, {m}")
        h.partition.append(99)
        need(arg == cu, lambda: f"{w} changed its partition")
        if sum(cu) <= 5:
            w = f"S{cu}.to_polinomial_str(2)"
            x = sut(Schur(list(cu)).to_polinomial_str, 2, what=w)
            l = (cu + [0])[:2]
            want = poly.Poly({}) if len(cu) > 2 else poly.Poly({tuple((f"x{i + 1}", d) for i, d in enumerate((l[1] + j, l[0] - j)) if d): Fraction(1) for j in range(l[0] - l[1] + 1)})
            need(poly.parse(x) == want, lambda: f"{w} = {x}; expected {want}")
    return None


def step(objs, g, sp, s):
    """Run one step; returns the result after comparing it with the reference."""
    _, op, p, u, v, fu, fv = s
    R = ref.ring(*sp)
    one = {(): 1}
    u, v = tuple(u), tuple(v)
    a, b = form(u, fu), form(v, fv)
    before = snap(a), snap(b)
    zero = (0,) * R.nq
    vu, vv = {(u, zero): Fraction(1)}, {(v, zero): Fraction(1)}
    nm = name(*sp)
    if op == "padded":
        # a list the caller padded with zeros: whatever the answer, the list stays as it is
        w = f"{nm}: lists with trailing zeros"
        f = {"part2pair": g.part2pair, "miami_swap": g.miami_swap, "part2index": g.part2index, "dualize": g.dualize, "index2part": g.index2part, "schub_type": g.schub_type,
             "pieri": lambda x: g.pieri(p, x), "qpieri": lambda x: g.qpieri(p, x), "mult": lambda x: g.mult(x, b), "qmult": lambda x: g.qmult(b, x), "type_swap": lambda x: g.type_swap(x, kof(sp))}
        for q, h in f.items():
            x = [y for y in u if y] + [0] * (1 + p % 2)
            keep = list(x)
            try:
                h(x)
            except Exception:
                pass
            need(x == keep, lambda: f"{nm}.{q} changed the list {keep} it was given to {x}")
        r = None
    elif op in ("mult", "qmult", "qmult_rh"):
        w = f"{nm}.{op}({fmt(u)}, {fmt(v)})"
        r = sut(getattr(g, op), a, b, what=w)
        expect(r, R.prod_poly(u, v, op != "mult"), w)
    elif op in ("pieri", "qpieri"):
        w = f"{nm}.{op}({p}, {fmt(u)})"
        spec = dict((i, tuple(c)) for i, c in gens.generators_of(sp))[p]
        r = sut(getattr(g, op), p, a, what=w)
        expect(r, R.prod_poly(spec, u, op == "qpieri"), w)
    elif op in ("giambelli", "qgiambelli"):
        w = f"{nm}.{op}({fmt(u)})"
        r = sut(getattr(g, op), a, what=w)
        got = R.evaluate(exact(r, w), R.one(), op == "qgiambelli")
        need(got == vu, lambda: f"{w} = {r}, which evaluates to {R.to_poly(got)}")
    elif op in ("toS", "qtoS"):
        t = f"{fmt(u)}*{fmt(v)} - 2*{fmt(u)}"
        w = f"{nm}.{op}({t!r})"
        r = sut(getattr(g, op), t, what=w)
        expect(r, R.prod_poly(u, v, op == "qtoS") - R.to_poly(vu) * 2, w)
    elif op in ("power", "qpower"):
        spec = dict((i, tuple(c)) for i, c in gens.generators_of(sp))[p]
        e = 2 + len(u)
        t = f"{fmt(spec)}^{e}"
        f = g.toS if op == "power" else g.qtoS
        w = f"{nm}.{f.__name__}({t!r})"
        r = sut(f, t, what=w)
        cur = R.one()
        for _ in range(e):
            cur = R.mulv(cur, {(spec, zero): Fraction(1)}, op == "qpower")
        expect(r, R.to_poly(cur), w)
    elif op == "dualize":
        w = f"{nm}.dualize({fmt(u)})"
        r = sut(g.dualize, a, what=w)
        expect(r, poly.S(ref.dual(*sp, u)), w)
    elif op == "part2index":
        w = f"{nm}.part2index({fmt(u)})"
        r = sut(g.part2index, a, what=w)
        expect(r, poly.S(refring.symbol(*sp, u)), w)
    elif op == "miami_swap":
        w = f"{nm}.miami_swap({fmt(u)})"
        r = sut(g.miami_swap, a, what=w)
        expect(r, poly.S(miami_class(sp, u) if sp[0] == "D" else u), w)
    elif op == "type_swap":
        w = f"{nm}.type_swap({fmt(u)})"
        r = sut(g.type_swap, a, kof(sp), what=w)
        expect(r, poly.S(swap_class(sp, u)), w)
    elif op == "bad":
        # an operation that fails part of the way must leave no trace
        w = f"{nm}: failing calls"
        for f in (g.mult, g.qmult, g.act, g.qact) + ((g.qmult_rh,) if sp[0] == "A" else ()):
            for x, y in ((a, NotAValue()), (a, "S[("), (NotAValue(), a)):
                try:
                    f(x, y)
                except Exception:
                    pass
        r = None
    elif op == "pair":
        w = f"{nm}.part2pair({fmt(u)})"
        if sp[0] == "A":
            try:
                g.part2pair(a)
            except Exception:
                pass
            r = None
        else:
            r = sut(g.part2pair, a, what=w)
            back = sut(g.pair2part, r, what=f"{nm}.pair2part({r})")
            expect(back, poly.S(u), f"{nm}.pair2part({w})")
    elif op == "tools":
        w = f"tools on {fmt(u)}, {fmt(v)}"
        r = tools(sp, u, v)
    elif op == "sum":
        w = f"{fmt(u)} + 2*{fmt(v)}"
        r = LinearCombination(a) + 2 * LinearCombination(b)
        expect(r, poly.S(u) + poly.S(v) * 2, w)
    else:
        w = f"{nm}.schub_classes()"
        r = sut(g.schub_classes, what=w)
        need(sorted(tuple(c.partition()) for c in r) == sorted(R.cls), lambda: f"{w} = {r}")
        q = sut(g.generators, what=f"{nm}.generators()")
        need(sorted(tuple(c.partition()) for c in q) == sorted(c for _, c in refring.special(*sp)), lambda: f"{nm}.generators() = {q}")
        need(tuple(sut(g.point_class).partition()) == ref.point(*sp), lambda: f"{nm}.point_class() = {g.point_class()}")
        need(g.degree_q() == ref.degq(*sp), lambda: f"{nm}.degree_q() = {g.degree_q()}")
        td = sut(g.get_type_data, what=f"{nm}.get_type_data()")
        need(list(td)[4:] == [sp[1], sp[2], ref.degq(*sp)], lambda: f"{nm}.get_type_data() = {td}")
        if isinstance(td, list):
            td[4:] = [1, 1, 1]
        # the caller does what it likes with the lists it received
        spoil(r)
        spoil(q)
        spoil([sut(g.point_class)])
        r = None
    need((snap(a), snap(b)) == before, lambda: f"{w} changed its argument: {before} became {snap(a), snap(b)}")
    if isinstance(a, list):
        a[:] = [9, 9]           # what the caller does with its own list afterwards
    return w, r


def build(objs):
    out = []
    for sp, j in objs:
        out.append(sut(make, *sp) if j < 0 else sut(out[j].clone, what=f"{name(*sp)}.clone()"))
    return out


def check_history(case):
    objs, steps = case
    live = build(objs)
    kept = []
    for s in steps:
        w, r = step(objs, live[s[0]], objs[s[0]][0], s)
        if r is not None:
            kept.append((w, r, text(r)))
    for w, r, t in kept:
        need(text(r) == t, lambda: f"the answer of {w} read {t} at first and {text(r)} after later operations")
    for s in steps[::-1]:
        step(objs, live[s[0]], objs[s[0]][0], s)


def nt(case):
    objs, steps = case
    from collections import Counter
    n = Counter(s[0] for s in steps)
    return len({tuple(o[0]) for o in objs}) > 1 and sum(1 for v in n.values() if v >= 2) >= 2


# ---- hash seed
PROG = r"""
import json, sys
sys.path.insert(0, sys.argv[2])
import lib
out = []
for sp, ops in json.load(open(sys.argv[1])):
    g = lib.make(*sp)
    row = [str(g.schub_classes()), str(g.generators()), str(g.point_class()), str(g)]
    for op, p, u, v in ops:
        f = getattr(g, op)
        if op in ("pieri", "qpieri"):
            row.append(str(f(p, list(u))))
        elif op in ("mult", "qmult", "qmult_rh"):
            row.append(str(f(list(u), list(v))))
        elif op in ("toS", "qtoS"):
            row.append(str(f(lib.fmt(u) + "*" + lib.fmt(v) + "+" + lib.fmt(v))))
        else:
            row.append(str(f(lib.fmt(u) + "-2*" + lib.fmt(v))))
    out.append(row)
print(json.dumps(out))
"""


@st.composite
def batches(draw, tier):
    out = []
    for _ in range(16):
        sp = draw(gens.wide_spaces(maxA=8, maxr=5))
        cl = gens.small_class(sp, 6)
        ops = []
        for _ in range(6):
            op = draw(st.sampled_from(["mult", "qmult", "pieri", "qpieri", "qpieri", "giambelli", "qgiambelli", "toS", "qtoS", "dualize"]))
            wide = gens.wide_class(sp) if "pieri" in op else cl
            ops.append([op, draw(st.sampled_from([p for p, _ in gens.generators_of(sp)])), draw(wide), draw(cl)])
        out.append([sp, ops])
    return [draw(st.integers(1, 4_000_000_000)), out]


def check_seed(case):
    import tempfile
    seed, batch = case
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    outs = []
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "batch.json")
        json.dump(batch, open(f, "w"))
        for hs in ("0", str(seed)):
            env = child_env()
            env["PYTHONHASHSEED"] = hs
            env["SCHUBERT_REPO"] = REPO
            p = subprocess.run([python(), "-B", "-c", PROG, f, here], env=env, capture_output=True, text=True, cwd=tmp)
            need(p.returncode == 0, lambda: f"with PYTHONHASHSEED={hs}: {p.stderr[-600:]}")
            outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for (sp, ops), a, b in zip(batch, *outs):
        for i, (x, y) in enumerate(zip(a, b)):
            op = ["schub_classes", "generators", "point_class", "str"][i] if i < 4 else ops[i - 4]
            need(x == y, lambda: f"{name(*sp)} {op}: {x!r} with PYTHONHASHSEED=0, {y!r} with {seed}")


# ---- threads
def check_threads(case):
    (objs, steps), order_seed = case
    live = build(objs)
    errors = []
    old = sys.getswitchinterval()
    nthreads = 4
    barrier = threading.Barrier(nthreads)

    def work(t):
        mine = list(steps)
        random.Random(order_seed * 10 + t).shuffle(mine)
        barrier.wait()
        try:
            for s in mine:
                step(objs, live[s[0]], objs[s[0]][0], s)
        except BaseException as e:
            errors.append(e)
    ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nthreads)]
    sys.setswitchinterval(1e-6 * (1 + order_seed % 10))
    try:
        for t in ths:
            t.start()
        idle = 0
        while any(t.is_alive() for t in ths):
            cpu = time.process_time()
            for t in ths:
                t.join(2.5)
            # ten seconds and more without using the processor, twelve times in a row: a deadlock
            idle = idle + 1 if time.process_time() - cpu < 0.05 else 0
            need(idle < 12, f"with {nthreads} threads: no thread makes progress (deadlock)")
    finally:
        sys.setswitchinterval(old)
    if errors:
        need(False, f"with {nthreads} threads: {errors[0]}")


PARTS = [
    Part("history", check_history, 480, 6000, strategy=lambda tier: world(tier), nontrivial=nt,
         label=lambda c: sorted({"clone" if j >= 0 else f"type {sp[0]}" for sp, j in c[0]})),
    Part("threads", check_threads, 64, 800, strategy=lambda tier: st.tuples(world(tier, 3, 8, 12), st.integers(0, 10 ** 6)).map(list), nontrivial=lambda c: nt(c[0]) or len(c[0][1]) >= 6),
    Part("hash seed", check_seed, 8, 120, strategy=batches),
]
