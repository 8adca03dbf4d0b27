"""C01 / C02: products against the reference ring."""
from fractions import Fraction

import charprops
import farprops
import gens
import ref
from core import Part
from gens import st
from lib import G, LinearCombination, Schur, exact, expect, fmt, name, need, sut


def ops(g, quantum):
    return (g.qmult, g.qtoS, "qmult", "qtoS") if quantum else (g.mult, g.toS, "mult", "toS")


def pair_cases(quantum):
    def cases(tier):
        out = []
        for tp, m, N, n, full in ref.spaces():
            if n > (84 if tier == "quick" else 200):
                continue
            R = ref.ring(tp, m, N)
            prs = R.pairs()
            if not quantum:       # most products of two classes vanish in H*: keep one in ten of those
                prs = [(u, v) for i, (u, v) in enumerate(prs) if i % 10 == 0 or R.prod(u, v, False)]
            # weight: no space contributes more than `cap` pairs, so that small and large spaces are both sampled
            cap = 200 if tier == "quick" else 2000
            if len(prs) > cap:
                step = len(prs) / cap
                prs = [prs[int(i * step)] for i in range(cap)]
            out += [[[tp, m, N], list(u), list(v)] for u, v in prs]
        return out
    return cases


def check_pair(quantum):
    def check(case):
        sp, u, v = case
        g, R = G(*sp), ref.ring(*sp)
        mul, _, nm, _ = ops(g, quantum)
        for a, b in ((u, v),) if u == v else ((u, v), (v, u)):
            r = sut(mul, Schur(list(a)), Schur(list(b)), what=f"{name(*sp)}.{nm}({fmt(a)}, {fmt(b)})")
            expect(r, R.prod_poly(tuple(u), tuple(v), quantum), f"{name(*sp)}.{nm}({fmt(a)}, {fmt(b)})")
    return check


def combo_strategy(quantum):
    def strat(tier):
        mx = 24 if tier == "quick" else 36
        return gens.spaces(mx, full=True).flatmap(lambda sp: st.tuples(
            st.just(sp), gens.lincomb(sp, 3, minterms=1), gens.lincomb(sp, 3)).map(list))
    return strat


def check_combo(quantum):
    def check(case):
        sp, x, y = case
        g, R = G(*sp), ref.ring(*sp)
        mul, _, nm, _ = ops(g, quantum)
        n = R.nq
        tx, ty = gens.spell_terms(x, n), gens.spell_terms(y, n)
        r = sut(mul, tx, ty, what=f"{name(*sp)}.{nm}({tx!r}, {ty!r})")
        expect(r, R.to_poly(R.mulv(gens.vec(x), gens.vec(y), quantum)), f"{name(*sp)}.{nm}({tx!r}, {ty!r})")
    return check


def tos_strategy(quantum):
    def strat(tier):
        mx = 24 if tier == "quick" else 36
        return gens.spaces(mx, full=True).flatmap(lambda sp: st.tuples(
            st.just(sp), gens.monomials(sp, gens.klass(sp), 2, 3, nonunit=True)).map(list))
    return strat


def factored_strategy(quantum):
    """A product of sums, not multiplied out: as an argument of toS, and as the first factor of a product."""
    def strat(tier):
        @st.composite
        def f(draw):
            sp = draw(gens.spaces(16 if tier == "quick" else 30, full=True))
            k = draw(st.integers(2, 3))
            return [sp, [draw(gens.monomials(sp, gens.klass(sp), 2 if k == 3 else 3, 1)) for _ in range(k)], draw(gens.lincomb(sp, 2, minterms=1)), draw(st.integers(1, 2))]
        return f()
    return strat


def mono_vec(R, monos, quantum):
    out, n = {}, R.nq
    for a, b, d, cs in monos:
        cur = {((), tuple(d)): Fraction(a, b)}
        for c in cs:
            cur = R.mulv(cur, {(tuple(c), (0,) * n): Fraction(1)}, quantum)
        for k, v in cur.items():
            out[k] = out.get(k, 0) + v
    return out


def check_factored(quantum):
    def check(case):
        sp, fs, y, e = case
        g, R = G(*sp), ref.ring(*sp)
        mul, tos, nm, nt = ops(g, quantum)
        n = R.nq
        t = "*".join(f"({gens.mono_text(f, n)})" + (f"^{e}" if e > 1 and i == 0 else "") for i, f in enumerate(fs))
        cur = {((), (0,) * n): Fraction(1)}
        for f in [fs[0]] * (e - 1) + fs:
            cur = R.mulv(cur, mono_vec(R, f, quantum), quantum)
        r = sut(tos, t, what=f"{name(*sp)}.{nt}({t!r})")
        expect(r, R.to_poly(cur), f"{name(*sp)}.{nt}({t!r})")
        Y = gens.terms_text(y, n)
        r = sut(mul, t, Y, what=f"{name(*sp)}.{nm}({t!r}, {Y!r})")
        expect(r, R.to_poly(R.mulv(cur, gens.vec(y), quantum)), f"{name(*sp)}.{nm}({t!r}, {Y!r})")
    return check


def powers_strategy(quantum):
    def strat(tier):
        return gens.spaces(8 if tier == "quick" else 12, full=True).flatmap(lambda sp: st.tuples(
            st.just(sp), st.tuples(gens.klass(sp).filter(len), st.integers(2, 8 if tier == "quick" else 14), gens.klass(sp)).map(
                lambda t: [[1, 1, [0] * gens.nq(sp), [t[0]] * t[1] + [t[2]]]])).map(list))
    return strat


def check_tos(quantum):
    def check(case):
        sp, monos = case
        g, R = G(*sp), ref.ring(*sp)
        _, tos, _, nm = ops(g, quantum)
        n = R.nq
        t = gens.spell(monos, n)
        want = {}
        for a, b, d, cs in monos:
            cur = {((), tuple(d)): Fraction(a, b)}
            for c in cs:
                cur = R.mulv(cur, {(tuple(c), (0,) * n): Fraction(1)}, quantum)
            for k, v in cur.items():
                want[k] = want.get(k, 0) + v
        r = sut(tos, t, what=f"{name(*sp)}.{nm}({t!r})")
        expect(r, R.to_poly(want), f"{name(*sp)}.{nm}({t!r})")
    return check


def pair_nontrivial(quantum):
    def f(case):
        sp, u, v = case
        R = ref.ring(*sp)
        d = R.prod(tuple(u), tuple(v), quantum)
        return bool(u) and bool(v) and len(d) > 0 and (not quantum or any(any(k[1]) for k in d))
    return f


def pair_label(quantum):
    def f(case):
        sp, u, v = case
        R = ref.ring(*sp)
        d = R.prod(tuple(u), tuple(v), quantum)
        out = [f"type {sp[0]}", f"type {sp[0]} k={R.k if R.k < 3 else '3+'}"]
        if quantum:
            out.append(f"highest q-degree {max([sum(k[1]) for k in d], default=0)}")
        if not d:
            out.append("zero product")
        if any(a > 1 for a in d.values()):
            out.append("a coefficient > 1")
        return out
    return f


def combo_nontrivial(case):
    return len(case[1]) > 0 and len(case[2]) > 0


def tos_nontrivial(case):
    return any(len(m[3]) > 1 for m in case[1])


def parts(quantum):
    return [
        Part("pairs", check_pair(quantum), 2400, 30000, cases=pair_cases(quantum), nontrivial=pair_nontrivial(quantum),
             size=lambda c: len(ref.ring(*c[0]).cls), label=pair_label(quantum)),
        Part("combinations", check_combo(quantum), 800, 6000, strategy=combo_strategy(quantum), nontrivial=combo_nontrivial,
             label=lambda c: f"type {c[0][0]}"),
        Part("polynomials", check_tos(quantum), 640, 5000, strategy=tos_strategy(quantum), nontrivial=tos_nontrivial,
             label=lambda c: f"type {c[0][0]}"),
        Part("powers", check_tos(quantum), 120, 1200, strategy=powers_strategy(quantum), nontrivial=tos_nontrivial,
             label=lambda c: f"type {c[0][0]}"),
        Part("factored", check_factored(quantum), 400, 4000, strategy=factored_strategy(quantum), nontrivial=lambda c: sum(any(m[3] for m in f) for f in c[1]) > 1,
             label=lambda c: f"type {c[0][0]}"),
        farprops.special_part(quantum),
        farprops.maximal_part(quantum),
        charprops.pair_part(quantum),
    ]
