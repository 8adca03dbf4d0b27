"""The reference ring: structure constants (cached in refdata/), evaluation, duals, Chevalley."""
from __future__ import annotations

import functools
import gzip
import json
import os

import refring
from poly import Poly, S
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
QV = {1: ("q",), 2: ("q1", "q2")}


def spaces():
    """Every space with stored structure constants, smallest first: (tp, m, N, #classes, full?)."""
    return _index()


@functools.lru_cache(None)
def _index():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "refdata"))):
        if f.endswith(".json.gz"):
            tp, m, N = f[:-8].split("_")
            n = len(refring.classes(tp, int(m), int(N)))
            out.append((tp, int(m), int(N), n, n <= 36))
    return tuple(sorted(out, key=lambda x: (x[3], x[:3])))


class Ring:
    def __init__(self, tp, m, N):
        self.tp, self.m, self.N = tp, m, N
        with gzip.open(os.path.join(HERE, "refdata", f"{tp}_{m}_{N}.json.gz")) as f:
            d = json.load(f)
        self.nq, self.degq, self.dim, self.full = d["nq"], d["degq"], d["dim"], d["full"]
        self.cls = [tuple(c) for c in d["classes"]]
        self.idx = {c: i for i, c in enumerate(self.cls)}
        self.qv = QV[self.nq]
        self.rows = {}
        for i, j, terms in d["rows"]:
            self.rows[(i, j)] = [(t[0], tuple(t[1:1 + self.nq]), t[1 + self.nq]) for t in terms]
        self.k, self.n = refring.params(tp, m, N)
        self.special = refring.special(tp, m, N)       # (signed degree, class)

    def has(self, u, v):
        return (self.idx[u], self.idx[v]) in self.rows or (self.idx[v], self.idx[u]) in self.rows

    def pairs(self):
        return [(self.cls[i], self.cls[j]) for i, j in self.rows]

    def prod(self, u, v, quantum=True):
        """{(class, dvec): coef}"""
        i, j = self.idx[u], self.idx[v]
        r = self.rows.get((i, j))
        if r is None:
            r = self.rows[(j, i)]
        return {(self.cls[c], d): a for c, d, a in r if quantum or not any(d)}

    def prod_poly(self, u, v, quantum=True):
        return self.to_poly(self.prod(u, v, quantum))

    def to_poly(self, d):
        out = {}
        for (c, dv), a in d.items():
            m = tuple(sorted([(q, e) for q, e in zip(self.qv, dv) if e] + [(("S", c), 1)], key=lambda x: repr(x[0])))
            out[m] = out.get(m, 0) + Fraction(a)
        return Poly(out)

    # vectors: {(class, dvec): Fraction}
    def mulv(self, x, y, quantum=True):
        out = {}
        for (c1, d1), a1 in x.items():
            for (c2, d2), a2 in y.items():
                for (c, d), a in self.prod(c1, c2, quantum).items():
                    k = (c, tuple(p + q + r for p, q, r in zip(d, d1, d2)))
                    out[k] = out.get(k, 0) + a * a1 * a2
        return {k: v for k, v in out.items() if v}

    def from_poly(self, p):
        """linear combination of classes -> vector; None if p is not one"""
        out = {}
        for m, c in p.t.items():
            d, cl = [0] * self.nq, None
            for v, e in m:
                if v in self.qv:
                    d[self.qv.index(v)] = e
                elif isinstance(v, tuple) and e == 1 and cl is None and v[1] in self.idx:
                    cl = v[1]
                else:
                    return None
            if cl is None:
                return None
            out[(cl, tuple(d))] = c
        return out

    def evaluate(self, p, x, quantum=True):
        """p: polynomial in special classes and q's, acting on the vector x (one special class at a time)."""
        out = {}
        zero = (0,) * self.nq
        for m, c in p.t.items():
            cur = dict(x)
            d = [0] * self.nq
            for v, e in m:
                if v in self.qv:
                    d[self.qv.index(v)] += e
                else:
                    for _ in range(e):
                        cur = self.mulv({(v[1], zero): Fraction(1)}, cur, quantum)
            for (cl, dv), a in cur.items():
                k = (cl, tuple(p1 + q1 for p1, q1 in zip(dv, d)))
                out[k] = out.get(k, 0) + a * c
        return {k: v for k, v in out.items() if v}

    def one(self):
        return {((), (0,) * self.nq): Fraction(1)}

    def is_special(self, c):
        return any(c == s for _, s in self.special)


@functools.lru_cache(None)
def ring(tp, m, N):
    return Ring(tp, m, N)


# ------------------------------------------------------------------ formulas valid in every size
def class_of_symbol(tp, m, N, sym):
    """Inverse of refring.symbol (checked against it on every use)."""
    k, n = refring.params(tp, m, N)
    lam = []
    for j in range(1, m + 1):
        p = sym[j - 1]
        if tp == "A":
            lam.append(k + j - p)
        elif tp == "C":
            lam.append(n + k + 1 - p + sum(sym[i - 1] + p > 2 * n + 1 for i in range(1, j)))
        elif tp == "B":
            lam.append(n + k + 1 - p if p <= n else n + k + 2 - p + sum(sym[i - 1] + p > 2 * n + 2 for i in range(1, j)))
        else:
            lam.append(n + k + 1 - p if p <= n + 1 else n + k + 2 - p + sum(sym[i - 1] + p > 2 * n + 3 for i in range(1, j)))
    core = tuple(x for x in lam if x)
    cands = [core, core + (0,)] if tp == "D" and k > 0 and k in core else [core]
    for c in cands:
        if refring.symbol(tp, m, N, c) == tuple(sym):
            return c
    raise AssertionError((tp, m, N, sym, core))


def dual(tp, m, N, lam):
    """The class whose Schubert variety is opposite: P -> N+1-P, with the middle swap in type D, n+1 odd."""
    sym = [N + 1 - p for p in reversed(refring.symbol(tp, m, N, lam))]
    if tp == "D" and (N // 2) % 2:
        h = N // 2
        sym = sorted(h + 1 if p == h else h if p == h + 1 else p for p in sym)
    return class_of_symbol(tp, m, N, sym)


def point(tp, m, N):
    return dual(tp, m, N, ())


def dimension(tp, m, N):
    return sum(point(tp, m, N))


def random_class(draw_int, tp, m, N):
    """A class drawn uniformly-ish via a Schubert symbol; draw_int(lo, hi) supplies the choices."""
    if tp == "A":
        pool, sym = list(range(1, N + 1)), []
        for _ in range(m):
            sym.append(pool.pop(draw_int(0, len(pool) - 1)))
        return class_of_symbol(tp, m, N, tuple(sorted(sym)))
    r = N // 2
    pool, sym = list(range(1, r + 1)), []
    for _ in range(m):
        a = pool.pop(draw_int(0, len(pool) - 1))
        sym.append(a if draw_int(0, 1) else N + 1 - a)
    if tp == "D" and m == r:
        # one component: parity of #{p > r}
        par = lambda s: sum(p > r for p in s) % 2
        want = par(refring.symbol(tp, m, N, ()))
        if par(sym) != want:
            sym[-1] = N + 1 - sym[-1]
    return class_of_symbol(tp, m, N, tuple(sorted(sym)))


class Chevalley:
    """Divisor multiplication from root data, one class at a time (any size)."""

    def __init__(self, tp, m, N):
        self.key = tp, m, N
        self.tp, self.m, self.N = tp, m, N
        r = {"A": N, "B": (N - 1) // 2, "C": N // 2, "D": N // 2}[tp]
        self.r = r
        pos = refring._roots(tp, r)
        om = lambda j: tuple([2] * j + [0] * (r - j))
        if tp in "AC":
            fund = [om(m)]
        elif tp == "B":
            fund = [tuple([1] * r)] if m == r else [om(m)]
        elif m == r:
            fund = [tuple([1] * r)]
        elif m == r - 1:
            fund = [tuple([1] * (r - 1) + [-1]), tuple([1] * r)]
        else:
            fund = [om(m)]
        if tp == "D" and m == r - 1 and r % 2 == 1:
            fund = fund[::-1]
        self.fund, self.nq = fund, len(fund)
        self.omega = tuple(map(sum, zip(*fund)))
        self.outside = [a for a in pos if refring._dot(self.omega, a)]
        self.c1 = {a: sum(refring._pair(g, a) for g in self.outside) for a in self.outside}
        self.posset = set(pos)
        self.h = {a: tuple(refring._pair(f, a) // 2 for f in fund) for a in self.outside}
        self.refl = {a: self._refl(a) for a in self.outside}

    def _refl(self, a):
        r, img = self.r, []
        for i in range(r):
            e = [0] * r; e[i] = 2
            c = refring._pair(tuple(e), a)
            b = [x - c * y for x, y in zip(e, a)]
            (j, x), = [(j, x) for j, x in enumerate(b) if x]
            img.append(j + 1 if x > 0 else -(j + 1))
        return tuple(img)

    def act(self, w, v):
        out = [0] * self.r
        for i, x in enumerate(v):
            if x:
                out[abs(w[i]) - 1] += x if w[i] > 0 else -x
        return tuple(out)

    def rep(self, lam):
        """A signed permutation w with w.omega = the vector of the class."""
        tp, m, N, r = self.tp, self.m, self.N, self.r
        sym = refring.symbol(tp, m, N, lam)
        if tp == "A":
            first = sorted(N + 1 - p for p in sym)
            return tuple(first + [i for i in range(1, r + 1) if i not in first])
        img = []
        for p in sym:
            c = N + 1 - p
            img.append(c if c <= r else -p)
        rest = [i for i in range(1, r + 1) if i not in [abs(x) for x in img]]
        w = img + rest
        if tp == "D":
            if m == r:
                if r % 2:                       # same normalisation as refring.Space._vec
                    j = [abs(x) for x in w].index(r)
                    w[j] = -w[j]
            if sum(x < 0 for x in w) % 2:
                if m == r:
                    raise AssertionError((self.key, lam, w))
                w[-1] = -w[-1]
        return tuple(w)

    def cls(self, w):
        v = self.act(w, self.omega)
        tp, m, N, r = self.tp, self.m, self.N, self.r
        if tp == "A":
            return class_of_symbol(tp, m, N, tuple(sorted(N - i for i, x in enumerate(v) if x)))
        v = list(v)
        if tp == "D" and m == r and r % 2:
            v[-1] = -v[-1]
        sym = []
        for i, x in enumerate(v):
            if x > 0:
                sym.append(N + 1 - (i + 1))
            elif x < 0:
                sym.append(i + 1)
        return class_of_symbol(tp, m, N, tuple(sorted(sym)))

    def length(self, w):
        return sum(self.act(w, a) not in self.posset for a in self.outside)

    def divisor(self, lam, which=0, quantum=True):
        """{(class, dvec): coef} of (divisor number `which`) * lam."""
        w = self.rep(lam)
        lw = self.length(w)
        assert lw == sum(lam), (self.key, lam, w, lw)
        out = {}
        for a in self.outside:
            h = self.h[a][which]
            if not h:
                continue
            s = self.refl[a]
            w2 = tuple((w[abs(x) - 1] if x > 0 else -w[abs(x) - 1]) for x in s)
            l2 = self.length(w2)
            if l2 == lw + 1:
                d = (0,) * self.nq
            elif quantum and l2 == lw + 1 - self.c1[a]:
                d = self.h[a]
            else:
                continue
            c = self.cls(w2)
            out[(c, d)] = out.get((c, d), 0) + h
        return out


@functools.lru_cache(None)
def chevalley(tp, m, N):
    return Chevalley(tp, m, N)


def vec_poly(d, nq):
    qv = QV[nq]
    out = {}
    for (c, dv), a in d.items():
        m = tuple(sorted([(q, e) for q, e in zip(qv, dv) if e] + [(("S", c), 1)], key=lambda x: repr(x[0])))
        out[m] = out.get(m, 0) + Fraction(a)
    return Poly(out)


def classical(p, qs=("q", "q1", "q2")):
    return Poly({m: c for m, c in p.t.items() if not any(v in qs for v, _ in m)})


def is_class(tp, m, N, part):
    """Does `part` (any nested tuple) name a Schubert class of the space?"""
    if not all(isinstance(x, int) for x in part):
        return False
    k, n = refring.params(tp, m, N)
    rows, cols = refring.box(tp, m, N)
    core = part
    if tp == "D" and k > 0 and part and part[-1] == 0:
        core = part[:-1]
        if k not in core:
            return False
    return (all(x > 0 for x in core) and all(a >= b for a, b in zip(core, core[1:])) and len(core) <= rows
            and (not core or core[0] <= cols) and (tp == "A" or refring.is_kstrict(core, k)))


def degq(tp, m, N):
    """deg q (each of deg q1, deg q2) = c_1 of a line."""
    k, n = refring.params(tp, m, N)
    return {"A": N, "C": n + 1 + k}.get(tp) or (2 * n if k == 0 else n + k)


def nq(tp, m, N):
    return 2 if tp == "D" and m == N // 2 - 1 else 1


# ------------------------------------------------------------------ characters (refdata/chars.npz, see gen_chars.py)
class Chars:
    """Ring homomorphisms QH(X) -> F_p at given values of q; vals[class] for every class."""

    def __init__(self, tp, m, N):
        self.cls = refring.classes(tp, m, N)
        self.qv = QV[nq(tp, m, N)]
        self.homs = []
        z = _chars()
        i = 0
        while f"{tp}_{m}_{N}_{i}" in z:
            a = [int(x) for x in z[f"{tp}_{m}_{N}_{i}"]]
            p, qs, v = a[0], a[1:1 + len(self.qv)], a[1 + len(self.qv):]
            assert len(v) == len(self.cls)
            self.homs.append((p, dict(zip(self.qv, qs)), dict(zip(self.cls, v))))
            i += 1

    def values(self, p):
        """One number per homomorphism; None if p contains anything but classes and the space's q."""
        out = []
        for P, q, v in self.homs:
            s = 0
            for mono, c in p.t.items():
                t = c.numerator * pow(c.denominator, P - 2, P)
                for x, e in mono:
                    b = v.get(x[1]) if isinstance(x, tuple) else q.get(x)
                    if b is None:
                        return None
                    t = t * pow(b, e, P) % P
                s += t
            out.append(s % P)
        return out


@functools.lru_cache(None)
def _chars():
    import numpy as np
    return np.load(os.path.join(HERE, "refdata", "chars.npz"))


@functools.lru_cache(32)
def chars(tp, m, N):
    return Chars(tp, m, N)


@functools.lru_cache(None)
def char_spaces():
    """[(tp, m, N, number of classes)]"""
    with open(os.path.join(HERE, "refdata", "chars_index.json")) as f:
        return [tuple(x) for x in json.load(f)]
