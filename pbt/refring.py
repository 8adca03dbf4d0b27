"""Independent reference for the (quantum) cohomology ring of classical Grassmannians.

Nothing here looks at schubertpy.  The structure constants of QH*(G/P) are obtained
from root-system data alone:

 * W^P is enumerated as an orbit of a dominant weight under signed permutations;
 * multiplication by divisor classes in *equivariant* quantum cohomology is the
   Chevalley formula (Fulton-Woodward, Mihalcea);
 * for generic torus weights that operator has simple spectrum at q=0, so it
   determines the full ring by associativity: sigma_u = P_u(A) . 1.

Everything is evaluated at random torus weights modulo a large prime; the
non-equivariant constants are exactly the (w, d) entries with
l(u)+l(v) = l(w) + d*deg(q), which do not depend on the weights.

A "space" is (tp, m, N): tp in "A","B","C","D"; m = dimension of the subspaces,
N = dimension of the ambient vector space.  Classes are tuples of ints in the
library's notation (trailing 0 = type 2 in type D).
"""
from __future__ import annotations
import itertools, random
from functools import lru_cache
import numpy as np

P = 2147483629  # prime < 2^31


# ---------------------------------------------------------------- combinatorics
def params(tp, m, N):
    """(k, n) of the Buch-Kresch-Tamvakis papers."""
    if tp == "A":
        return N - m, N
    if tp == "C":
        return N // 2 - m, N // 2
    if tp == "B":
        return (N - 1) // 2 - m, (N - 1) // 2
    return N // 2 - m, N // 2 - 1


def box(tp, m, N):
    """(rows, cols) of the rectangle that contains the indexing partitions."""
    k, n = params(tp, m, N)
    if tp == "A":
        return m, k
    return m, n + k


def partitions_in_box(rows, cols, k=None):
    """k: no part greater than k twice."""
    k = cols if k is None else k

    def rec(r, mx):
        if r == 0:
            yield ()
            return
        for a in range(mx, -1, -1):
            if a == 0:
                yield ()
            else:
                for rest in rec(r - 1, a if a <= k else a - 1):
                    yield (a,) + rest
    return sorted(set(rec(rows, cols)))


def is_kstrict(lam, k):
    return all(not (a == b and a > k) for a, b in zip(lam, lam[1:]))


@lru_cache(None)
def classes(tp, m, N):
    """All Schubert classes, sorted like Python lists."""
    k, n = params(tp, m, N)
    rows, cols = box(tp, m, N)
    res = []
    for lam in partitions_in_box(rows, cols, cols if tp == "A" else k):
        res.append(lam)
        if tp == "D" and k > 0 and k in lam:
            res.append(lam + (0,))
    return tuple(sorted(res))


def special(tp, m, N):
    """Special Schubert classes, as (signed degree, class)."""
    k, n = params(tp, m, N)
    rows, cols = box(tp, m, N)
    if rows == 0:
        return []
    res = [(i, (i,)) for i in range(1, cols + 1)]
    if tp == "D" and k > 0:
        res.append((-k, (k, 0)))
    return res


def symbol(tp, m, N, lam):
    """Schubert symbol (index set) of a class: 1 <= p_1 < ... < p_m <= N."""
    k, n = params(tp, m, N)
    two = tp == "D" and len(lam) > 0 and lam[-1] == 0 and k > 0
    core = tuple(x for x in lam if x)
    la = core + (0,) * (m - len(core))
    out = []
    for j in range(1, m + 1):
        l = la[j - 1]
        if tp == "A":
            out.append(k + j - l)
        elif tp == "C":
            out.append(n + k + 1 - l + sum(la[i - 1] + l <= 2 * k + j - i for i in range(1, j)))
        elif tp == "B":
            c = sum(la[i - 1] + l <= 2 * k + j - i for i in range(1, j))
            out.append(n + k + 1 - l if l > k else n + k + 2 - l + c)
        else:
            c = sum(la[i - 1] + l <= 2 * k - 1 + j - i for i in range(1, j))
            if l > k:
                e = 1
            elif l == k and (j == 1 or la[j - 2] > k) and (n + j + (2 if two else 1)) % 2 == 0:
                e = 1
            else:
                e = 2
            out.append(n + k - l + c + e)
    return tuple(out)


# ---------------------------------------------------------------- root systems
def _roots(tp, r):
    """positive roots as vectors of length r; type A uses r coordinates (gl_r)."""
    pos = []
    for i in range(r):
        for j in range(i + 1, r):
            v = [0] * r; v[i] = 1; v[j] = -1; pos.append(tuple(v))
            if tp != "A":
                v = [0] * r; v[i] = 1; v[j] = 1; pos.append(tuple(v))
    if tp == "B":
        for i in range(r):
            v = [0] * r; v[i] = 1; pos.append(tuple(v))
    if tp == "C":
        for i in range(r):
            v = [0] * r; v[i] = 2; pos.append(tuple(v))
    return pos


def _dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def _pair(v, a):
    """<v, a^vee>; exact integer on the weight lattice (v possibly doubled)."""
    num, den = 2 * _dot(v, a), _dot(a, a)
    assert num % den == 0
    return num // den


class Space:
    """Chevalley data of one space, in the basis `self.cls`."""

    def __init__(self, tp, m, N):
        self.key = (tp, m, N)
        self.tp, self.m, self.N = tp, m, N
        self.k, self.n = params(tp, m, N)
        r = {"A": N, "B": (N - 1) // 2, "C": N // 2, "D": N // 2}[tp]
        self.r = r
        pos = _roots(tp, r)
        # fundamental weights (doubled, to stay integral) of the omitted nodes
        def om(j):
            return tuple([2] * j + [0] * (r - j))
        if tp in "AC":
            fund = [om(m)]
        elif tp == "B":
            fund = [tuple([1] * r)] if m == r else [om(m)]
        else:
            if m == r:
                fund = [tuple([1] * r)]
            elif m == r - 1:
                fund = [tuple([1] * (r - 1) + [-1]), tuple([1] * r)]
            else:
                fund = [om(m)]
        if tp == "D" and m == r - 1 and r % 2 == 1:
            fund = fund[::-1]      # q_1 is the curve class that meets S[1], q_2 the one that meets S[1,0]
        self.fund = fund
        self.nq = len(fund)
        omega = tuple(map(sum, zip(*fund)))
        outside = [a for a in pos if _dot(omega, a) != 0]   # R+ \ R+_P
        self.dim = len(outside)
        self.c1 = {a: sum(_pair(g, a) for g in outside) for a in outside}
        posset = set(pos)
        # the simple root of each omitted node; deg(q_j) = c_1 on its curve
        def diff(i):
            v = [0] * r; v[i] = 1; v[i + 1] = -1; return tuple(v)
        if tp == "B" and m == r:
            simple = [tuple([0] * (r - 1) + [1])]
        elif tp == "C" and m == r:
            simple = [tuple([0] * (r - 1) + [2])]
        elif tp == "D" and m >= r - 1:
            plus = tuple([0] * (r - 2) + [1, 1])
            simple = [plus] if m == r else [diff(r - 2), plus][::-1 if r % 2 else 1]
        else:
            simple = [diff(m - 1)]
        self.degq = [self.c1[a] for a in simple]

        def act(w, v):  # w: tuple of signed 1-based images, w e_i = sign e_|w_i|
            out = [0] * r
            for i, x in enumerate(v):
                if x:
                    out[abs(w[i]) - 1] += x if w[i] > 0 else -x
            return tuple(out)

        def refl_vec(v, a):
            c = _pair(v, a)
            return tuple(x - c * y for x, y in zip(v, a))

        def refl(a):
            img = []
            for i in range(r):
                e = [0] * r; e[i] = 2
                b = refl_vec(tuple(e), a)
                nz = [(j, x) for j, x in enumerate(b) if x]
                (j, x), = nz
                img.append((j + 1) if x > 0 else -(j + 1))
            return tuple(img)

        def mul(w, s):  # (w s)(e_i) = w(s(e_i))
            return tuple((w[abs(x) - 1] if x > 0 else -w[abs(x) - 1]) for x in s)

        R = {a: refl(a) for a in outside}
        ident = tuple(range(1, r + 1))
        reps = {act(ident, omega): ident}
        todo = [ident]
        while todo:
            w = todo.pop()
            for a in outside:
                w2 = mul(w, R[a])
                v = act(w2, omega)
                if v not in reps:
                    reps[v] = w2
                    todo.append(w2)

        def ln(w):
            return sum(act(w, a) not in posset for a in outside)

        self.length_of_vec = {v: ln(w) for v, w in reps.items()}
        self.reps = reps
        # identify classes with cosets via Schubert symbols
        self.cls = list(classes(tp, m, N))
        self.idx = {c: i for i, c in enumerate(self.cls)}
        vec2cls = {}
        for c in self.cls:
            vec2cls[self._vec(symbol(tp, m, N, c))] = c
        assert len(vec2cls) == len(self.cls) == len(reps), (self.key, len(vec2cls), len(self.cls), len(reps))
        assert set(vec2cls) == set(reps), self.key
        for v, c in vec2cls.items():
            assert self.length_of_vec[v] == sum(c), (self.key, v, c)
        self.vec2cls = vec2cls
        self.cls2vec = {c: v for v, c in vec2cls.items()}
        # Chevalley: for each divisor f: list of (u, w, dvec, coef)
        self.chev = [[] for _ in fund]
        for v, w in reps.items():
            u = self.idx[vec2cls[v]]
            lw = self.length_of_vec[v]
            for a in outside:
                v2 = act(mul(w, R[a]), omega)
                l2 = self.length_of_vec[v2]
                d = None
                if l2 == lw + 1:
                    d = (0,) * self.nq
                elif l2 == lw + 1 - self.c1[a]:
                    d = tuple(_pair(f, a) // 2 for f in fund)
                if d is None:
                    continue
                for fi, f in enumerate(fund):
                    h = _pair(f, a) // 2
                    if h:
                        self.chev[fi].append((u, self.idx[vec2cls[v2]], d, h))
        self._act = act
        if self.nq == 2:
            first = [[self.cls[w] for u, w, d, h in ch if self.cls[u] == () and not any(d)] for ch in self.chev]
            assert first == [[(1,)], [(1, 0)]], (self.key, first)

    def _vec(self, sym):
        tp, N, r, m = self.tp, self.N, self.r, self.m
        v = [0] * r
        if tp == "A":
            for p in sym:
                v[N - p] = 2
            return tuple(v)
        for p in sym:
            c = N + 1 - p
            if c <= r:
                v[c - 1] = 2
            else:
                assert p <= r, (self.key, sym)
                v[p - 1] = -2
        if tp == "B" and m == r:
            return tuple(x // 2 for x in v)
        if tp == "D" and m == r:
            # one of the two components; normalise it to the one of the spin weight
            v = [x // 2 for x in v]
            if self.r % 2:
                v[-1] = -v[-1]
            return tuple(v)
        # for m == r-1 in D, omega = 2(e_1+...+e_{r-1}) doubled once: fund sum = (2,..,2,0)
        return tuple(v)

    # ---- ring
    def _series(self, qw, D):
        """A_d matrices (list over total q-degree) of the generic divisor at
        random weights with q_j -> qw[j]*q, plus K^{-1}."""
        rng = random.Random(12345)
        N = len(self.cls)
        t = [rng.randrange(1, P) for _ in range(self.r)]
        x = [rng.randrange(1, P) for _ in self.fund] if self.nq > 1 else [1]
        A = [np.zeros((N, N), dtype=np.int64) for _ in range(D + 1)]
        for fi, f in enumerate(self.fund):
            for u, w, d, h in self.chev[fi]:
                tot = sum(d)
                if tot <= D:
                    c = h * x[fi] % P
                    for dj, qj in zip(d, qw):
                        c = c * pow(qj, dj, P) % P
                    A[tot][w, u] = (A[tot][w, u] + c) % P
        half = pow(2, P - 2, P)
        for c, i in self.idx.items():
            w = self.reps[self.cls2vec[c]]
            e = 0
            for fi, f in enumerate(self.fund):
                diff = [a - b for a, b in zip(f, self._act(w, f))]
                e += x[fi] * half * _dot(diff, t)
            A[0][i, i] = (int(A[0][i, i]) + e) % P
        return A

    def maxdeg(self):
        return 2 * self.dim // min(self.degq)

    @lru_cache(None)
    def table(self):
        """dict (u,v) -> {(class, dvec): coef}, all pairs."""
        N = len(self.cls)
        D = self.maxdeg()
        pts = [(1,)] if self.nq == 1 else [(1, b) for b in range(1, D + 2)]
        acc = []
        for qw in pts:
            acc.append(self._table1(qw, D))
        out = {}
        deg = self.degq[0]
        assert len(set(self.degq)) == 1
        for i, u in enumerate(self.cls):
            for j, v in enumerate(self.cls):
                res = {}
                for w, c in enumerate(self.cls):
                    diff = sum(u) + sum(v) - sum(c)
                    if diff < 0 or diff % deg:
                        continue
                    d = diff // deg
                    if d > D:
                        continue
                    if self.nq == 1:
                        a = int(acc[0][d][i, w, j])
                        if a:
                            res[(c, (d,))] = a
                    else:
                        ys = [int(acc[b][d][i, w, j]) for b in range(d + 1)]
                        if any(ys):
                            for e, a in enumerate(_interp([b + 1 for b in range(d + 1)], ys)):
                                if a:
                                    res[(c, (d - e, e))] = a
                for a in res.values():
                    assert 0 < a < 10 ** 7, (self.key, u, v, res)
                out[(u, v)] = res
        return out

    def _table1(self, qw, D):
        N = len(self.cls)
        A = self._series(qw, D)
        # K columns: A^j e_0 (e_0 = class of identity)
        one = self.idx[()]
        def apply(vecs):  # vecs: list over q-degree of arrays (N, ...)
            out = []
            for d in range(D + 1):
                s = np.zeros_like(vecs[0])
                for a in range(d + 1):
                    if A[a].any():
                        s = (s + matmul(A[a], vecs[d - a])) % P
                out.append(s)
            return out
        # powers applied to the identity matrix: B_j = A^j  (needed for products)
        I = [np.eye(N, dtype=np.int64)] + [np.zeros((N, N), dtype=np.int64) for _ in range(D)]
        pw = [I]
        for j in range(1, N):
            pw.append(apply(pw[-1]))
        K = [np.stack([pw[j][d][:, one] for j in range(N)], axis=1) for d in range(D + 1)]
        K0i = inv_mod(K[0])
        X = [K0i]
        for d in range(1, D + 1):
            s = np.zeros((N, N), dtype=np.int64)
            for a in range(1, d + 1):
                s = (s + matmul(K[a], X[d - a])) % P
            X.append((-matmul(K0i, s)) % P)
        # M_u = sum_j x_{j,u} A^j ; result[d][u, w, v]
        res = []
        for d in range(D + 1):
            s = np.zeros((N, N * N), dtype=np.int64)
            for a in range(d + 1):
                big = np.stack([pw[j][d - a].reshape(-1) for j in range(N)], axis=0)  # (j, w*v)
                s = (s + matmul(X[a].T.copy(), big)) % P
            res.append(s.reshape(N, N, N))
        return res


def matmul(a, b):
    """a @ b mod P with int64, splitting b into 16-bit halves via float-free int ops."""
    b_hi, b_lo = b >> 16, b & 0xFFFF
    a_hi, a_lo = a >> 16, a & 0xFFFF
    # entries < 2^16 ; sums of up to 2^20 products stay below 2^53 -> use float64 BLAS
    f = np.float64
    A1, A0, B1, B0 = a_hi.astype(f), a_lo.astype(f), b_hi.astype(f), b_lo.astype(f)
    hh = (A1 @ B1).astype(np.int64) % P
    mid = ((A1 @ B0) + (A0 @ B1)).astype(np.int64) % P
    ll = (A0 @ B0).astype(np.int64) % P
    t16 = 65536
    t32 = (t16 * t16) % P
    return ((hh * t32) % P + (mid * t16) % P + ll) % P


def inv_mod(M):
    n = M.shape[0]
    a = np.concatenate([M % P, np.eye(n, dtype=np.int64)], axis=1)
    for c in range(n):
        piv = next((r for r in range(c, n) if a[r, c]), None)
        assert piv is not None, "singular: weights not generic"
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
        a[c] = a[c] * pow(int(a[c, c]), P - 2, P) % P
        f = a[:, c].copy(); f[c] = 0
        a = (a - (f[:, None] * a[c][None, :]) % P) % P
    return a[:, n:].copy()


def _interp(xs, ys):
    """coefficients of the polynomial through (xs, ys) mod P."""
    n = len(xs)
    M = np.array([[pow(x, e, P) for e in range(n)] for x in xs], dtype=np.int64)
    inv = inv_mod(M)
    return [sum(int(inv[e, i]) * ys[i] for i in range(n)) % P for e in range(n)]


@lru_cache(None)
def space(tp, m, N):
    return Space(tp, m, N)


def tp_of(family, N):
    return {"Gr": "A", "IG": "C"}.get(family) or ("B" if N % 2 else "D")
