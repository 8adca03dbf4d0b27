"""Characters of the quantum cohomology rings of spaces too large for a stored multiplication table.

A character is a ring homomorphism QH(X)/(q = t) -> F_p; it is stored as its values on the Schubert classes.
It is found as the common left eigenvector of the divisor operators, which are the quantum Chevalley formula of
refring.py: if an eigenvalue of the (generic) divisor is simple, its eigenvector is an eigenvector of every
multiplication operator, i.e. (normalised at 1) a character.  Nothing here looks at schubertpy.

Usage: gen_chars.py      writes refdata/chars.npz and refdata/chars_index.json
"""
import json
import os
import random

import numpy as np

import refring

PRIMES = [2147483647, 2147483629, 2147483587, 2147483579, 2147483563, 2147483549, 2147483543, 2147483497, 2147483489, 2147483477]


def primes(d, count=4):
    """The largest primes below 2^31 that are 1 modulo d (more eigenvalues lie in F_p)."""
    out, p = [], (2 ** 31 - 2) // d * d + 1
    while len(out) < count:
        if all(p % x for x in range(2, 46341)):
            out.append(p)
        p -= d
    return out


def matrix(S, p, qs, x):
    """Sparse divisor operator: sum_f x_f [D_f *] at q = qs; entries (w, u, c): u -> c w."""
    W, U, C = [], [], []
    for f, ch in enumerate(S.chev):
        for u, w, d, h in ch:
            c = h * x[f] % p
            for dj, qj in zip(d, qs):
                c = c * pow(qj, dj, p) % p
            W.append(w); U.append(u); C.append(c)
    return np.array(W), np.array(U), np.array(C, dtype=np.int64)


class Op:
    """v -> v M (left multiplication on row vectors), exact modulo p."""

    def __init__(self, W, U, C, n, p):
        o = np.argsort(U, kind="stable")
        self.W, self.U, self.C = W[o], U[o], C[o]
        self.n, self.p = n, p
        self.start = np.flatnonzero(np.r_[True, self.U[1:] != self.U[:-1]]) if len(U) else np.array([], dtype=int)
        self.rows = self.U[self.start] if len(U) else self.start

    def __call__(self, v):
        out = np.zeros(self.n, dtype=np.int64)
        if len(self.start):
            t = self.C * v[self.W] % self.p
            out[self.rows] = np.add.reduceat(t, self.start) % self.p
        return out


def dot(a, b, p):
    return int((a * b % p).sum() % p)


def berlekamp_massey(s, p):
    """Monic minimal recurrence polynomial (low to high)."""
    n = len(s)
    C = np.zeros(n + 1, dtype=np.int64); B = C.copy()
    C[0] = B[0] = 1
    L, m, b = 0, 1, 1
    S = np.array(s, dtype=np.int64)
    for i in range(n):
        d = (int(S[i]) + int((C[1:L + 1] * S[i - L:i][::-1] % p).sum())) % p if L else int(S[i]) % p
        if d == 0:
            m += 1
            continue
        co = d * pow(b, p - 2, p) % p
        T = C.copy()
        C[m:] = (C[m:] - co * B[:n + 1 - m] % p) % p
        if 2 * L <= i:
            L, B, b, m = i + 1 - L, T, d, 1
        else:
            m += 1
    return [int(x) for x in C[:L + 1]][::-1]


# ---- univariate polynomials modulo p, lists low to high
def trim(f):
    while f and f[-1] == 0:
        f.pop()
    return f


def pmod(f, g, p):
    f = list(f)
    inv = pow(g[-1], p - 2, p)
    while len(f) >= len(g):
        c = f[-1] * inv % p
        if c:
            o = len(f) - len(g)
            for i, x in enumerate(g):
                f[o + i] = (f[o + i] - c * x) % p
        f.pop()
    return trim(f)


def pmul(f, g, p):
    if not f or not g:
        return []
    out = [0] * (len(f) + len(g) - 1)
    for i, a in enumerate(f):
        if a:
            for j, b in enumerate(g):
                out[i + j] += a * b
    return trim([x % p for x in out])


def pgcd(f, g, p):
    f, g = trim(list(f)), trim(list(g))
    while g:
        f, g = g, pmod(f, g, p)
    inv = pow(f[-1], p - 2, p)
    return [x * inv % p for x in f]


def powx(base, e, f, p):
    r = [1]
    base = pmod(base, f, p)
    while e:
        if e & 1:
            r = pmod(pmul(r, base, p), f, p)
        base = pmod(pmul(base, base, p), f, p)
        e >>= 1
    return r


def roots(g, p, rng):
    if len(g) <= 1:
        return []
    h = powx([0, 1], p, g, p)
    h = h + [0] * (2 - len(h))
    h[1] = (h[1] - 1) % p
    h = trim(h)
    s = pgcd(g, h, p) if h else [x * pow(g[-1], p - 2, p) % p for x in g]
    out, todo = [], [s]
    while todo:
        f = todo.pop()
        if len(f) <= 1:
            continue
        if len(f) == 2:
            out.append(-f[0] % p)
            continue
        while True:
            a = rng.randrange(p)
            h = powx([a, 1], (p - 1) // 2, f, p)
            h = h + [0] * (1 - len(h)) if h else [0]
            h[0] = (h[0] - 1) % p
            h = trim(h)
            if not h:
                continue
            u = pgcd(f, h, p)
            if 1 < len(u) < len(f):
                break
        todo += [u, divexact(f, u, p)]
    return sorted(out)


def divexact(f, g, p):
    f = list(f); out = [0] * (len(f) - len(g) + 1)
    inv = pow(g[-1], p - 2, p)
    for i in range(len(out) - 1, -1, -1):
        c = f[i + len(g) - 1] * inv % p
        out[i] = c
        for j, x in enumerate(g):
            f[i + j] = (f[i + j] - c * x) % p
    assert not any(f)
    return out


def characters(key, want=5):
    """[(p, qs, values)] for one space."""
    S = refring.Space(*key)
    n = len(S.cls)
    one = S.idx[()]
    deg = S.degq[0]
    assert len(set(S.degq)) == 1
    rng = random.Random(str(key))
    found = []
    for p in primes(2 * deg) + PRIMES:
        x = [rng.randrange(1, p) for _ in range(S.nq)] if S.nq > 1 else [1]
        q0 = [1] + [rng.randrange(1, p) for _ in range(S.nq - 1)]
        M = Op(*matrix(S, p, q0, x), n, p)
        v = np.array([rng.randrange(p) for _ in range(n)], dtype=np.int64)
        seq = []
        for _ in range(2 * n + 4):
            seq.append(int(v[one]))
            v = M(v)
        f = berlekamp_massey(seq, p)
        assert len(f) - 1 <= n
        e = next(i for i, c in enumerate(f) if c)
        g = f[e:]
        assert all(c == 0 for i, c in enumerate(g) if i % deg), (key, "grading")
        g = g[::deg]
        dg = [i * c % p for i, c in enumerate(g)][1:]
        rs = [y for y in roots(g, p, rng) if sum(c * pow(y, i, p) for i, c in enumerate(dg)) % p]
        rng.shuffle(rs)
        for y in rs[:2]:
            z = rng.randrange(1, p)
            t = pow(z, deg, p) * pow(y, p - 2, p) % p
            qs = [t * a % p for a in q0]
            Mt = Op(*matrix(S, p, qs, x), n, p)
            # f_t(X) = sum over i of f_i t^{(D - i)/deg} X^i
            D = len(f) - 1
            ft = [0 if c == 0 else c * pow(t, (D - i) // deg, p) % p for i, c in enumerate(f)]
            h = divexact(ft, [-z % p, 1], p)
            vs = []
            for _ in range(2):
                r = np.array([rng.randrange(p) for _ in range(n)], dtype=np.int64)
                acc = np.zeros(n, dtype=np.int64)
                for c in reversed(h):
                    acc = (Mt(acc) + c * r) % p
                if not acc[one]:
                    break
                acc = acc * pow(int(acc[one]), p - 2, p) % p
                vs.append(acc)
            if len(vs) < 2 or (vs[0] != vs[1]).any():
                continue
            v = vs[0]
            if (Mt(v) != v * z % p).any():
                continue
            found.append((p, qs, v))
            if len(found) >= want:
                return S, found
    return S, found


def keys(lo=12, hi=2100):
    out = []
    for N in range(4, 17):
        out += [("A", m, N) for m in range(1, N)]
    for r in range(2, 11):
        for tp, N in (("B", 2 * r + 1), ("C", 2 * r), ("D", 2 * r)):
            if tp == "D" and r < 3:
                continue
            out += [(tp, m, N) for m in range(1, r + 1)]
    res = []
    for k in out:
        n = len(refring.classes(*k))
        if lo <= n <= hi:
            res.append((n, k))
    return [k for _, k in sorted(res)]


def job(k):
    S, f = characters(k)
    # multiplicativity was established through simplicity of the eigenvalue; small rings are checked in full
    return k, len(S.cls), [(p, qs, v.astype(np.uint32)) for p, qs, v in f]


def main():
    from multiprocessing import Pool
    ks = keys()
    print(len(ks), "spaces", flush=True)
    out, index = {}, []
    with Pool(2) as pool:
        for k, n, f in pool.imap_unordered(job, ks[::-1]):
            nm = "_".join(map(str, k))
            print(nm, n, len(f), flush=True)
            index += [[*k, n]] if f else []
            for i, (p, qs, v) in enumerate(f):
                out[f"{nm}_{i}"] = np.concatenate([np.array([p] + qs, dtype=np.uint32), v])
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refdata")
    with open(os.path.join(here, "chars_index.json"), "w") as fh:
        fh.write("[" + ",\n ".join(map(json.dumps, sorted(index, key=lambda x: (x[3], x[:3])))) + "]\n")
    np.savez_compressed(os.path.join(here, "chars.npz"), **{k: out[k] for k in sorted(out)})


if __name__ == "__main__":
    main()
