"""Sanity of the machinery itself (setup_cmd): tools present, reference data consistent."""
import os
import random
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import lib  # noqa: E402,F401
import hypothesis  # noqa: E402,F401
import ref  # noqa: E402
import refring  # noqa: E402
import gen_chars  # noqa: E402
from poly import S  # noqa: E402
from fractions import Fraction  # noqa: E402


def main():
    rng = random.Random(1)
    n = 0
    for tp, m, N, size, full in ref.spaces():
        if size <= 8:                       # recompute from the Chevalley rule
            R, T = ref.ring(tp, m, N), refring.space(tp, m, N).table()
            for i, j in R.rows:
                u, v = R.cls[i], R.cls[j]
                want = T[(u, v)] if (u, v) in T else T[(v, u)]
                got = {k: Fraction(c) for k, c in R.prod(u, v).items()}
                want = {(c, tuple(d)): Fraction(a) for (c, d), a in want.items()}
                assert got == want, (tp, m, N, u, v, got, want)
                n += 1
    print(f"{n} stored products recomputed")
    full = [s for s in ref.spaces() if s[4]]
    for tp, m, N, size, _ in rng.sample(full, 12):
        R = ref.ring(tp, m, N)
        one = (0,) * R.nq
        for _ in range(30):
            x, y, z = ({(rng.choice(R.cls), one): Fraction(1)} for _ in range(3))
            assert R.mulv(R.mulv(x, y), z) == R.mulv(x, R.mulv(y, z)), (tp, m, N, x, y, z)
    print("stored rings associate")
    m = 0
    for tp, mm, N, size in ref.char_spaces():
        if size <= 60:                      # recompute from the Chevalley rule
            X, found = gen_chars.characters((tp, mm, N), want=5)
            C = ref.chars(tp, mm, N)
            assert len(found) == len(C.homs), (tp, mm, N)
            for (p, qs, v), (P, q, vals) in zip(found, C.homs):
                assert p == P and list(qs) == list(q.values()) and {c: int(x) for c, x in zip(X.cls, v)} == vals, (tp, mm, N)
    for tp, mm, N, size, _ in rng.sample([s for s in ref.spaces() if s[:3] in {x[:3] for x in ref.char_spaces()}], 25):
        R, C = ref.ring(tp, mm, N), ref.chars(tp, mm, N)
        for u, v in rng.sample(R.pairs(), min(100, len(R.pairs()))):
            x, y, z = (C.values(a) for a in (S(u), S(v), R.prod_poly(u, v)))
            assert all(a * b % P == c for a, b, c, (P, _, _) in zip(x, y, z, C.homs)), (tp, mm, N, u, v)
            m += 1
    print(f"homomorphisms to F_p: small ones recomputed, {m} stored products mapped to products of values")
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))):
        if f.endswith(".py") and f != "__init__.py":
            mod = core.load(f[:-3])
            assert mod.RULE and mod.PARTS
    r = subprocess.run(["/opt/venv-sage/bin/python", "-c", "import sage"], env=core.child_env())
    print("sage interpreter", "present" if r.returncode == 0 else "MISSING")
    return 0


if __name__ == "__main__":
    sys.exit(main())
