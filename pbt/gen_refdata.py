"""Regenerates refdata/*.json.gz (structure constants of the reference model) from refring.
Usage: gen_refdata.py [tp,m,N ...]   (default: every space of SPACES)
The files are a cache only: every entry is the output of refring.py, which never looks at
schubertpy.  Output is byte-for-byte reproducible."""
import gzip
import io
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import refring  # noqa: E402

FULL_MAX = 36          # up to this many classes every product is stored
SAMPLE = 1500          # beyond it: every special product and this many random ones


def all_spaces():
    out = []
    for N in range(2, 8):
        out += [("A", m, N) for m in range(1, N)]
    out += [("A", 1, 8), ("A", 7, 8), ("A", 2, 8), ("A", 6, 8), ("A", 3, 8), ("A", 5, 8), ("A", 4, 8),
            ("A", 2, 9), ("A", 7, 9), ("A", 3, 9), ("A", 6, 9), ("A", 2, 10), ("A", 1, 12), ("A", 11, 12), ("A", 4, 9), ("A", 3, 10)]
    for r in range(1, 6):
        out += [("C", m, 2 * r) for m in range(1, r + 1)]
        out += [("B", m, 2 * r + 1) for m in range(1, r + 1)]
        if r > 1:
            out += [("D", m, 2 * r) for m in range(1, r + 1)]
    for r in (6,):
        out += [("C", m, 2 * r) for m in range(1, r + 1)]
        out += [("B", m, 2 * r + 1) for m in range(1, r + 1)]
        out += [("D", m, 2 * r) for m in range(1, r + 1)]
    out += [("C", 1, 14), ("B", 1, 15), ("D", 1, 14), ("C", 2, 14), ("B", 2, 15), ("D", 2, 14), ("C", 7, 14), ("B", 7, 15), ("D", 7, 14)]
    return out


def build(tp, m, N):
    sp = refring.space(tp, m, N)
    tab = sp.table()
    n = len(sp.cls)
    pairs = [(i, j) for i in range(n) for j in range(n)]
    if n > FULL_MAX:
        spec = {sp.idx[c] for _, c in refring.special(tp, m, N)}
        rest = [(i, j) for i, j in pairs if i not in spec and i <= j and i]
        rest = random.Random(7).sample(rest, min(SAMPLE, len(rest)))
        pairs = sorted([(i, j) for i, j in pairs if i in spec] + rest)
    rows = []
    for i, j in pairs:
        d = tab[(sp.cls[i], sp.cls[j])]
        rows.append([i, j, sorted([sp.idx[c], *dv, a] for (c, dv), a in d.items())])
    return {"space": [tp, m, N], "nq": sp.nq, "degq": sp.degq, "dim": sp.dim, "classes": sp.cls, "full": n <= FULL_MAX, "rows": rows}


def path(tp, m, N):
    return os.path.join(HERE, "refdata", f"{tp}_{m}_{N}.json.gz")


def dump(obj):
    raw = json.dumps(obj, separators=(",", ":")).encode()
    buf = io.BytesIO()
    with gzip.GzipFile(fileobj=buf, mode="wb", mtime=0, compresslevel=9) as f:
        f.write(raw)
    return buf.getvalue()


if __name__ == "__main__":
    todo = [(a.split(",")[0], int(a.split(",")[1]), int(a.split(",")[2])) for a in sys.argv[1:]] or all_spaces()
    import time
    for s in todo:
        t = time.time()
        if os.path.exists(path(*s)) and len(sys.argv) == 1:
            continue
        data = dump(build(*s))
        with open(path(*s), "wb") as f:
            f.write(data)
        refring.space.cache_clear()
        print(s, len(data), round(time.time() - t, 1), flush=True)
