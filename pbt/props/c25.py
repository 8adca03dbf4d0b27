"""SageMath bridge (schubertsage), run in the interpreter that has sage."""
import json
import os
import subprocess
import tempfile

import exprs
import gens  # noqa: F401
from core import Part, child_env
from gens import st
from lib import REPO, need

RULE = ("Batches of random partitions (up to 7 rows, parts up to 12, trailing zeros at random) run in a sage interpreter: the sage Schur function of a partition converts to the Schur class of that partition (a plain list of "
        "plain integers, usable in products), Schur class to sage and back is the identity up to trailing zeros, and the sage side equals the basis element; elements of other bases or base rings raise ValueError. "
        "Non-trivial: the batch has partitions with two or more rows.")
SAGE = "/opt/venv-sage/bin/python"

PROG = r"""
import sys, json, os
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
sys.path.insert(0, sys.argv[2])
real = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
import sage.all__sagemath_combinat
import schubertsage, schubertsage.conversion as conv
import schubertpy
assert os.path.realpath(schubertsage.__file__).startswith(os.path.realpath(sys.argv[2]) + os.sep)
from schubertpy import Schur, Grassmannian
from sage.combinat.partition import Partition
from sage.combinat.sf.sf import SymmetricFunctions
from sage.rings.rational_field import QQ
S = schubertsage.S
bad = []
def need(c, m):
    if not c:
        bad.append(m)
for lam in json.load(open(sys.argv[1])):
    core = [x for x in lam if x]
    try:
        x = S(core)
        s = schubertsage.sage_schur_to_schur(x)
        need(type(s) is Schur, f"sage_schur_to_schur(s{core}) is a {type(s).__name__}")
        p = s.partition()
        need(type(p) is list and p == core, f"sage_schur_to_schur(s{core}) = {p!r}")
        need(all(type(i) is int for i in p), f"sage_schur_to_schur(s{core}) has parts of type {[type(i).__name__ for i in p]}")
        need(str(s) == "S" + str(core).replace(" ", ""), f"sage_schur_to_schur(s{core}) prints {s}")
        arg = Schur(list(lam))
        y = conv.schur_to_sage_schur(arg)
        need(y.parent() == S and dict(y.monomial_coefficients()) == {Partition(core): 1}, f"schur_to_sage_schur(S{lam}) = {y}")
        need(arg.partition() == lam, f"schur_to_sage_schur changed S{lam} to {arg}")
        need(conv.schur_to_sage_schur(s) == x, f"s{core} to Schur and back is {conv.schur_to_sage_schur(s)}")
        z = schubertsage.sage_schur_to_schur(y)
        need(z == Schur(core), f"S{lam} to sage and back is {z}")
        m = max([len(core), 1]); k = max([core[0] if core else 1, 1])
        g = Grassmannian(m, m + k)
        need(str(g.dualize(s)) == str(g.dualize(list(core))), f"dualize of the converted S{core} is {g.dualize(s)}")
        need(str(g.pieri(1, s)) == str(g.pieri(1, Schur(core))), f"pieri of the converted S{core} is {g.pieri(1, s)}")
    except Exception as e:
        bad.append(f"S{lam}: {type(e).__name__}: {e}")
    other = SymmetricFunctions(S.base_ring())
    for nm, w in (("elementary", other.e()), ("homogeneous", other.h()), ("monomial", other.m()), ("power sum", other.p()), ("Schur over QQ", SymmetricFunctions(QQ).s())):
        try:
            r = schubertsage.sage_schur_to_schur(w(core))
            bad.append(f"the {nm} function of {core} is accepted as {r}")
        except ValueError:
            pass
        except Exception as e:
            bad.append(f"the {nm} function of {core}: {type(e).__name__}: {e}; expected ValueError")
real.write(json.dumps(bad[:5]) + "\n")
"""


def batches(tier):
    one = st.tuples(st.lists(st.integers(1, 12), max_size=7), st.sampled_from([0, 0, 1, 2])).map(lambda t: sorted(t[0], reverse=True) + [0] * t[1])
    return st.lists(one, min_size=25, max_size=60)


def check(case):
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "batch.json")
        json.dump(case, open(f, "w"))
        env = child_env()
        env["HOME"] = tmp
        p = subprocess.run([SAGE, "-B", "-c", PROG, f, REPO], env=env, capture_output=True, text=True, cwd=tmp)
        if p.returncode < 0:
            raise RuntimeError(f"sage interpreter died: {p.returncode} {p.stderr[-500:]}")
        need(p.returncode == 0, lambda: f"the sage side failed: {p.stderr[-800:]}")
        bad = json.loads(p.stdout.strip().splitlines()[-1])
        need(not bad, lambda: "; ".join(bad))


PARTS = [Part("batch", check, 24, 200, strategy=batches, nontrivial=lambda c: any(len([x for x in l if x]) > 1 for l in c), label=lambda c: f"{len(c) // 10 * 10}+ partitions")]
