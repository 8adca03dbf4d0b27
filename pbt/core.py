"""Runner: generation, sharding, shrinking, replay, evidence."""
from __future__ import annotations

import dataclasses
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NSHARDS = 8
CPU_LIMIT = 100          # CPU seconds one case may take before it counts as "does not terminate"
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """The code under test broke the property on the current case."""


class Hang(BaseException):
    """One case used CPU_LIMIT seconds of CPU time (normal cases take well under a second)."""


def sut(fn, *a, what=None, **kw):
    """Call the code under test on an input it must accept."""
    try:
        return fn(*a, **kw)
    except Violation:
        raise
    except Exception as e:
        name = what or getattr(fn, "__name__", str(fn))
        raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]}") from e


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@dataclasses.dataclass
class Part:
    """One executable form of a property.

    strategy(tier) -> Hypothesis strategy of JSON-able cases, or
    cases(tier)    -> list of JSON-able cases (structured enumeration; sampled without
                      replacement down to the limit, smallest first).
    """
    name: str
    check: callable
    quick: int
    thorough: int
    strategy: callable = None
    cases: callable = None
    nontrivial: callable = None
    size: callable = None
    label: callable = None
    heavy: bool = False      # large inputs: running out of CPU time (40 s) is counted, not judged


HEAVY_LIMIT = 40


def _key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


class Recorder:
    def __init__(self, part):
        self.part = part
        self.n = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.timeouts = 0
        self.exhaustive = False

    def record(self, case):
        self.n += 1
        nt = self.part.nontrivial
        if nt is None or nt(case):
            k = _key(case)
            if k not in self.keys:
                self.keys.add(k)
                if len(self.samples) < 2 or (len(self.samples) < 4 and self.n % 50 == 0):
                    self.samples.append(case)
        if self.part.label:
            for l in _labels(self.part.label(case)):
                self.labels[l] = self.labels.get(l, 0) + 1


def _labels(x):
    return [] if x is None else [x] if isinstance(x, str) else list(x)


def _cpu_handler(signum, frame):
    raise Hang()


def run_case(part, case):
    signal.signal(signal.SIGVTALRM, _cpu_handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, HEAVY_LIMIT if part.heavy else CPU_LIMIT)
    try:
        part.check(case)
    except MemoryError as e:
        raise Violation(f"memory exhausted ({MEM_LIMIT >> 30} GB)") from e
    except Violation:
        raise
    except Exception as e:
        # raised inside the code under test on an input it must accept: a violation; anything else
        # is a harness error and ends the run with exit 2
        if not _in_sut(e):
            raise
        raise Violation(f"raised {type(e).__name__}: {str(e)[:300]}") from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _in_sut(e):
    repo = os.path.realpath(os.environ.get("SCHUBERT_REPO", "/repo")) + os.sep
    tb = e.__traceback__
    while tb:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo):
            return True
        tb = tb.tb_next
    return False


def _normal(case):
    return json.loads(json.dumps(case))


def run_enum(part, tier, seed, prop, shard, nshards, deadline, rec):
    cases = part.cases(tier)
    limit = part.quick if tier == "quick" else part.thorough
    rng = random.Random(f"{seed}|{prop}|{part.name}")
    if len(cases) > limit:
        cases = rng.sample(cases, limit)
    else:
        rec.exhaustive = True
        cases = list(cases)
        rng.shuffle(cases)
    mine = cases[shard::nshards]
    if part.size:
        mine.sort(key=part.size)
    for case in mine:
        if time.monotonic() > deadline:
            rec.skipped += 1
            continue
        case = _normal(case)
        try:
            run_case(part, case)
        except Violation as v:
            rec.record(case)
            return {"part": part.name, "case": case, "message": str(v)}
        except Hang:
            if part.heavy:
                rec.timeouts += 1
                continue
            rec.record(case)
            return {"part": part.name, "case": case, "message": f"no result within {CPU_LIMIT} s of CPU time"}
        rec.record(case)
    return None


def run_hyp(part, tier, seed, prop, shard, nshards, deadline, rec):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    # Every random case drawn afresh: Hypothesis' copy-and-splice mutations of earlier cases made
    # one case in six of a shard a near-duplicate (measured), which wastes small budgets.
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    limit = max(1, (part.quick if tier == "quick" else part.thorough) // nshards)
    hseed = int.from_bytes(hashlib.blake2b(f"{seed}|{prop}|{part.name}|{shard}".encode(), digest_size=8).digest(), "big")
    last = {}
    # + 1: Hypothesis' first example is always the simplest one, the same in every shard

    def body(case):
        case = _normal(case)
        if time.monotonic() > deadline and not last:
            rec.skipped += 1
            return
        if last and time.monotonic() > deadline + 60:
            return            # stop shrinking; the last failing case is the one reported
        try:
            run_case(part, case)
        except Violation as v:
            last["case"], last["msg"] = case, str(v)
            if not last.get("n"):
                rec.record(case)
            last["n"] = last.get("n", 0) + 1
            raise
        except Hang:
            if not part.heavy:
                last.setdefault("case", case)
                raise
            rec.timeouts += 1
            return
        if not last:
            rec.record(case)

    test = hypothesis.seed(hseed)(settings(
        max_examples=limit + 1, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
    )(given(part.strategy(tier))(body)))
    try:
        test()
    except Hang:
        return {"part": part.name, "case": last.get("case"), "message": f"no result within {CPU_LIMIT} s of CPU time"}
    except Violation:
        pass
    except BaseException:
        if not last:
            raise              # not the code under test: a harness error
    if last:
        return {"part": part.name, "case": last["case"], "message": last["msg"]}
    return None


def load(prop):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    mod = importlib.import_module(f"props.{prop.lower()}")
    return mod


def worker(prop, tier, seed, shard, nshards, deadline_s, out):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(3000)
    t0 = time.monotonic()
    mod = load(prop)
    res = {"parts": {}, "failure": None, "error": None}
    deadline = t0 + deadline_s
    parts = mod.PARTS
    # rotate, so that a slow machine does not starve the same part in every shard
    parts = parts[shard % len(parts):] + parts[:shard % len(parts)]
    try:
        for part in parts:
            rec = Recorder(part)
            t1 = time.monotonic()
            run = run_enum if part.cases else run_hyp
            try:
                fail = run(part, tier, seed, prop, shard, nshards, deadline, rec)
            finally:
                res["parts"][part.name] = {
                    "n": rec.n, "keys": sorted(rec.keys), "labels": rec.labels, "samples": rec.samples,
                    "skipped": rec.skipped, "timeouts": rec.timeouts, "exhaustive": rec.exhaustive, "s": round(time.monotonic() - t1, 2)}
            if fail:
                known = match_known(prop, fail)
                if known:
                    res.setdefault("known", []).append(known)
                    continue
                res["failure"] = fail
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(out, "w") as f:
        json.dump(res, f)


# ------------------------------------------------------------------ known findings
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def read_findings():
    """Lines 'finding: property=<id> part=<part> case=<json> :: <what fails>'."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                head, what = line[len("finding:"):].split(" :: ", 1)
                head, case = head.split(" case=", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                out.append({"property": kv["property"], "part": kv["part"], "case": json.loads(case), "what": what})
    return out


def match_known(prop, fail):
    for f in read_findings():
        if f["property"] == prop and f["part"] == fail["part"] and f["case"] == fail["case"]:
            return f
    return None


# ------------------------------------------------------------------ parent
def python():
    return "/opt/venv/bin/python"


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONHASHSEED="0")
    env.pop("PYTHONPYCACHEPREFIX", None)
    env.pop("PYTHONPATH", None)
    return env


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=5)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    prop = a.property.upper()
    if a.worker:
        tier, seed, shard, nshards, rest = a.worker
        budget, out = rest.split(",", 1)
        worker(prop, tier, int(seed), int(shard), int(nshards), float(budget), out)
        return 0
    if a.replay:
        return replay(prop, a.replay)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.blake2b(os.environ["VERIF_SEED"].encode(), digest_size=4).digest(), "big")
    tier = a.tier
    t0 = time.monotonic()
    mod = load_meta(prop)
    budget = a.budget or (150 if tier == "quick" else 2400)
    nshards = NSHARDS
    tmp = tempfile.mkdtemp(prefix=f"pbt_{prop}_")
    procs = []
    results = []
    try:
        for s in range(nshards):
            out = os.path.join(tmp, f"{s}.json")
            cmd = [python(), "-B", os.path.join(HERE, "run.py"), prop, "--worker", tier, str(seed), str(s), str(nshards), f"{budget},{out}"]
            log = open(os.path.join(tmp, f"{s}.log"), "w")
            procs.append((subprocess.Popen(cmd, env=child_env(), stdout=log, stderr=subprocess.STDOUT, cwd=tmp), out, log))
        hard = t0 + budget + 2.2 * CPU_LIMIT + 120
        failures, errors = [], []
        pending = dict(enumerate(procs))
        fail_seen_at = None
        while pending:
            for i in list(pending):
                p, out, log = pending[i]
                if p.poll() is None:
                    continue
                del pending[i]
                log.close()
                if not os.path.exists(out):
                    errors.append(f"shard {i}: exit {p.returncode}: " + open(os.path.join(tmp, f"{i}.log")).read()[-2000:])
                    continue
                r = json.load(open(out))
                results.append((i, r))
                if r["error"]:
                    errors.append(f"shard {i}: {r['error'][-3000:]}")
                if r["failure"]:
                    failures.append((i, r["failure"]))
                    fail_seen_at = fail_seen_at or time.monotonic()
            now = time.monotonic()
            if now > hard or (fail_seen_at and now > fail_seen_at + 45):
                for i in pending:
                    pending[i][0].kill()
                    pending[i][0].wait()
                    if not fail_seen_at:
                        errors.append(f"shard {i}: killed after {now - t0:.0f} s")
                break
            time.sleep(0.05)
    finally:
        for p, out, log in procs:
            if p.poll() is None:
                p.kill()
        subprocess.run(["rm", "-rf", tmp])
    wall = time.monotonic() - t0
    known = {}
    for _, r in results:
        for k in r.get("known", []):
            known[json.dumps(k["case"])] = k
    for k in known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    if failures:
        failures.sort(key=lambda x: (len(json.dumps(x[1]["case"])), x[0]))
        shard, f = failures[0]
        path = write_replay(prop, tier, seed, shard, nshards, f)
        print(f"{prop}: part {f['part']}: {f['message']}")
        print("case: " + json.dumps(f["case"])[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif errors:
        print("\n".join(errors), file=sys.stderr)
        rc = 2
    write_evidence(prop, mod, tier, seed, results, wall, len(failures))
    if rc == 0:
        tot = sum(p["n"] for _, r in results for p in r["parts"].values())
        sk = sum(p["skipped"] for _, r in results for p in r["parts"].values())
        print(f"{prop}: held on {tot} cases ({sk} skipped by the time budget), {wall:.1f} s")
    return rc


def load_meta(prop):
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(line)
        if d["id"] == prop:
            return d
    raise SystemExit(f"unknown property {prop}")


def _slug(s):
    return "".join(c if c.isalnum() else "_" for c in s)


def write_replay(prop, tier, seed, shard, nshards, f):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    obj = {"property": prop, "part": f["part"], "case": f["case"], "message": f["message"],
           "context": {"tier": tier, "seed": seed, "shard": shard, "nshards": nshards}}
    path = os.path.join(d, f"{prop}-{_slug(f['part'])}-{_key(f['case'])}.json")
    with open(path, "w") as fh:
        json.dump(obj, fh, indent=1)
    return path


def replay(prop, path):
    obj = json.load(open(path))
    mod = load(prop)
    part = {p.name: p for p in mod.PARTS}[obj["part"]]
    if obj["case"] is not None:
        try:
            run_case(part, obj["case"])
        except Violation as v:
            print(f"{prop}: part {part.name}: {v}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        except Hang:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    # depends on what ran before it in the same process: repeat that whole shard
    c = obj["context"]
    with tempfile.TemporaryDirectory() as tmp:
        out = os.path.join(tmp, "r.json")
        subprocess.run([python(), "-B", os.path.join(HERE, "run.py"), prop, "--worker", c["tier"], str(c["seed"]),
                        str(c["shard"]), str(c["nshards"]), f"3000,{out}"], env=child_env())
        r = json.load(open(out))
    if r["failure"]:
        print(f"{prop}: (only after the cases before it) {r['failure']['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: replay {path}: the property holds on this case")
    return 0


def write_evidence(prop, meta, tier, seed, results, wall, nviol):
    mod = load(prop)
    parts = {}
    for _, r in results:
        for name, p in r["parts"].items():
            d = parts.setdefault(name, {"evaluations": 0, "keys": set(), "labels": {}, "samples": [], "skipped": 0, "timeouts": 0, "exhaustive": True, "cpu": 0})
            d["evaluations"] += p["n"]
            d["keys"] |= set(p["keys"])
            d["skipped"] += p["skipped"]
            d["timeouts"] += p["timeouts"]
            d["cpu"] += p["s"]
            d["exhaustive"] &= p["exhaustive"]
            if len(d["samples"]) < 3:
                d["samples"] += p["samples"][:1]
            for k, v in p["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
    per = {}
    for name, d in parts.items():
        per[name] = {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["keys"]), "skipped_by_time_budget": d["skipped"], **({"out_of_cpu_time": d["timeouts"]} if d["timeouts"] else {}),
                     "worker_seconds": round(d["cpu"], 1)}
        if d["labels"]:
            per[name]["distribution"] = dict(sorted(d["labels"].items(), key=lambda x: -x[1])[:40])
        if d["exhaustive"] and not d["skipped"]:
            per[name]["whole_listed_domain_run"] = True
    cov = {
        "evaluations": sum(d["evaluations"] for d in parts.values()),
        "distinct_nontrivial": sum(len(d["keys"]) for d in parts.values()),
        "rule": mod.RULE,
        "samples": [{"part": n, "case": c} for n, d in parts.items() for c in d["samples"][:3]],
        "parts": per,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
