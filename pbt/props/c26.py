"""hashable_lru_cache / hashable_lru_cache_method: caching is invisible."""
import gens  # noqa: F401
from core import Part
from gens import st
from lib import need, sut
from schubertpy.utils.hash import hashable_lru_cache, hashable_lru_cache_method

RULE = ("calls: random call sequences (up to 25 calls) on a cached function and on a cached method of several objects (some replaced by new ones on the way), with list, tuple, text, number and None arguments, positional and "
        "through two keywords, cache sizes 1, 2, 5, 128, default and unlimited, typed or not (1, 1.0 and True are told apart only when typed): "
        "every call returns (or raises) what the plain function does on the same values, arguments are left alone, different instances and different functions do not share answers, an identical call right after another is "
        "not recomputed, exceptions are not cached, and name and documentation survive. long: 200 to 500 calls over up to 300 different arguments, so that every cache size overflows. size: on one function or object, exactly the maxsize most recently used answers are kept. "
        "Non-trivial: some call repeats an earlier one with lists.")

VAL = st.one_of(
    st.lists(st.integers(0, 4), max_size=3), st.lists(st.integers(0, 4), max_size=3), st.integers(0, 4),
    st.sampled_from(["a", "b", ""]), st.none(), st.lists(st.integers(0, 4), max_size=3).map(lambda l: {"t": l}))
TYPED = st.one_of(VAL, VAL, st.sampled_from([0, 1, 0.0, 1.0, True, False]))
NEW = 3          # calls [NEW, i]: object i is replaced by a new one


@st.composite
def cases(draw, tier):
    typed = draw(st.integers(0, 3)) == 0
    val = TYPED if typed else VAL
    kws = st.one_of(st.none(), st.none(), val)
    pool = draw(st.lists(st.tuples(st.lists(val, min_size=1, max_size=3), kws, kws).map(list), min_size=1, max_size=5))
    if typed:        # equal values of different types, which only typed caches tell apart
        a, b = draw(st.sampled_from([[1, 1.0], [0, False], [1, True], [0.0, 0], [2, 2.0]]))
        rest = draw(st.lists(val, max_size=1))
        for x in (a, b):
            pool.append([rest + [x], None, None] if draw(st.integers(0, 2)) else [[7], x, None])
    n = 25 if tier == "quick" else 60
    calls = draw(st.lists(st.one_of(*[st.tuples(st.integers(0, 2), st.integers(0, len(pool) - 1)).map(list)] * 6, st.tuples(st.just(NEW), st.integers(0, 2)).map(list)), min_size=draw(st.sampled_from([2, 6, 12])), max_size=n))
    return [draw(st.sampled_from([1, 2, 5, 128, None, "default"])), draw(st.booleans()), pool, calls, typed]


@st.composite
def long_cases(draw, tier):
    k = draw(st.integers(100, 300))
    step, off = draw(st.sampled_from([1, 7, 11, 101, 149])), draw(st.integers(0, 300))
    n = draw(st.integers(200, 500))
    return [draw(st.sampled_from([1, 2, 5, 128, None, "default"])), draw(st.booleans()), [k, step, off, n, draw(st.integers(0, 2))]]


def real(v):
    return tuple(v["t"]) if isinstance(v, dict) else list(v) if isinstance(v, list) else v


def canon(v):
    return tuple(v) if isinstance(v, list) else v


def tag(v):
    return [type(v).__name__, v] if isinstance(v, (bool, int, float)) else [tag(x) for x in v] if isinstance(v, tuple) else v


class Boom(Exception):
    pass


FAILS = {3: Boom, 2: TypeError, 4: KeyError}
CAUGHT = tuple(FAILS.values())


def formula(salt, args, key, other):
    """What the plain function computes."""
    vals = tuple(canon(a) for a in args)
    if vals and type(vals[0]) is int and vals[0] in FAILS and (vals[0] == 3 or len(vals) > 1):
        raise FAILS[vals[0]](f"{salt}")
    return repr((salt, tag(vals), tag(canon(key)), tag(canon(other))))


def run(f, args, kw):
    try:
        return ("value", f(*args, **kw))
    except CAUGHT as e:
        return (type(e).__name__, str(e))


def opts(size, typed):
    return dict({} if size == "default" else {"maxsize": size}, **({"typed": True} if typed else {}))


def targets(size, method, typed, count):
    if method:
        class Thing:
            def __init__(self, salt):
                self.salt = salt

            @hashable_lru_cache_method(**opts(size, typed))
            def value(self, *args, key=None, other=None):
                """doc of value"""
                count[0] += 1
                return formula(self.salt, args, key, other)
        return Thing, Thing.value

    def mk(salt):
        @hashable_lru_cache(**opts(size, typed))
        def value(*args, key=None, other=None):
            """doc of value"""
            count[0] += 1
            return formula(salt, args, key, other)
        return value
    return mk, mk(0)


def check(case):
    size, method, pool, calls, typed = case
    count = [0]
    make, raw = targets(size, method, typed, count)
    salts = [0, 1, 2]
    objs = [make(i) for i in range(3)]
    need(raw.__name__ == "value" and raw.__doc__ == "doc of value", lambda: f"the decorator hides the name or documentation: {raw.__name__}, {raw.__doc__}")
    last = None
    for i, j in calls:
        if i == NEW:
            objs[j] = None          # the old one may be collected, and its address reused
            salts[j] += 10
            objs[j] = make(salts[j])
            last = None
            continue
        args, key, other = pool[j]
        a, kw = [real(x) for x in args], {k: real(v) for k, v in (("key", key), ("other", other)) if v is not None}
        before = repr((a, kw))
        salt = salts[i]
        want = run(lambda *x, key=None, other=None: formula(salt, x, key, other), a, kw)
        n0 = count[0]
        w = f"call {args} key={key} other={other} on {'object' if method else 'function'} {i} (cache size {size}{', typed' if typed else ''})"
        got = sut(run, objs[i].value if method else objs[i], a, kw, what=w)
        need(got == want, lambda: f"{w}: {got}, expected {want}")
        need(repr((a, kw)) == before, lambda: f"{w} changed its arguments to {a}, {kw}")
        n1 = count[0]
        if want[0] != "value":
            need(n1 == n0 + 1, lambda: f"{w}: the function ran {n1 - n0} times for a call that raises {want[0]}")
        elif last == (i, j):
            need(n1 == n0, lambda: f"{w}: recomputed although the previous call was the same")
        last = (i, j)


def check_long(case):
    size, method, (k, step, off, n, how) = case
    count = [0]
    make, _ = targets(size, method, False, count)
    objs = [make(i) for i in range(2)]
    for t in range(n):
        x = (off + t * step + (t * t if how == 2 else 0)) % k
        i = t % 2 if how else 0
        arg = [x, x + 1] if t % 3 else x + 10
        want = formula(i, (arg,), None, None)
        w = f"call {t} with {arg} on {'object' if method else 'function'} {i} (cache size {size})"
        got = sut(objs[i].value if method else objs[i], arg, what=w) if not isinstance(arg, list) or arg[0] != 3 else want
        need(got == want, lambda: f"{w}: {got}, expected {want}")


@st.composite
def size_cases(draw, tier):
    size = draw(st.sampled_from([1, 2, 3, 5, 17, 128, "default", None]))
    top = {None: 300, "default": 128}.get(size, size)
    n = draw(st.integers(top + 1, 2 * top + 3)) if size is not None else draw(st.integers(200, 400))
    pool = draw(st.integers(top, top + 4)) if size is not None else n
    base = draw(st.lists(st.integers(0, pool), min_size=min(n, 60), max_size=min(n, 60)))
    # mostly rounds through the pool, with some drawn calls in between
    calls = []
    for t in range(n):
        calls.append(t % (pool + 1))
        if t < len(base):
            calls.append(base[t])
    return [size, draw(st.booleans()), calls]


def check_size(case):
    """One function (or one object): what is kept is what an LRU list of that length keeps."""
    size, method, calls = case
    count = [0]
    make, _ = targets(size, method, False, count)
    f = make(0)
    f = f.value if method else f
    top = 128 if size == "default" else size
    kept = []
    for t, x in enumerate(calls):
        arg = [9, x] if x % 2 else [8, x, x]
        n0 = count[0]
        w = f"call {t} ({arg}) with cache size {size}"
        got = sut(f, arg, what=w)
        need(got == formula(0, (arg,), None, None), lambda: f"{w}: {got}")
        ran = count[0] - n0
        need(ran == (x not in kept), lambda: f"{w}: the function ran {ran} times; the {len(kept)} most recently used arguments {'contain' if x in kept else 'do not contain'} it")
        if x in kept:
            kept.remove(x)
        kept.append(x)
        if top is not None:
            del kept[:-top]


def nt(c):
    seen = set()
    for x in map(tuple, c[3]):
        if x[0] == NEW:
            continue
        if x in seen and any(isinstance(a, list) for a in c[2][x[1]][0]):
            return True
        seen.add(x)
    return False


PARTS = [
    Part("calls", check, 4800, 20000, strategy=cases, nontrivial=nt, label=lambda c: ["method" if c[1] else "function", f"size {c[0]}", "typed" if c[4] else "untyped"]),
    Part("size", check_size, 240, 2400, strategy=size_cases, label=lambda c: ["method" if c[1] else "function", f"size {c[0]}"]),
    Part("long", check_long, 480, 1600, strategy=long_cases, label=lambda c: ["method" if c[1] else "function", f"size {c[0]}"]),
]
