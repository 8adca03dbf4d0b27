"""Sparse polynomials over Q in commuting variables, and a parser for the library's
printed expressions.  Independent of sympy's structural form: two outputs are equal
iff their polynomials are."""
from __future__ import annotations
import ast
import re
from fractions import Fraction

_TOK = re.compile(r"\s*(?:(S\s*\[[^A-Za-z*+/^-]*\])|([A-Za-z_][A-Za-z_0-9]*)|(\d+(?:\.\d+)?)|(\*\*|[-+*/^()]))")


class ParseError(Exception):
    pass


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


class Poly:
    """dict: monomial (sorted tuple of (var, exp)) -> Fraction.  var is a str or a
    tuple ("S", part)."""
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): Fraction(1)})

    def __add__(a, b):
        b = b if isinstance(b, Poly) else Poly.const(b)
        t = dict(a.t)
        for m, c in b.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(a):
        return Poly({m: -c for m, c in a.t.items()})

    def __sub__(a, b):
        b = b if isinstance(b, Poly) else Poly.const(b)
        return a + (-b)

    def __mul__(a, b):
        b = b if isinstance(b, Poly) else Poly.const(b)
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    __radd__ = __add__
    __rmul__ = __mul__

    def __pow__(a, e):
        r = Poly.const(1)
        for _ in range(e):
            r = r * a
        return r

    def __eq__(a, b):
        if not isinstance(b, Poly):
            b = Poly.const(b)
        return a.t == b.t

    def __hash__(a):
        return hash(frozenset(a.t.items()))

    def __bool__(a):
        return bool(a.t)

    def is_const(a):
        return all(m == () for m in a.t)

    def const_value(a):
        return a.t.get((), Fraction(0))

    def schurs(a):
        return sorted({v[1] for m in a.t for v, e in m if isinstance(v, tuple)}, key=repr)

    def vars(a):
        return {v for m in a.t for v, e in m}

    def __str__(a):
        if not a.t:
            return "0"
        out = []
        for m in sorted(a.t, key=repr):
            fs = []
            c = a.t[m]
            for v, e in m:
                s = v if isinstance(v, str) else fmt_class(v[1])
                fs.append(s if e == 1 else f"{s}^{e}")
            cs = str(c) if c.denominator == 1 else f"({c.numerator}/{c.denominator})"
            if fs and c == 1:
                out.append("*".join(fs))
            else:
                out.append("*".join([cs] + fs))
        return " + ".join(out)

    __repr__ = __str__


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(((v, e) for v, e in d.items() if e), key=lambda x: repr(x[0])))


def fmt_class(part):
    return "S[" + ",".join(_fmt(x) for x in part) + "]"


def _fmt(x):
    return "[" + ",".join(_fmt(y) for y in x) + "]" if isinstance(x, (tuple, list)) else str(x)


def S(part):
    return Poly.var(("S", freeze(part)))


def tokenize(s):
    pos, out = 0, []
    s = s.rstrip()
    while pos < len(s):
        # Schur symbols may nest one level of brackets (partition pairs)
        m = re.compile(r"\s*S\s*\[").match(s, pos)
        if m:
            depth, i = 1, m.end()
            while i < len(s) and depth:
                depth += {"[": 1, "]": -1}.get(s[i], 0)
                i += 1
            if depth:
                raise ParseError(s)
            try:
                part = ast.literal_eval(s[m.end() - 1:i])
            except Exception:
                raise ParseError(s)
            out.append(("S", freeze(part)))
            pos = i
            continue
        m = _TOK.match(s, pos)
        if not m or m.end() == pos:
            raise ParseError(f"{s!r} at {pos}")
        if m.group(2):
            out.append(("id", m.group(2)))
        elif m.group(3):
            out.append(("num", Fraction(m.group(3))))
        else:
            out.append(("op", "^" if m.group(4) == "**" else m.group(4)))
        pos = m.end()
    return out


def parse(s):
    toks = tokenize(s)
    p = [0]

    def peek():
        return toks[p[0]] if p[0] < len(toks) else (None, None)

    def nxt():
        p[0] += 1
        return toks[p[0] - 1]

    def expr():
        r = term()
        while peek() in (("op", "+"), ("op", "-")):
            op = nxt()[1]
            t = term()
            r = r + t if op == "+" else r - t
        return r

    def term():
        r = unary()
        while peek() in (("op", "*"), ("op", "/")):
            op = nxt()[1]
            t = unary()
            if op == "*":
                r = r * t
            else:
                if not t.is_const() or not t:
                    raise ParseError(f"division: {s!r}")
                r = r * (1 / t.const_value())
        return r

    def unary():
        if peek() in (("op", "+"), ("op", "-")):
            return unary() if nxt()[1] == "+" else -unary()
        return power()

    def power():
        b = atom()
        if peek() == ("op", "^"):
            nxt()
            e = unary()
            if not e.is_const() or e.const_value().denominator != 1 or e.const_value() < 0:
                raise ParseError(f"exponent: {s!r}")
            return b ** int(e.const_value())
        return b

    def atom():
        k, v = nxt() if p[0] < len(toks) else (None, None)
        if k == "num":
            return Poly.const(v)
        if k == "id":
            return Poly.var(v)
        if k == "S":
            return S(v)
        if (k, v) == ("op", "("):
            r = expr()
            if nxt() != ("op", ")"):
                raise ParseError(s)
            return r
        raise ParseError(s)

    r = expr()
    if p[0] != len(toks):
        raise ParseError(s)
    return r
