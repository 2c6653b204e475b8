"""Values of canonical terms in finite models.

A model assigns Python values to the parameters of an analysed function; numbers are exact fractions and arrays are lists, on which arithmetic and
comparisons act element by element.  Only terms are evaluated, never the analysed code.  A term without meaning here raises NoValue (undecided); a
term whose evaluation the language rejects (an index out of range, a missing key) raises Rejected.
"""
import math
import numbers
from fractions import Fraction

from .checks.c08 import NoValue, Rejected, EXT


class NdArray:
    """Stands for numpy.ndarray in type tests; no model value is one."""


TYPES = {**EXT, "numpy.ndarray": NdArray}


def num(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return v
        return Fraction(repr(v))
    return v


def vec(v):
    return isinstance(v, (list, tuple))


def key(v):
    """Sequences are compared by content: the interpretation does not tell lists from tuples."""
    return tuple(map(key, v)) if isinstance(v, (list, tuple)) else v


def each(fn, *vs):
    """Element by element, with scalars and single elements stretched."""
    n = {len(v) for v in vs if vec(v)}
    if not n:
        return fn(*vs)
    m = max(n)
    if n - {1, m}:
        raise Rejected
    return [each(fn, *((v[0] if len(v) == 1 else v[i]) if vec(v) else v for v in vs)) for i in range(m)]


def half_even(x):
    f = math.floor(x)
    d = x - f
    if d == Fraction(1, 2):
        return f if f % 2 == 0 else f + 1
    return f if d < Fraction(1, 2) else f + 1


def need_num(*vs):
    for v in vs:
        if not isinstance(v, (int, Fraction, float)):
            raise Rejected


def arith(fn):
    def g(*a):
        need_num(*a)
        try:
            return fn(*a)
        except ZeroDivisionError:
            raise NoValue
    return g


ONE = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": half_even, "abs": abs, "fix": math.trunc,
       "sign": lambda x: (x > 0) - (x < 0)}
TWO = {"minimum": min, "maximum": max, "%": lambda a, b: a % b, "//": lambda a, b: a // b, "/": lambda a, b: Fraction(a) / Fraction(b),
       "-": lambda a, b: a - b, "**": lambda a, b: a ** b, "*": lambda a, b: a * b, "+": lambda a, b: a + b, "fmod": lambda a, b: math.fmod(a, b)}
ARRAYS = ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "ravel", "flatten", "squeeze")


STR = ("lower", "upper", "startswith", "endswith", "strip", "replace", "title", "capitalize", "split", "join", "isidentifier", "islower", "isupper")


class Model:
    """env: {term: value}; draws: how to choose the result of a call, given (name, arguments, position)."""

    def __init__(self, env, events=(), draw=None, resolve=None):
        self.env, self.draw, self.memo, self.resolve = dict(env), draw, {}, resolve
        self.calls = {}
        for e in events:
            if e[0] in ("call", "construct") and e[3][0] == "res":
                self.calls[e[3][1]] = e

    def ev(self, t, b=()):
        try:
            return self.value(t, dict(b))
        except (IndexError, KeyError):
            raise Rejected
        except (TypeError, ValueError, OverflowError, AttributeError) as e:
            raise NoValue(str(e))

    def value(self, t, b):
        o = t[0]
        E = lambda x: self.value(x, b)
        if t in b:
            return b[t]
        if t in self.env:
            return self.env[t]
        if o == "k":
            return num(t[2])
        if o == "ext":
            if t[1] in TYPES:
                return TYPES[t[1]]
            if t[1] in ("numpy.inf", "math.inf"):
                return math.inf
            raise NoValue(t)
        if o in ("bv", "ix"):
            if ("ix", t[1]) not in b:
                raise NoValue(t)
            return b[("ix", t[1])]
        if o == "tup":
            return tuple(E(x) for x in t[1:])
        if o == "list":
            return [E(x) for x in t[1:]]
        if o == "dict":
            return {key(E(x[1])): E(x[2]) for x in t[1:]}
        if o == "not":
            return each(lambda x: not x, E(t[1]))
        if o in ("or", "and"):
            r = o == "and"
            for x in t[1:]:
                r = E(x)
                if bool(r) == (o == "or"):
                    return r
            return r
        if o == "ite":
            return E(t[2] if E(t[1]) else t[3])
        if o == "len":
            return len(E(t[1]))
        if o == "at":
            v, i = E(t[1]), E(t[2])
            if isinstance(i, Fraction) and i.denominator == 1 and not isinstance(v, dict):
                i = int(i)
            if vec(i) and vec(v):
                return [v[int(j)] for j in i]
            if not isinstance(v, dict) and isinstance(i, int) and i < -len(v):
                raise Rejected
            return v[key(i) if isinstance(v, dict) else i]
        if o == "lin":
            r = num(t[1])
            for x, k in t[2]:
                r = each(arith(lambda p, q: p + q), r, each(arith(lambda q, k=num(k): k * q), E(x)))
            return r
        if o == "cmp":
            x, y = E(t[2]), E(t[3])
            if t[1] == "<":
                return each(lambda p, q: p < q, x, y)
            if t[1] == "==":
                for p, q in ((x, y), (y, x)):           # a slice of a string is kept as the sequence of its characters
                    if isinstance(p, str) and vec(q) and all(isinstance(c, str) and len(c) == 1 for c in q):
                        return p == "".join(q)
                if isinstance(x, list) != isinstance(y, list) and not isinstance(x, (tuple, dict, str, type)) and not isinstance(y, (tuple, dict, str, type)):
                    return each(lambda p, q: p == q, x, y)
                return x == y
            if t[1] == "is":
                return x is y or (isinstance(x, (int, float, str, Fraction)) and not isinstance(x, bool) and x == y)
            if t[1] == "in":
                return key(x) in [key(k) for k in y]
        if o == "cat":
            return list(E(t[1])) + list(E(t[2]))
        if o == "setat":
            v, i = list(E(t[1])), int(E(t[2]))
            v[i] = E(t[3])
            return v
        if o == "map":
            n, h = E(t[1]), t[3] if len(t) > 3 else 0
            if n > 64:
                raise NoValue(t)
            return [self.value(t[2], {**b, ("ix", h): i}) for i in range(int(n))]
        if o == "fold":
            n, h, acc = E(t[1]), t[4], E(t[2])
            if n > 4096:
                raise NoValue(t)
            for i in range(int(n)):
                acc = self.value(t[3], {**b, ("ix", h): i, ("acc",): acc})
            return acc
        if o == "perm":
            n, h = int(E(t[1])), t[3]
            keys = [self.value(t[2], {**b, ("ix", h): i}) for i in range(n)]
            return sorted(range(n), key=lambda i: keys[i])
        if o == "res":
            return self.result(t, b)
        if o == "new" and self.resolve is not None:
            r = self.resolve(t)
            if r[0] != "new":
                return E(r)
        if o == "kw":
            return E(t[2])
        if o == "attr":
            v = E(t[1])
            if hasattr(v, "fields"):
                return v.fields(t[2])
        if o == "app":
            return self.app(t, b)
        raise NoValue(t)

    def result(self, t, b):
        e = self.calls.get(t[1])
        if e is None or self.draw is None:
            raise NoValue(t)
        idx = tuple(self.value(x, b) for x in t[2:])
        at = (t[1], idx)
        if at not in self.memo:
            bb = dict(b)
            for p, v in zip(e[3][2:], idx):
                bb[p] = v
            pos, kw = [], {}
            for x in e[2]:
                if x[0] == "kw":
                    kw[x[1]] = x[2]
                else:
                    pos.append(x)
            self.memo[at] = self.draw(self, e[1], pos, kw, bb, idx)
        return self.memo[at]

    def app(self, t, b):
        f = t[1]
        pos = [x for x in t[2:] if x[0] != "kw"]
        kw = {x[1]: x[2] for x in t[2:] if x[0] == "kw"}
        a = [self.value(x, b) for x in pos]
        g = f[6:] if f.startswith("numpy.") else f
        if g in ARRAYS and len(a) == 1 and not set(kw) - {"dtype", "copy", "ndmin"}:
            return list(a[0]) if isinstance(a[0], (list, tuple)) else a[0]
        if f == "type":
            return NdArray if isinstance(a[0], NdArray) else int if isinstance(a[0], Fraction) and a[0].denominator == 1 else type(a[0])
        if f == "isinstance":
            ks = a[1] if isinstance(a[1], (tuple, list)) else (a[1],)
            return any(isinstance(a[0], k) for k in ks)
        if f == "clip" and len(a) == 3:
            return each(arith(lambda x, lo, hi: min(max(x, lo), hi)), *a)
        if f == "where" and len(a) == 3:
            return each(lambda c, x, y: x if c else y, *a)
        if f == "npround" and len(a) == 1:
            return each(arith(half_even), a[0])
        if f in ONE and len(a) == 1:
            return each(arith(ONE[f]), a[0])
        if f in TWO and len(a) == 2:
            if f == "*" and any(vec(x) for x in a) and any(isinstance(x, (tuple, str)) for x in a):
                raise NoValue(t)
            return each(arith(TWO[f]), *a)
        if f == "*":
            r = 1
            for x in a:
                r = each(arith(lambda p, q: p * q), r, x)
            return r
        if f in ("zeros", "ones") and len(a) == 1 and isinstance(a[0], (int, Fraction)):
            return [0 if f == "zeros" else 1] * int(a[0])
        if f == "full" and len(a) == 2 and isinstance(a[0], (int, Fraction)):
            return [a[1]] * int(a[0])
        if f == "concatenate" and len(a) == 1:
            return [y for x in a[0] for y in x]
        if f == "set" and len(a) > 1:
            return list(dict.fromkeys(a))
        if f == "set" or f == "unique":
            r = list(dict.fromkeys(a[0]))
            return sorted(r) if f == "unique" else r
        if f == "dict" and len(a) == 1:
            return {key(k): v for k, v in a[0]}
        if f == "values":
            return list(a[0].values())
        if f == "keys":
            return list(a[0])
        if f == "items":
            return [(k, v) for k, v in a[0].items()]
        if f in ("sum", "min", "max", "all", "any", "bool", "list", "tuple", "str", "sorted", "prod") and len(a) == 1:
            fn = {"sum": sum, "min": min, "max": max, "all": all, "any": any, "bool": bool, "list": list, "tuple": tuple, "str": str,
                  "sorted": sorted, "prod": math.prod}[f]
            return fn(a[0])
        if f in ("min", "max") and len(a) > 1:
            return (min if f == "min" else max)(a)
        if f == "int" and len(a) == 1:
            need_num(a[0])
            return math.trunc(a[0])
        if f == "float" and len(a) == 1:
            need_num(a[0])
            return a[0]
        if f in ("all", "any"):
            return (all if f == "all" else any)(a[0])
        if f.startswith("str.") and a and isinstance(a[0], str) and f[4:] in STR:
            return getattr(a[0], f[4:])(*a[1:])
        if f == "dictget" and isinstance(a[0], dict):
            return a[0].get(key(a[1]), *a[2:])
        if f == "range":
            return list(range(*map(int, a)))
        raise NoValue(t)


def path(ps, m_of):
    """(path, model) of the only path whose conditions hold; None when not determined.  m_of(path) builds the model of a path."""
    hit = []
    for p in ps:
        m = m_of(p)
        if all(bool(m.ev(c)) == b for c, b in p.conds):
            hit.append((p, m))
    return hit[0] if len(hit) == 1 else None
