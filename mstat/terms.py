"""Terms of the framework analysis (core.py): canonical forms for values, sequences and conditions.

Terms are nested tuples whose first item is the operator.  Sequences of any length are described by a generic element: ('map', n, body)
is the sequence body[0], ..., body[n-1] where the bound index is ('bv', h).  ('perm', n, key) is the list of positions that sorts
key[0..n-1] ascending; descending order is the same permutation read backwards, so sorting, reversing, slicing, argmin and argmax of the
same keys end up in one form.  Ties between keys are not distinguished.
"""
from __future__ import annotations


def K(v):
    return ("k", type(v).__name__, v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def isk(t):
    return t[0] == "k"


def kv(t):
    return t[2]


def S(name):
    return ("s", name)


def isnum(t):
    return t[0] == "k" and t[1] in ("int", "float")


def isint(t):
    return t[0] == "k" and t[1] == "int"


# ------------------------------------------------------------------ arithmetic
def _lin(t):
    """(const, {term: coef})"""
    if isnum(t):
        return t[2], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def _mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, sign=1):
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sign * k
    return _mklin(ca + sign * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if isnum(a) and isnum(b):
        return K(kv(a) * kv(b))
    if isnum(b):
        a, b = b, a
    if isnum(a):
        c, d = _lin(b)
        return _mklin(c * kv(a), {t: k * kv(a) for t, k in d.items()})
    return ("app", "*") + tuple(sorted((a, b), key=repr))


# ------------------------------------------------------------------ structure
def rebuild(t, f):
    """Applies f to the children and renormalises."""
    op = t[0]
    if op in ("k", "s", "bv", "ix", "new", "fn", "cls", "ext", "unk", "acc"):
        return t
    if op == "lin":
        r = K(t[1])
        for x, k in t[2]:
            r = add(r, mul(K(k), f(x)))
        return r
    if op == "attr":
        return attr(f(t[1]), t[2])
    if op == "at":
        return at(f(t[1]), f(t[2]))
    if op == "len":
        return length(f(t[1]))
    if op == "cmp":
        return cmp_(t[1], f(t[2]), f(t[3]))
    if op == "not":
        return not_(f(t[1]))
    if op == "app":
        a = tuple(f(x) for x in t[2:])
        if t[1] == "*" and len(a) == 2:
            return mul(*a)
        return ("app", t[1]) + a
    if op == "ite":
        return ite(f(t[1]), f(t[2]), f(t[3]))
    if op == "slice":
        return slice_(f(t[1]), f(t[2]), f(t[3]), f(t[4]))
    if op in ("kw",):
        return (op, t[1], f(t[2]))
    if op in ("lv", "after"):
        return (op, t[1]) + tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:])
    return (op,) + tuple(f(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])


def subst(t, a, b):
    if t == a:
        return b
    if not contains(t, a):
        return t
    return rebuild(t, lambda x: subst(x, a, b))


def substf(t, f):
    """Bottom-up rewriting."""
    t = rebuild(t, lambda x: substf(x, f))
    r = f(t)
    return t if r is None else r


def contains(t, a):
    if t == a:
        return True
    return any(isinstance(x, tuple) and contains(x, a) for x in t)


def walk(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
            for x in t[1:]:
                if isinstance(x, tuple):
                    yield from walk(x)
        else:
            for x in t:
                if isinstance(x, tuple):
                    yield from walk(x)


def has_unknown(t):
    return any(x[0] in ("unk", "lv", "after") for x in walk(t))


def height(t):
    """Highest index bound or used in t."""
    return max((x[1] if x[0] == "bv" else x[BINDERS[x[0]]] for x in walk(t) if x[0] == "bv" or x[0] in BINDERS and len(x) > BINDERS[x[0]]), default=-1)


BINDERS = {"map": 3, "flat": 3, "perm": 3, "sumover": 3, "psum": 3, "filter": 4, "fold": 4}


def close(n, body, ix):
    """Sequence of n elements body(ix)."""
    h = height(body) + 1
    b = subst(body, ix, ("bv", h))
    # [s[i] for i in range(len(s))] is s
    if b[0] == "at" and b[2] == ("bv", h) and not contains(b[1], ("bv", h)) and length(b[1]) == n:
        return b[1]
    return ("map", n, b, h)


def attr(x, name):
    if x[0] == "copy" and name in ("solution", "target"):
        return attr(x[1], name)
    if x[0] == "ite":
        return ite(x[1], attr(x[2], name), attr(x[3], name))
    return ("attr", x, name)


def copy(x):
    """An independent candidate with the same solution and the same objective value."""
    if x[0] == "copy":
        return x
    if x[0] == "ite":
        return ite(x[1], copy(x[2]), copy(x[3]))
    return ("copy", x)


def uncopy(t):
    return substf(t, lambda x: x[1] if x[0] == "copy" else None)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if c[0] == "not":
        return ite(c[1], b, a)
    return ("ite", c, a, b)


NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}


def not_(c):
    if isk(c):
        return K(not kv(c))
    if c[0] == "not":
        return c[1]
    return ("not", c)


def cmp_(op, a, b):
    """Only '<', '==', 'is', 'in' remain; the others are negations or mirror images (totally ordered values)."""
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return not_(cmp_("<", a, b))
    if op == "<=":
        return not_(cmp_("<", b, a))
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "is not":
        return not_(cmp_("is", a, b))
    if op == "not in":
        return not_(cmp_("in", a, b))
    if op in ("==", "is") and isk(a) and not isk(b):
        a, b = b, a
    elif op in ("==", "is") and not isk(b) and repr(b) < repr(a):
        a, b = b, a
    if op == "==" and b == NONE:
        op = "is"
    if op == "<":
        d = sub(a, b)
        if isnum(d):
            return K(kv(d) < 0)
        if isk(a) and isk(b):
            try:
                return K(kv(a) < kv(b))
            except TypeError:
                pass
    if op in ("==", "is"):
        if a == b:
            return TRUE
        if isk(a) and isk(b):
            try:
                return K(bool(kv(a) == kv(b)))
            except Exception:
                pass
        if b == NONE and a[0] in ("new", "map", "tup", "list", "lin", "len", "fn", "cls", "ext", "copy", "cat"):
            return FALSE
        if op == "==" and isnum(sub(a, b)):
            return FALSE
        if a[0] == "cls" and b[0] == "cls" or a[0] == "ext" and b[0] == "ext":
            return K(a == b)
    if op == "in":
        items = None
        if b[0] in ("tup", "list"):
            items = b[1:]
        if items is not None:
            if not items:
                return FALSE
            rs = [cmp_("==", a, x) for x in items]
            if any(r == TRUE for r in rs):
                return TRUE
            if all(r == FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r != FALSE]
            return ("or",) + tuple(sorted(set(rs), key=repr)) if len(set(rs)) > 1 else rs[0]
        if isk(a) and isk(b) and isinstance(kv(a), str) and isinstance(kv(b), str):
            return K(kv(a) in kv(b))
    return ("cmp", op, a, b)


# ------------------------------------------------------------------ sequences
def length(t):
    op = t[0]
    if op == "map":
        return t[1]
    if op == "perm":
        return t[1]
    if op in ("tup", "list"):
        return K(len(t) - 1)
    if op == "cat":
        return add(length(t[1]), length(t[2]))
    if op == "setat":
        return length(t[1])
    if op == "k" and isinstance(kv(t), (str, tuple)):
        return K(len(kv(t)))
    if op == "ite":
        a, b = length(t[2]), length(t[3])
        if a == b:
            return a
    if op == "lv" and len(t) > 2 and t[2] == "samelen":
        return length(t[3])
    return ("len", t)


def at(t, i):
    op = t[0]
    if isint(i) and kv(i) < 0:
        i = add(length(t), i)
    if op == "map":
        return subst(t[2], ("bv", t[3]), i)
    if op in ("tup", "list"):
        if isint(i) and 0 <= kv(i) < len(t) - 1:
            return t[1 + kv(i)]
        return ("at", t, i)
    if op == "cat":
        la = length(t[1])
        d = sub(i, la)
        if isint(d) and kv(d) >= 0:
            return at(t[2], d)
        if isint(i) and isint(la) and kv(i) < kv(la):
            return at(t[1], i)
        lb = length(t[2])
        e = sub(d, lb)
        if isint(e) and isint(lb) and -kv(lb) <= kv(e) < 0:
            return at(t[2], add(lb, e))
        return ("at", t, i)
    if op == "setat":
        d = sub(i, t[2])
        if isint(d):
            return t[3] if kv(d) == 0 else at(t[1], i)
        return ("at", t, i)
    if op == "k" and isinstance(kv(t), (str, tuple)) and isint(i) and 0 <= kv(i) < len(kv(t)):
        return K(kv(t)[kv(i)])
    if op == "ite":
        return ite(t[1], at(t[2], i), at(t[3], i))
    return ("at", t, i)


def perm(n, key, h):
    """Positions ordering key ascending; returns (term, reversed?)"""
    c, d = _lin(key)
    if key[0] in ("lin",) and len(d) == 1 and list(d.values())[0] < 0:
        return ("perm", n, mul(K(-1), key) if c == 0 else key, h), c == 0
    return ("perm", n, key, h), False


def reverse(t):
    n = length(t)
    if t[0] in ("tup", "list"):
        return (t[0],) + tuple(reversed(t[1:]))
    return close(n, at(t, sub(sub(n, K(1)), ("ix", "rev"))), ("ix", "rev"))


def gather(s, p):
    """[s[j] for j in p]"""
    return close(length(p), at(s, at(p, ("ix", "g"))), ("ix", "g"))


def sort_perm(keyseq, desc=False):
    """Permutation sorting the sequence of keys."""
    n = length(keyseq)
    body = at(keyseq, ("ix", "sk"))
    h = height(body) + 1
    p, rev = perm(n, subst(body, ("ix", "sk"), ("bv", h)), h)
    return reverse(p) if rev != desc else p


def slice_(t, lo, hi, step):
    n = length(t)
    if step not in (NONE, K(1)):
        if step == K(-1) and lo == NONE and hi == NONE:
            return reverse(t)
        return ("slice", t, lo, hi, step)
    if lo == NONE:
        lo = K(0)
    if lo == K(0) and (hi == NONE or hi == n):
        return t
    if t[0] in ("tup", "list") and isint(lo) and (hi == NONE or isint(hi)):
        return (t[0],) + t[1:][kv(lo):(None if hi == NONE else kv(hi))]
    if _neg(lo):
        lo = add(n, lo)
    if hi == NONE:
        m = sub(n, lo)
    else:
        if _neg(hi):
            hi = add(n, hi)
        m = sub(hi, lo)
    if t[0] in ("map", "perm"):
        return close(m, at(t, add(lo, ("ix", "sl"))), ("ix", "sl"))
    return ("map", m, at(t, add(lo, ("bv", height(t) + 1))), height(t) + 1)


def _neg(t):
    """syntactically negative: -k"""
    if isnum(t):
        return kv(t) < 0
    return t[0] == "lin" and t[1] <= 0 and all(k < 0 for _, k in t[2])


def first_if(t):
    return t


def show(t, depth=0):
    """Readable form for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    op = t[0]
    if depth > 12:
        return "…"
    s = lambda x: show(x, depth + 1)
    if op == "k":
        return repr(t[2])
    if op == "s":
        return t[1]
    if op == "attr":
        return f"{s(t[1])}.{t[2]}"
    if op == "at":
        return f"{s(t[1])}[{s(t[2])}]"
    if op == "len":
        return f"len({s(t[1])})"
    if op == "lin":
        return "(" + " + ".join(([str(t[1])] if t[1] else []) + [(f"{k}*" if k != 1 else "") + s(x) for x, k in t[2]]) + ")"
    if op == "map":
        return f"[{s(t[2])} for i{t[3]} < {s(t[1])}]"
    if op == "bv":
        return f"i{t[1]}"
    if op == "perm":
        return f"argsort({s(t[2])} for i{t[3]})"
    if op == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if op == "not":
        return f"not {s(t[1])}"
    if op == "ite":
        return f"({s(t[2])} if {s(t[1])} else {s(t[3])})"
    if op == "app":
        return f"{t[1]}({', '.join(s(x) for x in t[2:])})"
    if op in ("cls", "ext"):
        return str(t[1])
    if op == "tup":
        return "(" + ", ".join(s(x) for x in t[1:]) + ")"
    if op == "list":
        return "[" + ", ".join(s(x) for x in t[1:]) + "]"
    if op == "kw":
        return f"{t[1]}={s(t[2])}"
    return op + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
