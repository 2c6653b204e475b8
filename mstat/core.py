"""Path-sensitive abstract interpreter for framework functions.

Values are canonical terms (terms.py).  Branches on undetermined conditions split the path; the only facts kept about a path are the truth
of atomic conditions and the possible orderings (<, =, >) of pairs of terms.  Loops over sequences are summarised by one generic
iteration.  Calls are inlined (so a helper function makes no difference) unless the specification lists them as opaque.  Whatever the
interpreter does not understand becomes an 'unk' term, and a verdict that depends on one is 'undecided', never a violation.
"""
from __future__ import annotations
import ast
import itertools

from .program import Class, Func, Module, AnalysisError
from .terms import *            # noqa: F401,F403
from . import terms as T

NP = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "numpy.maximum": "maximum", "numpy.minimum": "minimum",
      "numpy.clip": "clip", "numpy.where": "where", "numpy.sum": "sum", "numpy.mean": "mean", "numpy.median": "median",
      "numpy.dot": "dot", "numpy.floor": "floor", "numpy.ceil": "ceil", "numpy.round": "npround", "numpy.rint": "rint",
      "numpy.trunc": "trunc", "numpy.zeros": "zeros", "numpy.ones": "ones", "numpy.full": "full", "numpy.concatenate": "concatenate",
      "numpy.hstack": "concatenate", "numpy.std": "std", "numpy.ptp": "ptp", "numpy.any": "any", "numpy.all": "all", "numpy.prod": "prod",
      "numpy.product": "np.product", "numpy.sqrt": "sqrt", "numpy.power": "power", "numpy.multiply": "*", "numpy.inner": "dot",
      "numpy.add": "+", "numpy.mod": "%", "numpy.remainder": "%", "math.floor": "floor", "math.ceil": "ceil", "math.prod": "prod",
      "numpy.logical_and": "logical_and", "numpy.logical_or": "logical_or", "numpy.vstack": "vstack", "numpy.stack": "stack"}
IDENT = {"numpy.array", "numpy.asarray", "numpy.copy", "copy.copy", "copy.deepcopy", "numpy.asanyarray", "numpy.atleast_1d"}
MAXPATHS = 600


class GiveUp(Exception):
    pass


class St:
    __slots__ = ("env", "attrs", "cells", "kinds", "rels", "truth", "conds", "eff", "foralls", "flags", "n")

    def __init__(self):
        self.env, self.attrs, self.cells, self.kinds, self.rels, self.truth = {}, {}, {}, {}, {}, {}
        self.conds, self.eff, self.foralls, self.flags = [], [], [], set()

    def clone(self):
        s = St()
        s.env = dict(self.env)
        s.attrs = dict(self.attrs)
        s.cells = dict(self.cells)
        s.kinds = dict(self.kinds)
        s.rels = dict(self.rels)
        s.truth = dict(self.truth)
        s.conds = list(self.conds)
        s.eff = list(self.eff)
        s.foralls = list(self.foralls)
        s.flags = set(self.flags)
        return s


class Path:
    """One way through a function: how it ended ('return'/'raise'), the value and the final state."""

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    @property
    def conds(self):
        return self.st.conds

    @property
    def eff(self):
        return self.st.eff

    def res(self, t):
        return resolve(t, self.st)

    @property
    def value(self):
        return resolve(self.val, self.st)

    def attr(self, obj, name):
        return resolve(self.st.attrs.get((obj, name), attr(obj, name)), self.st)

    def content(self, cell):
        return resolve(self.st.cells.get(cell, cell), self.st)

    def held(self, obj, name):
        """Contents of the container an attribute holds at the end."""
        v = self.st.attrs.get((obj, name), attr(obj, name))
        return resolve(self.st.cells.get(v, v), self.st)

    def __repr__(self):
        return f"<{self.kind} {show(self.value)} | {[('' if b else 'not ') + show(c) for c, b in self.conds]}>"


def resolve(t, st, depth=0):
    """Replaces fresh containers by their contents."""
    if depth > 30 or not isinstance(t, tuple):
        return t
    if t[0] == "new":
        c = st.cells.get(t)
        if c is None:
            return t
        return resolve(c, st, depth + 1)
    if t[0] == "lv":
        return t
    if not any(x[0] == "new" for x in T.walk(t)):
        return t
    return rebuild(t, lambda x: resolve(x, st, depth + 1))


class Closure:
    def __init__(self, node, env, module, cls, fid):
        self.node, self.env, self.module, self.cls, self.fid = node, env, module, cls, fid


class Core:
    """prog: Program; opaque(func)->bool decides which package functions are not inlined; types maps terms/(class, attr) to Class or
    ('list', Class) so that methods of opaque values can be resolved."""

    def __init__(self, prog, opaque=None, attr_types=None, term_types=None, pure=None, depth=14, special=None):
        self.prog, self.depth = prog, depth
        self.opaque = opaque or (lambda f: False)
        self.attr_types, self.term_types = attr_types or {}, term_types or {}
        self.pure = pure or (lambda f: False)
        self.uid = itertools.count()
        self.fns = {}
        self.raised = [[]]
        self.frames = []
        self.steps = 0
        self.inlined = set()
        self.ixstack = []
        # for play.py: events for new containers, for reads of objects that were called before, and what is known after a loop
        self.births, self.lasts = False, None
        self.special = {("Agent", "copy"): lambda core, f, pos, kw, st: [(copy(pos[0]), st)]} if special is None else special

    # ------------------------------------------------------------------ entry
    def run(self, func, args=(), kwargs=None, setup=None, st=None):
        """All paths of a function."""
        s = st or St()
        if setup:
            setup(s)
        self.raised = [[]]
        self.ixstack = []
        self.steps = 0
        out = [Path("return", v, s2) for v, s2 in self.call_func(func, list(args), dict(kwargs or {}), s)]
        out += [Path("raise", e, s2) for s2, e in self.raised[0]]
        return out

    def unk(self, why=""):
        return ("unk", next(self.uid), why)

    def fresh(self, st, kind, content=None):
        t = ("new", next(self.uid))
        st.kinds[t] = kind
        if content is not None:
            st.cells[t] = content
            if self.births:
                st.eff.append(("birth", t, content))
        return t

    # ------------------------------------------------------------------ types
    def typeof(self, t, st):
        if t in self.term_types:
            return self.term_types[t]
        if t[0] == "new":
            k = st.kinds.get(t)
            if isinstance(k, tuple) and k[0] == "obj":
                return k[1]
            return None
        if t[0] == "copy":
            return self.typeof(t[1], st)
        if t[0] == "ite":
            return self.typeof(t[2], st) or self.typeof(t[3], st)
        if t[0] == "attr":
            b = self.typeof(t[1], st)
            if isinstance(b, Class):
                for c in b.mro:
                    if isinstance(c, Class) and (c.name, t[2]) in self.attr_types:
                        return self.attr_types[(c.name, t[2])]
            return None
        if t[0] == "at":
            b = self.typeof(t[1], st)
            if isinstance(b, tuple) and b[0] == "list":
                return b[1]
            c = st.cells.get(t[1])
            if c is not None and c[0] in ("map",):
                return self.typeof(at(c, t[2]), st)
            return None
        if t[0] in ("lv",) and len(t) > 3:
            return self.typeof(t[3], st) if isinstance(t[3], tuple) else None
        return None

    # ------------------------------------------------------------------ conditions
    def decide(self, c, st):
        if isk(c):
            return bool(kv(c))
        if c in st.truth:
            return st.truth[c]
        op = c[0]
        if op == "not":
            r = self.decide(c[1], st)
            return None if r is None else not r
        if op == "ite":
            r = self.decide(c[1], st)
            if r is not None:
                return self.decide(c[2] if r else c[3], st)
            return None
        if op == "or":
            rs = [self.decide(x, st) for x in c[1:]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if op == "and":
            rs = [self.decide(x, st) for x in c[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if op == "cmp" and c[1] in ("<", "=="):
            a, b = self.canon(c[2], st), self.canon(c[3], st)
            d = cmp_(c[1], a, b)
            if isk(d):
                return bool(kv(d))
            rel, flip = self.rel(a, b, st)
            if rel is not None:
                w = "==" if c[1] == "==" else (">" if flip else "<")
                if rel == {w}:
                    return True
                if w not in rel:
                    return False
        if op in ("new",):
            return None if st.kinds.get(c) in ("list", "dict", "set") else True
        if op in ("tup", "list"):
            return len(c) > 1
        if op in ("fn", "cls", "copy", "ext"):
            return True
        return None

    def canon(self, t, st):
        return t

    def rel(self, a, b, st):
        if (a, b) in st.rels:
            return st.rels[(a, b)], False
        if (b, a) in st.rels:
            return st.rels[(b, a)], True
        return None, False

    def assume(self, c, val, st):
        """Adds a fact; False if contradictory."""
        if isk(c):
            return bool(kv(c)) == val
        if c[0] == "not":
            return self.assume(c[1], not val, st)
        if c[0] == "or" and not val:
            return all(self.assume(x, False, st) for x in c[1:])
        if c[0] == "and" and val:
            return all(self.assume(x, True, st) for x in c[1:])
        cur = self.decide(c, st)
        if cur is not None:
            return cur == val
        st.truth[c] = val
        if c[0] == "cmp" and c[1] in ("<", "=="):
            a, b = c[2], c[3]
            rel, flip = self.rel(a, b, st)
            cur = set(rel) if rel is not None else {"<", "==", ">"}
            w = "==" if c[1] == "==" else (">" if flip else "<")
            new = cur & {w} if val else cur - {w}
            if not new:
                return False
            st.rels[(b, a) if flip else (a, b)] = frozenset(new)
        return True

    def branch(self, c, st):
        """[(bool, state)]"""
        if c[0] == "not":
            return [(not b, s) for b, s in self.branch(c[1], st)]
        r = self.decide(c, st)
        if r is not None:
            return [(r, st)]
        out = []
        for val in (True, False):
            s = st.clone()
            if self.assume(c, val, s):
                s.conds.append((c, val))
                out.append((val, s))
        return out

    def truthy(self, t, st):
        """Condition term for `if t`."""
        if isk(t):
            return K(bool(kv(t)))
        if t[0] in ("cmp", "not", "or", "and"):
            return t
        if t[0] == "app" and t[1] in ("isinstance", "callable", "hasattr", "any", "all", "logical_and", "logical_or"):
            return t
        if t[0] in ("tup", "list"):
            return K(len(t) > 1)
        c = self.content(t, st)
        if st.kinds.get(t) == "list" or c[0] in ("map", "cat", "perm"):
            return not_(cmp_("==", length(c), K(0)))
        if t[0] in ("fn", "cls", "copy", "ext"):
            return TRUE
        if t[0] == "new" and isinstance(st.kinds.get(t), tuple):
            return TRUE
        if t[0] == "ite":
            return ite(t[1], self.truthy(t[2], st), self.truthy(t[3], st))
        return ("app", "bool", t)

    # ------------------------------------------------------------------ containers
    def content(self, t, st):
        return st.cells.get(t, t)

    def seq(self, t, st):
        """Sequence term for a value."""
        c = self.content(t, st)
        return c

    def mklist(self, st, content):
        return self.fresh(st, "list", content)

    # ------------------------------------------------------------------ names
    def name(self, n, st, node):
        if n in st.env:
            return st.env[n]
        fr = self.frames[-1] if self.frames else None
        mod = fr[0].module if fr else None
        if n == "__class__" and fr and fr[0].cls:
            return ("cls", fr[0].cls.qual)
        if mod is not None:
            r = self.prog.resolve_name(mod, n)
            if r is not None:
                return self.resolved(r)
        import builtins
        if hasattr(builtins, n):
            return ("ext", "builtins." + n)
        return self.unk(f"name {n}")

    def resolved(self, r):
        if isinstance(r, Class):
            return ("cls", r.qual)
        if isinstance(r, Func):
            self.fns[("f", r.qual)] = r
            return ("fn", ("f", r.qual))
        if isinstance(r, Module):
            return ("ext", r.name)
        if isinstance(r, tuple) and r[0] == "global":
            m, n = r[1], r[2]
            try:
                return self.const(m.globals[n], m)
            except GiveUp:
                return ("ext", f"{m.name}.{n}")
        if isinstance(r, str):
            return ("ext", r)
        return self.unk("name")

    def const(self, e, module):
        """Constant expression at module or class level."""
        if isinstance(e, ast.Constant):
            return K(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return mul(K(-1), self.const(e.operand, module))
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tup" if isinstance(e, ast.Tuple) else "list",) + tuple(self.const(x, module) for x in e.elts)
        if isinstance(e, ast.Name):
            import builtins
            r = self.prog.resolve_name(module, e.id)
            if r is not None:
                return self.resolved(r)
            if hasattr(builtins, e.id):
                return ("ext", "builtins." + e.id)
        if isinstance(e, ast.Attribute):
            b = self.const(e.value, module)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        raise GiveUp

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        """[(value, state)]"""
        self.steps += 1
        if self.steps > 200000:
            raise GiveUp("too many steps")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            out = [(self.unk(type(e).__name__), st)]
        else:
            out = m(e, st)
        if len(out) > MAXPATHS:
            raise GiveUp("too many paths")
        return out

    def evs(self, es, st):
        """[([values], state)] left to right"""
        out = [([], st)]
        for e in es:
            nxt = []
            for vs, s in out:
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            out = nxt
        return out

    def e_Constant(self, e, st):
        return [(K(e.value), st)]

    def e_Name(self, e, st):
        return [(self.name(e.id, st, e), st)]

    def e_NamedExpr(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            s.env[e.target.id] = v
            out.append((v, s))
        return out

    def e_Tuple(self, e, st):
        return [(("tup",) + tuple(vs), s) for vs, s in self.items(e.elts, st)]

    def items(self, elts, st):
        out = [([], st)]
        for x in elts:
            nxt = []
            for vs, s in out:
                if isinstance(x, ast.Starred):
                    for v, s2 in self.ev(x.value, s):
                        c = self.seq(v, s2)
                        nxt.append((vs + (list(c[1:]) if c[0] in ("tup", "list") else [("star", c)]), s2))
                else:
                    for v, s2 in self.ev(x, s):
                        nxt.append((vs + [v], s2))
            out = nxt
        return out

    def e_List(self, e, st):
        out = []
        for vs, s in self.items(e.elts, st):
            out.append((self.mklist(s, self.starcat(vs)), s))
        return out

    @staticmethod
    def starcat(vs):
        c = ("list",)
        for v in vs:
            if v[0] == "star":
                c = cat(c, v[1])
            else:
                c = cat(c, ("list", v))
        return c

    def e_Set(self, e, st):
        return [(self.fresh(s, "set", ("app", "set") + tuple(sorted(vs, key=repr))), s) for vs, s in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        out = [((), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for items, s in out:
                if k is None:
                    for vv, s2 in self.ev(v, s):
                        c = self.content(vv, s2)
                        nxt.append((items + (c[1:] if c[0] == "dict" else (("kv", ("star",), c),)), s2))
                else:
                    for (kk, vv), s2 in self.evs([k, v], s):
                        nxt.append((items + (("kv", kk, vv),), s2))
            out = nxt
        return [(self.fresh(s, "dict", ("dict",) + items), s) for items, s in out]

    def e_JoinedStr(self, e, st):
        parts = []
        out = [([], st)]
        for v in e.values:
            nxt = []
            for ps, s in out:
                if isinstance(v, ast.Constant):
                    nxt.append((ps + [K(v.value)], s))
                else:
                    spec = ast.unparse(v.format_spec) if v.format_spec else None
                    for x, s2 in self.ev(v.value, s):
                        nxt.append((ps + [x if spec is None else ("app", "format", x, K(spec))], s2))
            out = nxt
        return [(fmt(ps), s) for ps, s in out]

    def e_UnaryOp(self, e, st):
        out = []
        for v, s in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((not_(self.truthy(v, s)), s))
            elif isinstance(e.op, ast.USub):
                out.append((mul(K(-1), v), s))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, s))
            else:
                out.append((("app", "~", v), s))
        return out

    BIN = {ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|",
           ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

    def e_BinOp(self, e, st):
        return [(self.binop(e.op, a, b, s), s) for (a, b), s in self.evs([e.left, e.right], st)]

    def islist(self, t, st):
        k = st.kinds.get(t)
        if k == "list":
            return True
        if t[0] in ("map", "list", "cat", "perm") and k is None:
            return True
        ty = self.typeof(t, st)
        return isinstance(ty, tuple) and ty[0] == "list"

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if isk(a) and isinstance(kv(a), str) or isk(b) and isinstance(kv(b), str) or a[0] == "fmt" or b[0] == "fmt":
                return fmt([a, b])
            if a[0] == "tup" and b[0] == "tup":
                return a + b[1:]
            if self.islist(a, st) or self.islist(b, st):
                return self.mklist(st, cat(self.seq(a, st), self.seq(b, st)))
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                c = self.content(x, st)
                if (st.kinds.get(x) == "list" or x[0] == "tup") and c[0] in ("list", "tup") and len(c) == 2:
                    r = ("map", y, c[1], height(c[1]) + 1)
                    return self.mklist(st, r) if x[0] != "tup" else r
            return mul(a, b)
        o = self.BIN.get(type(op), "?")
        if isnum(a) and isnum(b):
            try:
                return K({"/": lambda: kv(a) / kv(b), "//": lambda: kv(a) // kv(b), "%": lambda: kv(a) % kv(b),
                          "**": lambda: kv(a) ** kv(b)}[o]())
            except Exception:
                pass
        if o == "%" and isk(a) and isinstance(kv(a), str):
            return fmt([self.unk("percent format")])
        if o == "/" and isnum(b):
            return mul(K(1 / kv(b)), a)
        if o == "**" and b == K(2):
            return mul(a, a)
        return ("app", o, a, b)

    OPS = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
           ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, e, st):
        out = []
        for vs, s in self.evs([e.left] + e.comparators, st):
            cs = []
            for a, o, b in zip(vs, e.ops, vs[1:]):
                op = self.OPS[type(o)]
                if "in" in op.split():
                    b = self.content(b, s)
                    if b[0] == "dict":
                        b = ("tup",) + tuple(x[1] for x in b[1:])
                elif op in ("==", "!="):
                    a2, b2 = self.content(a, s), self.content(b, s)
                    a, b = (a2, b2) if (a2[0] in ("list",) or b2[0] in ("list",)) else (a, b)
                cs.append(cmp_(op, a, b))
            c = cs[0]
            if len(cs) > 1:
                c = and_(cs)
            out.append((c, s))
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out = []
        pend = [st]
        for i, x in enumerate(e.values):
            nxt = []
            for s in pend:
                for v, s2 in self.ev(x, s):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for b, s3 in self.branch(self.truthy(v, s2), s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((K(b) if v[0] in ("cmp", "not", "or", "and") or isk(v) and isinstance(kv(v), bool) else v, s3))
            pend = nxt
        return out

    def cond(self, e, st):
        """[(bool, state)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, pend = [], [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in pend:
                    for b, s2 in self.cond(x, s):
                        if b == isand and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                pend = nxt
            return out
        out = []
        for v, s in self.ev(e, st):
            out += self.branch(self.truthy(v, s), s)
        return out

    def e_IfExp(self, e, st):
        out = []
        for b, s in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, s)
        return out

    def e_Lambda(self, e, st):
        return [(self.closure(e, st), st)]

    def closure(self, node, st):
        fid = ("c", next(self.uid))
        fr = self.frames[-1][0] if self.frames else None
        self.fns[fid] = Closure(node, st.env, fr.module if fr else None, fr.cls if fr else None, fid)
        return ("fn", fid)

    def e_Starred(self, e, st):
        return [(("star", self.seq(v, s)), s) for v, s in self.ev(e.value, st)]

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        out = []
        for v, s in (self.ev(e.value, st) if e.value else [(NONE, st)]):
            s.eff.append(("yield", v))
            out.append((NONE, s))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            s.eff.append(("yieldfrom", self.seq(v, s)))
            out.append((NONE, s))
        return out

    # ---- attributes
    def e_Attribute(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            out += self.getattr(v, e.attr, s, e)
        return out

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__") and self.frames and self.frames[-1][0].cls:
            return self.frames[-1][0].cls.mangled(name)
        return name

    def readattr(self, v, name, st):
        if (v, name) in st.attrs:
            return st.attrs[(v, name)]
        # later updates of all members of a sequence
        for n, objb, nm, valb, ix in reversed(st.foralls):
            if nm != name:
                continue
            i = match(objb, v, ix)
            if i is not None:
                return subst(valb, ix, i)
        if v[0] == "copy" and (v[1], name) in st.attrs and name in ("solution", "target"):
            return st.attrs[(v[1], name)]
        return attr(v, name)

    def getattr(self, v, name, st, node=None):
        if self.births and (("touched", v) in st.flags or v[0] == "res" and ("read", v) in st.flags) and (v, name) not in st.attrs:
            ty = self.typeof(v, st)
            f = ty.lookup(name) if isinstance(ty, Class) else None
            if f is None or f.kind == "property" and self.opaque(f):
                r = ("res", next(self.uid)) + tuple(self.ixstack)
                st.eff.append(("read", v, name, r))
                st.flags.add(("read", r))
                return [(r, st)]
        if v[0] == "ext":
            q = f"{v[1]}.{name}"
            r = self.prog.resolve_qual(q)
            if not isinstance(r, str):
                return [(self.resolved(r), st)]
            if q == "numpy.inf" or q == "math.inf":
                return [(K(float("inf")), st)]
            return [(("ext", q), st)]
        if v[0] == "cls":
            c = self.prog.cls(v[1])
            if name in ("__name__",):
                return [(K(c.name), st)]
            f = c.lookup(self.mangle(name))or c.lookup(name)
            if f is not None:
                return [(("bound", v, self.fref(f)), st)]
            ca, owner = c.class_attr(name)
            if ca is not None:
                try:
                    return [(self.const(ca, owner.module), st)]
                except GiveUp:
                    pass
            return [(attr(v, name), st)]
        if v[0] == "super":
            f = v[3]
            nxt = v[1]
            g = self.prog.cls(v[2]).lookup_after(self.prog.cls(nxt), name)
            if g is None:
                return [(("extmeth", v[4], "super." + name), st)]
            return [(("bound", v[4], self.fref(g)), st)]
        ty = self.typeof(v, st)
        if isinstance(ty, Class):
            if name == "__class__":
                return [(("app", "type", v), st)]
            mname = self.mangle(name)
            if (v, mname) in st.attrs:
                return [(st.attrs[(v, mname)], st)]
            f = ty.lookup(name)
            if f is not None:
                if f.kind == "property":
                    if self.opaque(f):
                        return [(self.readattr(v, name, st), st)]
                    return self.call_func(f, [v], {}, st)
                return [(("bound", v, self.fref(f)), st)]
            r = self.readattr(v, mname, st)
            if r == attr(v, mname):
                ca, owner = ty.class_attr(name)
                if ca is not None:
                    try:
                        return [(self.const(ca, owner.module), st)]
                    except GiveUp:
                        pass
            return [(r, st)]
        if v[0] == "fn":
            return [(attr(v, name), st)]
        return [(self.readattr(v, self.mangle(name), st), st)]

    def fref(self, f):
        self.fns[("f", f.qual)] = f
        return ("f", f.qual)

    # ---- subscripts
    def e_Subscript(self, e, st):
        out = []
        for v, s in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                for (lo, hi, step), s2 in self.evs([x or ast.Constant(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)], s):
                    r = slice_(self.seq(v, s2), lo, hi, step)
                    out.append((r if v[0] == "tup" else self.mklist(s2, r) if self.islist(v, s2) else r, s2))
                continue
            for i, s2 in self.ev(e.slice, s):
                out += self.getitem(v, i, s2)
        return out

    def getitem(self, v, i, st):
        c = self.content(v, st)
        if v[0] == "cls":
            return [(v, st)]
        if c[0] == "dict":
            return self.dictget(c, i, st, missing="raise")
        if i[0] == "tup":
            return [(("app", "index", c) + i[1:], st)]
        ci = self.content(i, st)
        if ci[0] in ("map", "perm", "list") and st.kinds.get(v) != "dict":
            return [(gather(c, ci), st)]
        if i[0] in ("cmp", "not", "and", "or"):
            return [(("app", "mask", c, i), st)]
        r = at(c, i)
        if (v, "[]") in st.attrs and r[0] == "at":
            pass
        if r[0] == "at" and r[1][0] == "setat":
            # undetermined index: split on equality
            d = cmp_("==", i, r[1][2])
            if len(st.conds) < 12 and not T.has_unknown(d):
                res = []
                for b, s in self.branch(d, st):
                    res.append((r[1][3] if b else at(r[1][1], i), s))
                return res
        return [(r, st)]

    def dictget(self, c, key, st, missing=None):
        """Entries are searched from the last one."""
        out, pend = [], [st]
        for ent in reversed(c[1:]):
            if ent[1] == ("star",):
                out += [(("app", "dictget", ent[2], key), s) for s in pend]
                return out
            nxt = []
            for s in pend:
                for b, s2 in self.branch(cmp_("==", key, ent[1]), s):
                    if b:
                        out.append((ent[2], s2))
                    else:
                        nxt.append(s2)
            pend = nxt
        for s in pend:
            if missing == "raise":
                self.raised[-1].append((s, ("app", "KeyError", key)))
            else:
                out.append((missing, s))
        return out

    # ---- comprehension
    def e_ListComp(self, e, st):
        return [(self.mklist(s, c), s) for c, s in self.comp(e.generators, [e.elt], st)]

    def e_GeneratorExp(self, e, st):
        return [(self.mklist(s, c), s) for c, s in self.comp(e.generators, [e.elt], st)]

    def e_SetComp(self, e, st):
        return [(("app", "set", c), s) for c, s in self.comp(e.generators, [e.elt], st)]

    def e_DictComp(self, e, st):
        return [(self.fresh(s, "dict", ("app", "dict", c)), s) for c, s in self.comp(e.generators, [e.key, e.value], st)]

    def comp(self, gens, elts, st):
        """Content terms of a comprehension."""
        g = gens[0]
        out = []
        for it, s in self.ev(g.iter, st):
            seq = self.iterseq(it, s)
            n = length(seq)
            saved = dict(s.env)
            if isint(n) and kv(n) <= 12 and seq[0] in ("tup", "list", "map"):
                acc = [(("list",), s)]
                for i in range(kv(n)):
                    nxt = []
                    for c, s1 in acc:
                        for ok, s2 in self.bindcond(g, at(seq, K(i)), s1):
                            if not ok:
                                nxt.append((c, s2))
                                continue
                            for r, s3 in self.compelt(gens, elts, s2):
                                nxt.append((cat(c, r), s3))
                    acc = nxt
                for c, s1 in acc:
                    s1.env = dict(saved)
                    out.append((c, s1))
                continue
            ix = ("ix", next(self.uid))
            s0 = s.clone()
            parts, extra = [], None
            base = len(s0.conds)
            self.ixstack.append(ix)
            for ok, s2 in self.bindcond(g, at(seq, ix), s0):
                if not ok:
                    parts.append((s2.conds[base:], None, s2))
                    continue
                for r, s3 in self.compelt(gens, elts, s2):
                    parts.append((s3.conds[base:], r, s3))
            self.ixstack.pop()
            # effects of the element expression
            effs = [p[2].eff[len(s.eff):] for p in parts]
            if any(effs):
                s.eff.append(("loop", seq, ix, [("next", p[0], p[2].eff[len(s.eff):], {}) for p in parts]))
            for p in parts:
                for k2, v2 in p[2].kinds.items():
                    s.kinds.setdefault(k2, v2)
                    if k2 in p[2].cells:
                        s.cells.setdefault(k2, p[2].cells[k2])
            c = self.collect(seq, n, ix, [(cs, None if r is None else resolve(r, s1)) for cs, r, s1 in parts])
            out.append((c, s))
        return out

    def compelt(self, gens, elts, st):
        if len(gens) > 1:
            return self.comp(gens[1:], elts, st)
        out = []
        for vs, s in self.evs(elts, st):
            out.append((("list", vs[0] if len(vs) == 1 else ("tup",) + tuple(vs)), s))
        return out

    def bindcond(self, g, val, st):
        st = st.clone()
        out = []
        for s in self.assign(g.target, val, st):
            pend = [s]
            for c in g.ifs:
                nxt = []
                for s1 in pend:
                    for b, s2 in self.cond(c, s1):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((False, s2))
                pend = nxt
            out += [(True, s1) for s1 in pend]
        return out

    def collect(self, seq, n, ix, parts):
        """Sequence produced by appending, in every iteration, the content of one part (None: nothing)."""
        if all(r is not None and r[0] == "list" and len(r) == 2 for _, r in parts):
            return close(n, merge([(cs, r[1]) for cs, r in parts]), ix)
        if all(r is None or r[0] == "list" and len(r) == 2 for _, r in parts):
            keep = [(cs, r[1]) for cs, r in parts if r is not None]
            if keep:
                cond = or_([conj(cs) for cs, r in parts if r is not None])
                body = merge(keep)
                t = ("tup", cond, body)
                h = height(t) + 1
                t = subst(t, ix, ("bv", h))
                return ("filter", n, t[1], t[2], h)
            return ("list",)
        body = merge([(cs, r if r is not None else ("list",)) for cs, r in parts])
        h = height(body) + 1
        return ("flat", n, subst(body, ix, ("bv", h)), h)

    # ------------------------------------------------------------------ iteration
    def iterseq(self, v, st):
        c = self.content(v, st)
        if c[0] == "dict":
            return ("tup",) + tuple(x[1] for x in c[1:]) if all(x[1] != ("star",) for x in c[1:]) else ("app", "keys", c)
        return c

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            f = self.frames[-1][0]
            me = self.frames[-1][1]
            ty = self.typeof(me, st) if me is not None else None
            owner = f.cls
            if isinstance(ty, Class) and owner is not None:
                return [(("super", owner.qual, ty.qual, None, me), st)]
            return [(self.unk("super"), st)]
        out = []
        for fv, s in self.callee(e.func, st):
            for (pos, kw), s2 in self.arguments(e, s):
                out += self.call(fv, pos, kw, s2, e)
        return out

    def callee(self, f, st):
        if isinstance(f, ast.Attribute):
            out = []
            for v, s in self.ev(f.value, st):
                if v[0] in ("ext", "cls", "super"):
                    out += self.getattr(v, f.attr, s, f)
                    continue
                ty = self.typeof(v, s)
                if isinstance(ty, Class):
                    name = self.mangle(f.attr)
                    if (v, name) in s.attrs:
                        out.append((s.attrs[(v, name)], s))
                        continue
                    m = ty.lookup(f.attr)
                    if m is not None and m.kind != "property":
                        out.append((("bound", v, self.fref(m)), s))
                        continue
                    if m is None and ty.class_attr(f.attr)[0] is None:
                        out.append((("extmeth", v, f.attr), s))
                        continue
                    out += self.getattr(v, f.attr, s, f)
                    continue
                if (v, f.attr) in s.attrs:
                    out.append((s.attrs[(v, f.attr)], s))
                    continue
                out.append((("extmeth", v, f.attr), s))
            return out
        return self.ev(f, st)

    def arguments(self, e, st):
        out = []
        for vs, s in self.items(e.args, st):
            pend = [({}, s)]
            for k in e.keywords:
                nxt = []
                for kw, s1 in pend:
                    for v, s2 in self.ev(k.value, s1):
                        d = dict(kw)
                        if k.arg is None:
                            c = self.content(v, s2)
                            if c[0] == "dict" and all(isk(x[1]) for x in c[1:]):
                                for x in c[1:]:
                                    d[kv(x[1])] = x[2]
                            else:
                                d["**"] = c
                        else:
                            d[k.arg] = v
                        nxt.append((d, s2))
                pend = nxt
            for kw, s1 in pend:
                out.append(((vs, kw), s1))
        return out

    def call(self, fv, pos, kw, st, node):
        op = fv[0]
        if op == "fn":
            f = self.fns[fv[1]]
            if isinstance(f, Closure):
                return self.call_closure(f, pos, kw, st)
            return self.call_func(f, pos, kw, st)
        if op == "bound":
            f = self.fns[fv[2]]
            recv = fv[1]
            if f.kind == "static":
                return self.call_func(f, pos, kw, st)
            if f.kind == "classmethod":
                ty = self.typeof(recv, st)
                return self.call_func(f, [recv if recv[0] == "cls" else ("cls", ty.qual)] + pos, kw, st)
            if recv[0] == "cls":          # Class.method(obj, ...)
                return self.call_func(f, pos, kw, st)
            return self.call_func(f, [recv] + pos, kw, st)
        if op == "partial":
            d = dict(fv[3])
            d.update(kw)
            return self.call(fv[1], list(fv[2]) + pos, d, st, node)
        if op == "cls":
            return self.construct(fv, pos, kw, st, node)
        if op == "ext":
            return self.external(fv[1], pos, kw, st, node)
        if op == "extmeth":
            return self.method(fv[1], fv[2], pos, kw, st, node)
        if op == "ite":
            out = []
            for b, s in self.branch(self.truthy(fv[1], st), st):
                out += self.call(fv[2] if b else fv[3], pos, kw, s, node)
            return out
        return self.opaque_call(("dyn", fv), pos, kw, st)

    def opaque_call(self, what, pos, kw, st, pure=False):
        args = tuple(pos) + tuple(("kw", k, v) for k, v in sorted(kw.items()))
        if pure:
            r = ("app", what if isinstance(what, str) else repr(what)) + tuple(self.content(a, st) if st.kinds.get(a) == "list" else a for a in args)
            return [(r, st)]
        r = ("res", next(self.uid)) + tuple(self.ixstack)
        name = what if isinstance(what, str) else ("dyn:" + show(what[1]))
        if self.births and not isinstance(what, str):
            name, args = ("dyn",), (what[1],) + args
        st.eff.append(("call", name, args, r))
        return [(r, st)]

    def bind(self, node_args, pos, kw, st, module, defaults_env=None):
        """Parameter environment, or None if the call does not fit."""
        a = node_args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        if any(p[0] == "star" for p in pos):
            return None
        for p, v in zip(params, pos):
            env[p] = v
        if len(pos) > len(params):
            if a.vararg is None:
                return None
            env[a.vararg.arg] = ("tup",) + tuple(pos[len(params):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ("tup",)
        kw = dict(kw)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                env[p] = kw.pop(p)
        star = kw.pop("**", None)
        if a.kwarg is not None:
            env[a.kwarg.arg] = star if star is not None and not kw else self.fresh(
                st, "dict", ("dict",) + ((("kv", ("star",), star),) if star is not None else ())
                + tuple(("kv", K(k), v) for k, v in kw.items()))
        elif kw:
            return None
        dflt = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p not in dflt:
                    if star is not None:
                        env[p] = ("app", "dictget", star, K(p))
                        continue
                    return None
                try:
                    env[p] = self.const(dflt[p], module)
                except GiveUp:
                    env[p] = self.unk("default")
        return env

    def call_func(self, f, pos, kw, st):
        if f.cls is not None and (f.cls.name, f.name) in self.special:
            return self.special[(f.cls.name, f.name)](self, f, pos, kw, st)
        if self.opaque(f):
            nm = f"{f.cls.name}.{f.name}" if f.cls else f.name
            return self.opaque_call(nm, self.normargs(f, pos, kw, st), {}, st, pure=self.pure(f))
        if len(self.frames) > self.depth or sum(1 for fr in self.frames if fr[0] is f) > 2:
            return self.opaque_call(f.qual, pos, kw, st)
        env = self.bind(f.node.args, pos, kw, st, f.module)
        if env is None:
            self.raised[-1].append((st, ("app", "TypeError", K(f"arguments of {f.qual}"))))
            return []
        self.inlined.add(f.where)
        me = pos[0] if f.cls is not None and f.kind != "static" and pos else None
        return self.run_body(f, f.node.body, env, me, st)

    def normargs(self, f, pos, kw, st):
        """Positional argument list of an opaque call, defaults filled in."""
        env = self.bind(f.node.args, pos, kw, st, f.module)
        if env is None:
            return list(pos) + [("kw", k, v) for k, v in sorted(kw.items())]
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
            ([a.kwarg.arg] if a.kwarg else [])
        return [("kw", n, env[n]) for n in names if n in env]

    def call_closure(self, c, pos, kw, st):
        env0 = dict(c.env)
        if isinstance(c.node, ast.Lambda):
            env = self.bind(c.node.args, pos, kw, st, c.module)
            if env is None:
                return [(self.unk("lambda"), st)]
            env0.update(env)
            saved = st.env
            st.env = env0
            out = []
            for v, s in self.ev(c.node.body, st):
                s.env = dict(saved)
                out.append((v, s))
            return out
        env = self.bind(c.node.args, pos, kw, st, c.module)
        if env is None:
            return [(self.unk("closure"), st)]
        env0.update(env)
        fr = self.frames[-1][0] if self.frames else None
        return self.run_body(fr, c.node.body, env0, self.frames[-1][1] if self.frames else None, st)

    def run_body(self, f, body, env, me, st):
        saved = st.env
        st.env = env
        self.frames.append((f, me))
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in body for n in walk_scope(b))
        try:
            out = []
            for o, v, s in self.block(body, st):
                s.env = dict(saved)
                if o in ("fall", "return"):
                    out.append((v if o == "return" else NONE, s))
                elif o == "raise":
                    pass
            if isgen and len(self.frames) > 1:
                out = [(self.unk("generator"), s) for _, s in out]
            return out
        finally:
            self.frames.pop()

    def construct(self, cv, pos, kw, st, node):
        c = self.prog.cls(cv[1])
        init = c.lookup("__init__")
        if init is not None and self.opaque(init) or init is None:
            if init is not None:
                args = tuple(self.normargs(init, [S("self")] + list(pos), kw, st)[1:])
            else:
                args = tuple(pos)
            t = self.fresh(st, ("obj", c))
            st.eff.append(("construct", c.name, args, t))
            for a in args:
                if a[0] == "kw":
                    st.attrs.setdefault((t, a[1]), a[2])
            return [(t, st)]
        t = self.fresh(st, ("obj", c))
        st.eff.append(("construct", c.name, tuple(pos) + tuple(("kw", k, v) for k, v in sorted(kw.items())), t))
        return [(t, s) for _, s in self.call_func(init, [t] + list(pos), kw, st)]

    # ---- external functions
    def external(self, q, pos, kw, st, node):
        b = q.split("builtins.", 1)[1] if q.startswith("builtins.") else None
        sq = lambda x: self.seq(x, st)
        one = lambda t: [(t, st)]
        if b == "len" and len(pos) == 1:
            c = sq(pos[0])
            if c[0] == "dict" and all(x[1] != ("star",) for x in c[1:]):
                return one(K(len(c) - 1))
            return one(length(c))
        if b == "range":
            a = [K(0)] + pos if len(pos) == 1 else pos
            step = a[2] if len(a) > 2 else K(1)
            if step == K(1):
                n = sub(a[1], a[0])
                if isint(n) and kv(n) < 0:
                    n = K(0)
                return one(("map", n, add(a[0], ("bv", 0)), 0))
            if step == K(-1):
                return one(("map", sub(a[0], a[1]), sub(a[0], ("bv", 0)), 0))
            if all(isint(x) for x in a):
                return one(("tup",) + tuple(K(i) for i in range(kv(a[0]), kv(a[1]), kv(step))))
            return one(("app", "range") + tuple(a))
        if b == "enumerate":
            c = self.iterseq(pos[0], st)
            start = pos[1] if len(pos) > 1 else kw.get("start", K(0))
            ix = ("ix", next(self.uid))
            return one(close(length(c), ("tup", add(ix, start), at(c, ix)), ix))
        if b == "zip":
            cs = [self.iterseq(p, st) for p in pos]
            if len(cs) == 1 and cs[0][0] == "star":
                return one(("app", "zip*", cs[0][1]))
            if cs:
                ix = ("ix", next(self.uid))
                n = length(cs[0])
                for c in cs[1:]:
                    d = sub(length(c), n)
                    if length(c)[0] == "k" or isnum(d) and kv(d) < 0:
                        n = length(c)
                st.flags.add("zip")
                return one(close(n, ("tup",) + tuple(at(c, ix) for c in cs), ix))
        if b == "reversed":
            return one(reverse(self.iterseq(pos[0], st)))
        if b in ("list", "tuple", "iter"):
            if not pos:
                return one(self.mklist(st, ("list",)) if b == "list" else ("tup",))
            c = self.iterseq(pos[0], st)
            if b == "tuple":
                return one(("tup",) + c[1:] if c[0] == "list" else c)
            return one(self.mklist(st, ("list",) + c[1:] if c[0] == "tup" else c))
        if b == "dict":
            if not pos:
                return one(self.fresh(st, "dict", ("dict",) + tuple(("kv", K(k), v) for k, v in kw.items())))
            c = self.content(pos[0], st)
            if c[0] == "dict":
                return one(self.fresh(st, "dict", c + tuple(("kv", K(k), v) for k, v in kw.items())))
            return one(self.fresh(st, "dict", ("dict", ("kv", ("star",), c)) + tuple(("kv", K(k), v) for k, v in kw.items())))
        if b in ("set", "frozenset"):
            return one(("app", "set") + tuple(sq(p) for p in pos))
        if b in ("sorted",) or q == "numpy.sort":
            return self.sort(sq(pos[0]), kw, st, fresh=b == "sorted")
        if q == "numpy.argsort" or b is None and q.endswith(".argsort"):
            return one(sort_perm(sq(pos[0])))
        if q in ("numpy.argmin", "numpy.argmax", "numpy.nanargmin", "numpy.nanargmax"):
            c = sq(pos[0])
            return one(at(sort_perm(c), K(0) if "min" in q else sub(length(c), K(1))))
        if b in ("min", "max") or q in ("numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "numpy.nanmin", "numpy.nanmax"):
            mx = q.endswith("max")
            if b and len(pos) > 1:
                return one(("app", "maximum" if mx else "minimum") + tuple(sorted(pos, key=repr)))
            c = self.iterseq(pos[0], st)
            if c[0] in ("list", "tup") and len(c) == 3 and "key" not in kw:
                return one(("app", "maximum" if mx else "minimum") + tuple(sorted(c[1:], key=repr)))
            if "axis" in kw:
                return one(("app", "max" if mx else "min", c, kw["axis"]))
            keys = c
            if "key" in kw:
                r = self.mapkey(c, kw["key"], st)
                if r is None:
                    return one(self.unk("key"))
                keys = r
            return one(at(c, at(sort_perm(keys), K(0) if not mx else sub(length(c), K(1)))))
        if b == "isinstance":
            ty = self.typeof(pos[0], st)
            r = self.isinst(pos[0], pos[1], st)
            return one(r)
        if b == "type" and len(pos) == 1:
            ty = self.typeof(pos[0], st)
            if isinstance(ty, Class) and pos[0][0] == "new":
                return one(("cls", ty.qual))
            if isk(pos[0]):
                return one(("ext", "builtins." + pos[0][1]))
            k = st.kinds.get(pos[0])
            if k in ("list", "dict", "set"):
                return one(("ext", "builtins." + k))
            if pos[0][0] == "tup":
                return one(("ext", "builtins.tuple"))
            return one(("app", "type", pos[0]))
        if b in ("int", "float", "str", "bool", "abs", "round", "sum", "any", "all", "divmod", "pow", "callable", "id", "hash", "repr", "hasattr"):
            if b == "abs" and isnum(pos[0]):
                return one(K(abs(kv(pos[0]))))
            if b in ("int", "float") and pos and isnum(pos[0]):
                return one(K(int(kv(pos[0])) if b == "int" else float(kv(pos[0]))))
            if b == "str" and pos and isk(pos[0]) and isinstance(kv(pos[0]), str):
                return one(pos[0])
            if b == "sum":
                return one(("app", "sum", sq(pos[0])))
            if b == "str":
                return one(fmt([pos[0]]) if pos else K(""))
            if b == "bool" and pos:
                return one(self.truthy(pos[0], st))
            if b == "hasattr" and len(pos) == 2 and isk(pos[1]):
                ty = self.typeof(pos[0], st)
                if isinstance(ty, Class) and ty.lookup(kv(pos[1])) is not None:
                    return one(TRUE)
            if b == "float" and isk(pos[0]) and isinstance(kv(pos[0]), str):
                try:
                    return one(K(float(kv(pos[0]))))
                except ValueError:
                    pass
            return one(("app", b) + tuple(sq(p) if st.kinds.get(p) == "list" else p for p in pos))
        if b == "getattr" and len(pos) >= 2:
            if isk(pos[1]) and isinstance(kv(pos[1]), str):
                return self.getattr(pos[0], kv(pos[1]), st, node)
            return one(("app", "getattr") + tuple(pos))
        if b == "setattr" and len(pos) == 3:
            if isk(pos[1]) and isinstance(kv(pos[1]), str):
                return [(NONE, s) for s in self.setattr(pos[0], kv(pos[1]), pos[2], st)]
            st.eff.append(("setattr*", pos[0], pos[1], pos[2]))
            return one(NONE)
        if b == "vars" and len(pos) == 1:
            return one(attr(pos[0], "__dict__"))
        if b == "print":
            if getattr(self, "prints", False):
                st.eff.append(("print",) + tuple(pos))
            return one(NONE)
        if b == "map" and len(pos) >= 2:
            return self.mapcall(pos[0], [self.iterseq(p, st) for p in pos[1:]], st, node)
        if b == "filter":
            return one(self.unk("filter"))
        if b in ("ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "Exception", "NotImplementedError", "AttributeError"):
            return one(("app", b) + tuple(pos))
        if b == "super":
            return one(self.unk("super"))
        if q in IDENT and pos:
            c = self.content(pos[0], st)
            extra = kw.get("dtype") or (pos[1] if len(pos) > 1 and q in ("numpy.array", "numpy.asarray") else None)
            if extra is not None and extra in (("ext", "builtins.int"), ("ext", "numpy.int64"), ("ext", "numpy.int32"), K("int")):
                return one(("app", "trunc", c))
            if q in ("copy.copy", "copy.deepcopy") and isinstance(self.typeof(pos[0], st), Class):
                return one(("app", "pycopy", pos[0]))
            if st.kinds.get(pos[0]) == "list":
                return one(c)
            return one(c)
        if q in ("functools.partial",):
            return one(("partial", pos[0], tuple(pos[1:]), tuple(sorted(kw.items()))))
        if q in ("tqdm.tqdm", "tqdm", "tqdm.auto.tqdm"):
            return one(self.content(pos[0], st) if pos else self.unk("tqdm"))
        if q in NP:
            o = NP[q]
            a = [sq(p) if st.kinds.get(p) == "list" else p for p in pos]
            if o == "*" and len(a) == 2:
                return one(mul(*a))
            if o == "+" and len(a) == 2:
                return one(add(*a))
            if o in ("maximum", "minimum"):
                a = sorted(a, key=repr)
            if o == "where" and len(a) == 3:
                return one(("app", "where") + tuple(a))
            if o == "clip" and len(a) < 3:
                a += [kw.pop(k) for k in ("a_min", "a_max", "min", "max") if k in kw]
            if o == "abs" and len(a) == 1:
                return one(absterm(a[0]))
            kws = tuple(("kw", k, v) for k, v in sorted(kw.items()))
            return one(("app", o) + tuple(a) + kws)
        if q.startswith("operator.") and len(pos) == 2:
            o = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}.get(q.split(".")[1])
            if o:
                return one(cmp_(o, pos[0], pos[1]))
            if q in ("operator.add",):
                return one(add(*pos))
            if q == "operator.mul":
                return one(mul(*pos))
        if q == "operator.attrgetter" and len(pos) == 1 and isk(pos[0]):
            lam = ast.parse(f"lambda _x: _x.{kv(pos[0])}", mode="eval").body
            return one(self.closure(lam, st))
        if q == "operator.itemgetter" and len(pos) == 1 and isk(pos[0]):
            lam = ast.parse(f"lambda _x: _x[{kv(pos[0])!r}]", mode="eval").body
            return one(self.closure(lam, st))
        if q == "functools.reduce" and len(pos) == 2:
            return one(("app", "reduce", pos[0], sq(pos[1])))
        if q == "itertools.product":
            return one(("app", "product") + tuple(pos))
        if q == "itertools.chain":
            r = self.iterseq(pos[0], st) if pos else ("list",)
            for p in pos[1:]:
                r = cat(r, self.iterseq(p, st))
            return one(r)
        if q in ("time.perf_counter", "time.time", "time.monotonic", "time.process_time"):
            r = ("time", next(self.uid), q)
            st.eff.append(("call", q, tuple(pos), r))
            return one(r)
        return self.opaque_call(q, pos, kw, st)

    def isinst(self, v, c, st):
        cs = c[1:] if c[0] == "tup" else (c,)
        ty = self.typeof(v, st)
        if isinstance(ty, Class):
            for x in cs:
                if x[0] == "cls" and ty.is_sub(self.prog.cls(x[1])):
                    return TRUE
            if v[0] == "new" and all(x[0] in ("cls", "ext") for x in cs):
                return FALSE
        if isk(v):
            names = {x[1].split(".")[-1] for x in cs if x[0] == "ext"}
            if v[1] in names or v[1] in ("int", "float") and "Number" in names or v[1] == "bool" and ("int" in names or "Number" in names):
                return TRUE
            if all(x[0] in ("ext", "cls") for x in cs) and v[1] in ("str", "NoneType"):
                return FALSE
        k = st.kinds.get(v)
        if k in ("list", "dict", "set") and any(x == ("ext", "builtins." + k) for x in cs):
            return TRUE
        rs = [("app", "isinstance", v, x) for x in cs]
        if len(rs) == 1:
            return rs[0]
        return ("or",) + tuple(sorted(set(rs), key=repr))

    def mapkey(self, c, fn, st):
        ix = ("ix", next(self.uid))
        if fn == ("ext", "builtins.len"):
            return close(length(c), length(at(c, ix)), ix)
        s = st.clone()
        rs = self.call(fn, [at(c, ix)], {}, s, None)
        if not rs:
            return None
        base = len(st.conds)
        return close(length(c), merge([(s2.conds[base:], resolve(r, s2)) for r, s2 in rs]), ix)

    def sort(self, c, kw, st, fresh=True):
        rev = kw.get("reverse", FALSE)
        keys = c
        if "key" in kw and kw["key"] != NONE:
            keys = self.mapkey(c, kw["key"], st)
            if keys is None:
                return [(self.unk("key"), st)]
        out = []
        for b, s in self.branch(self.truthy(rev, st), st):
            r = gather(c, sort_perm(keys, desc=b))
            out.append((self.mklist(s, r) if fresh else r, s))
        return out

    def mapcall(self, fn, seqs, st, node):
        """[fn(x...) for x... in zip(seqs)] with the effects of one generic call."""
        ix = ("ix", next(self.uid))
        n = length(seqs[0])
        s = st.clone()
        base, eb = len(st.conds), len(st.eff)
        self.ixstack.append(ix)
        rs = self.call(fn, [at(c, ix) for c in seqs], {}, s, node)
        self.ixstack.pop()
        if any(s2.eff[eb:] for _, s2 in rs):
            st.eff.append(("loop", seqs[0], ix, [("next", s2.conds[base:], s2.eff[eb:], {}) for _, s2 in rs]))
        for r, s2 in rs:
            for k2, v2 in s2.kinds.items():
                st.kinds.setdefault(k2, v2)
                if k2 in s2.cells:
                    st.cells.setdefault(k2, s2.cells[k2])
        if not rs:
            return [(self.unk("map"), st)]
        return [(close(n, merge([(s2.conds[base:], resolve(r, s2)) for r, s2 in rs]), ix), st)]

    # ---- methods of opaque values and containers
    def method(self, v, m, pos, kw, st, node):
        one = lambda t: [(t, st)]
        c = self.content(v, st)
        k = st.kinds.get(v)
        listy = k == "list" or c[0] in ("map", "list", "cat", "perm", "filter", "flat")
        if k == "dict" or c[0] == "dict":
            if m in ("get", "pop", "setdefault") and pos and c[0] == "dict":
                r = self.dictget(c, pos[0], st, missing=pos[1] if len(pos) > 1 else NONE)
                if m == "pop":
                    for _, s in r:
                        s.cells[v] = ("dict",) + tuple(x for x in c[1:] if x[1] != pos[0])
                return r
            if m == "items" and c[0] == "dict" and all(x[1] != ("star",) for x in c[1:]):
                return one(("tup",) + tuple(("tup", x[1], x[2]) for x in c[1:]))
            if m == "keys" and c[0] == "dict" and all(x[1] != ("star",) for x in c[1:]):
                return one(("tup",) + tuple(x[1] for x in c[1:]))
            if m == "values" and c[0] == "dict" and all(x[1] != ("star",) for x in c[1:]):
                return one(("tup",) + tuple(x[2] for x in c[1:]))
            if m == "update":
                for p in pos:
                    d = self.content(p, st)
                    c = self.dictset(c, d)
                    st.eff.append(("dictupdate", v, d))
                for kk, vv in kw.items():
                    c = ("dict",) + tuple(x for x in c[1:] if x[1] != K(kk)) + (("kv", K(kk), vv),)
                st.cells[v] = c
                if kw:
                    st.eff.append(("dictupdate", v, ("dict",) + tuple(("kv", K(kk), vv) for kk, vv in kw.items())))
                return one(NONE)
            if m == "copy":
                return one(self.fresh(st, "dict", c))
        if m == "copy" and not pos:
            if listy:
                return one(self.mklist(st, c))
            return one(("copy", v) if isinstance(self.typeof(v, st), Class) else ("app", "arrcopy", c))
        if m in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse") and k != "dict":
            if m == "append" and len(pos) == 1:
                st.cells[v] = cat(c, ("list", pos[0]))
                st.eff.append(("append", v, pos[0]))
                return one(NONE)
            if m == "extend" and len(pos) == 1:
                x = self.iterseq(pos[0], st)
                st.cells[v] = cat(c, ("list",) + x[1:] if x[0] == "tup" else x)
                st.eff.append(("extend", v, x))
                return one(NONE)
            if m == "insert" and pos and pos[0] == K(0):
                st.cells[v] = cat(("list", pos[1]), c)
                st.eff.append(("insert", v, pos[1]))
                return one(NONE)
            if m == "reverse":
                st.cells[v] = reverse(c)
                return one(NONE)
            if m == "sort":
                out = []
                for r, s in self.sort(c, kw, st, fresh=False):
                    s.cells[v] = r
                    s.eff.append(("sort", v))
                    out.append((NONE, s))
                return out
            if m == "pop":
                i = pos[0] if pos else K(-1)
                r = at(c, i)
                st.cells[v] = slice_(c, K(1), NONE, NONE) if i == K(0) else slice_(c, NONE, K(-1), NONE) if i == K(-1) else self.unk("pop")
                st.eff.append(("popitem", v, i))
                return one(r)
            if m == "clear":
                st.cells[v] = ("list",)
                st.eff.append(("clear", v))
                return one(NONE)
            st.cells[v] = self.unk(m)
            st.eff.append(("listop", v, m))
            return one(NONE)
        if m in ("tolist", "ravel", "flatten", "squeeze", "to_list") and not pos:
            return one(self.mklist(st, c) if listy else c)
        if m in ("argsort",):
            return one(sort_perm(c))
        if m in ("argmin", "argmax"):
            return one(at(sort_perm(c), K(0) if m == "argmin" else sub(length(c), K(1))))
        if m in ("min", "max", "sum", "mean", "std", "clip", "round", "any", "all", "prod", "dot") and (listy or self.arrayish(v, st)):
            if m in ("min", "max") and not pos and not kw:
                return one(at(c, at(sort_perm(c), K(0) if m == "min" else sub(length(c), K(1)))))
            return self.external("numpy." + m, [v] + pos, kw, st, node)
        if m == "clip":
            return self.external("numpy.clip", [v] + pos, kw, st, node)
        if m == "astype":
            a = pos[0] if pos else kw.get("dtype")
            if a in (("ext", "builtins.int"), ("ext", "numpy.int64"), ("ext", "numpy.int32"), K("int")):
                return one(("app", "trunc", c))
            if a in (("ext", "builtins.float"), ("ext", "numpy.float64"), K("float")):
                return one(c)
            return one(("app", "astype", c, a or NONE))
        if m == "join" and isk(v) and pos:
            return one(("app", "join", v, self.seq(pos[0], st)))
        if m == "format" and isk(v):
            return one(self.fmtcall(kv(v), pos, kw))
        if m in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace"):
            return one(("app", "str." + m, v) + tuple(pos))
        if m in ("items", "keys", "values"):
            return one(("app", m, c))
        if m in ("issubset", "issuperset", "intersection", "union", "difference"):
            return one(("app", m, c) + tuple(self.content(p, st) for p in pos))
        if m == "get":
            return one(("app", "dictget", c) + tuple(pos))
        if m == "__setattr__" and len(pos) == 2 and isk(pos[0]):
            return [(NONE, s) for s in self.setattr(v, kv(pos[0]), pos[1], st)]
        # executor.map(f, xs) keeps the order of xs
        if m == "map" and len(pos) >= 2 and st.kinds.get(v, (None,))[0] == "executor":
            st.eff.append(("pool", "map"))
            return self.mapcall(pos[0], [self.iterseq(p, st) for p in pos[1:]], st, node)
        if m == "submit" and pos and st.kinds.get(v, (None,))[0] == "executor":
            return [(("future", r), s) for r, s in self.call(pos[0], pos[1:], kw, st, node)]
        if m == "result" and v[0] == "future":
            return one(v[1])
        # log calls
        if m in ("info", "warning", "debug", "error", "set_postfix", "set_description"):
            return one(NONE)
        args = tuple(pos) + tuple(("kw", x, y) for x, y in sorted(kw.items()))
        r = ("res", next(self.uid)) + tuple(self.ixstack)
        st.eff.append(("call", "." + m, (v,) + args, r))
        if self.births:
            st.flags.add(("touched", v))
        return one(r)

    def arrayish(self, v, st):
        return v[0] in ("app", "at", "lin", "attr")

    def fmtcall(self, f, pos, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(K(lit))
                if fld is not None:
                    if fld == "":
                        parts.append(pos[auto])
                        auto += 1
                    elif fld.isdigit():
                        parts.append(pos[int(fld)])
                    else:
                        parts.append(kw[fld])
        except Exception:
            return self.unk("format")
        return fmt(parts)

    def dictset(self, c, d):
        if c[0] != "dict":
            return ("app", "dictmerge", c, d)
        if d[0] != "dict":
            return c + (("kv", ("star",), d),)
        for x in d[1:]:
            c = ("dict",) + tuple(y for y in c[1:] if y[1] != x[1] or x[1] == ("star",)) + (x,)
        return c

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        """[states]"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            c = self.seq(v, st)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.unk("star"), st)
                return [st]
            sts = [st]
            vals = [at(c, K(i)) for i in range(len(t.elts))]
            for x, y in zip(t.elts, vals):
                sts = [s2 for s in sts for s2 in self.assign(x, y, s)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for o, s in self.ev(t.value, st):
                out += self.setattr(o, self.mangle(t.attr), v, s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o, s in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    for (lo, hi, step), s2 in self.evs([x or ast.Constant(None) for x in (t.slice.lower, t.slice.upper, t.slice.step)], s):
                        c = self.content(o, s2)
                        if (lo, hi, step) == (NONE, NONE, NONE):
                            s2.cells[o] = self.seq(v, s2)
                        else:
                            s2.cells[o] = ("app", "setslice", c, lo, hi, step, v)
                        s2.eff.append(("setslice", o, lo, hi, v))
                        out.append(s2)
                    continue
                for i, s2 in self.ev(t.slice, s):
                    out += self.setitem(o, i, v, s2)
            return out
        return [st]

    def setitem(self, o, i, v, st):
        c = self.content(o, st)
        if st.kinds.get(o) == "dict" or c[0] == "dict":
            if c[0] == "dict":
                c2 = ("dict",) + tuple(x for x in c[1:] if x[1] != i) + (("kv", i, v),)
                # keep the position of an existing key
                if any(x[1] == i for x in c[1:]):
                    c2 = ("dict",) + tuple(("kv", i, v) if x[1] == i else x for x in c[1:])
                st.cells[o] = c2
            else:
                st.cells[o] = ("app", "dictset", c, i, v)
            st.eff.append(("dictset", o, i, v))
            return [st]
        if isint(i) and kv(i) < 0:
            i2 = add(length(c), i)
        else:
            i2 = i
        if c[0] == "cat" and isint(i) and kv(i) == -1 and c[2][0] == "list" and len(c[2]) == 2:
            st.cells[o] = cat(c[1], ("list", v))
        elif c[0] == "list" and isint(i2) and 0 <= kv(i2) < len(c) - 1:
            st.cells[o] = c[:1 + kv(i2)] + (v,) + c[2 + kv(i2):]
        elif c[0] == "setat" and c[2] == i2:
            st.cells[o] = ("setat", c[1], i2, v)
        else:
            st.cells[o] = ("setat", c, i2, v)
        st.eff.append(("setitem", o, i, v))
        return [st]

    def setattr(self, o, name, v, st):
        ty = self.typeof(o, st)
        if isinstance(ty, Class):
            f = ty.lookup_setter(name)
            if f is not None:
                if self.opaque(f):
                    st.eff.append(("setattr", o, name, v))
                    st.attrs[(o, name)] = v
                    return [st]
                return [s for _, s in self.call_func(f, [o, v], {}, st)]
        st.attrs[(o, name)] = v
        st.eff.append(("setattr", o, name, v))
        return [st]

    # ------------------------------------------------------------------ statements
    def block(self, body, st):
        """[(outcome, value, state)]; outcome in fall/return/raise/break/continue"""
        out, pend = [], [st]
        for stm in body:
            nxt = []
            for s in pend:
                for o, v, s2 in self.stmt(stm, s):
                    if o == "fall":
                        nxt.append(s2)
                    else:
                        out.append((o, v, s2))
            pend = nxt
            if len(pend) + len(out) > MAXPATHS:
                raise GiveUp("too many paths")
            if not pend:
                break
        return out + [("fall", None, s) for s in pend]

    def stmt(self, n, st):
        self.steps += 1
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [("fall", None, st)]
        return m(n, st)

    def s_Expr(self, n, st):
        return [("fall", None, s) for _, s in self.ev(n.value, st)]

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            sts = [s]
            for t in n.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(t, v, s2)]
            out += [("fall", None, s2) for s2 in sts]
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [("fall", None, st)]
        return [("fall", None, s2) for v, s in self.ev(n.value, st) for s2 in self.assign(n.target, v, s)]

    def s_AugAssign(self, n, st):
        out = []
        load = ast.copy_location(_load(n.target), n.target)
        for (a, b), s in self.evs([load, n.value], st):
            if isinstance(n.op, ast.Add) and self.islist(a, s) and s.kinds.get(a) != "dict":
                s.cells[a] = cat(self.content(a, s), self.seq(b, s))
                s.eff.append(("extend", a, self.seq(b, s)))
                if not (a[0] == "map"):
                    out.append(("fall", None, s))
                    continue
            v = self.binop(n.op, a, b, s)
            out += [("fall", None, s2) for s2 in self.assign(n.target, v, s)]
        return out

    def s_Return(self, n, st):
        if n.value is None:
            return [("return", NONE, st)]
        return [("return", v, s) for v, s in self.ev(n.value, st)]

    def s_Pass(self, n, st):
        return [("fall", None, st)]

    def s_Break(self, n, st):
        return [("break", None, st)]

    def s_Continue(self, n, st):
        return [("continue", None, st)]

    def s_If(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            out += self.block(n.body if b else n.orelse, s)
        return out

    def s_Assert(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            if b:
                out.append(("fall", None, s))
            else:
                self.raised[-1].append((s, ("app", "AssertionError")))
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            self.raised[-1].append((st, ("app", "reraise")))
            return []
        for v, s in self.ev(n.exc, st):
            self.raised[-1].append((s, v))
        return []

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                for o, s in self.ev(t.value, st):
                    if isinstance(t.slice, ast.Slice):
                        s.cells[o] = self.unk("del")
                        s.eff.append(("listop", o, "del"))
                        continue
                    for i, s2 in self.ev(t.slice, s):
                        c = self.content(o, s2)
                        s2.cells[o] = slice_(c, K(1), NONE, NONE) if i == K(0) else slice_(c, NONE, K(-1), NONE) if i == K(-1) \
                            else self.unk("del")
                        s2.eff.append(("popitem", o, i))
        return [("fall", None, st)]

    def s_FunctionDef(self, n, st):
        st.env[n.name] = self.closure(n, st)
        return [("fall", None, st)]

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = ("ext", a.name if a.asname else a.name.split(".")[0])
        return [("fall", None, st)]

    def s_ImportFrom(self, n, st):
        for a in n.names:
            r = self.prog.resolve_qual(f"{n.module}.{a.name}")
            st.env[a.asname or a.name] = self.resolved(r)
        return [("fall", None, st)]

    def s_With(self, n, st):
        pend = [st]
        for it in n.items:
            nxt = []
            for s in pend:
                for v, s2 in self.ev(it.context_expr, s):
                    nm = ""
                    if s2.eff and s2.eff[-1][0] == "call" and s2.eff[-1][3] == v:
                        nm = s2.eff[-1][1]
                    if nm.endswith("PoolExecutor"):
                        s2.kinds[v] = ("executor", nm)
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2)
                    else:
                        nxt.append(s2)
            pend = nxt
        return [r for s in pend for r in self.block(n.body, s)]

    def s_Try(self, n, st):
        self.raised.append([])
        st0 = st.clone()
        res = self.block(n.body, st)
        exc = self.raised.pop()
        out = []
        for s, e in exc:
            handled = False
            for h in n.handlers:
                s2 = s.clone()
                s2.flags.add("caught")
                s2.eff.append(("caught", ast.unparse(h.type) if h.type else "", e))
                if h.name:
                    s2.env[h.name] = e
                out += self.block(h.body, s2)
                handled = True
                break
            if not handled:
                self.raised[-1].append((s, e))
        # an exception from an opaque call
        for h in n.handlers:
            s2 = st0.clone()
            s2.flags.add("caught")
            s2.conds.append((("app", "exception", K(ast.unparse(h.type) if h.type else "")), True))
            s2.eff.append(("caught", ast.unparse(h.type) if h.type else "", self.unk("exc")))
            if h.name:
                s2.env[h.name] = self.unk("exc")
            out += self.block(h.body, s2)
        for r in res:
            if r[0] == "fall" and n.orelse:
                out += self.block(n.orelse, r[2])
            else:
                out.append(r)
        if n.finalbody:
            fin = []
            for o, v, s in out:
                for o2, v2, s2 in self.block(n.finalbody, s):
                    fin.append((o, v, s2) if o2 == "fall" else (o2, v2, s2))
            out = fin
        return out

    def s_While(self, n, st):
        # bounded constant loops are not unrolled: one generic iteration
        ix = ("ix", next(self.uid))
        return self.loop(n, None, ix, st)

    def s_For(self, n, st):
        out = []
        for it, s in self.ev(n.iter, st):
            seq = self.iterseq(it, s)
            ln = length(seq)
            if isint(ln) and kv(ln) <= 12 and seq[0] in ("tup", "list", "map", "cat"):
                pend = [s]
                for i in range(kv(ln)):
                    nxt = []
                    for s1 in pend:
                        for s2 in self.assign(n.target, at(seq, K(i)), s1):
                            for o, v, s3 in self.block(n.body, s2):
                                if o in ("fall", "continue"):
                                    nxt.append(s3)
                                elif o == "break":
                                    out.append(("fall", None, s3))
                                else:
                                    out.append((o, v, s3))
                    pend = nxt
                for s1 in pend:
                    out += self.block(n.orelse, s1) if n.orelse else [("fall", None, s1)]
                continue
            ix = ("ix", next(self.uid))
            out += self.loop(n, seq, ix, s)
        return out

    # ---- generic loop
    def loop(self, n, seq, ix, st):
        names = {x.id for b in n.body for x in walk_scope(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if seq is not None:
            names -= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def iteration(s):
            """One pass through the body from s; returns raw outcomes and raised."""
            self.raised.append([])
            self.ixstack.append(ix)
            res = []
            try:
                if seq is not None:
                    starts = self.assign(n.target, at(seq, ix), s)
                else:
                    starts = []
                    for b, s1 in self.cond(n.test, s):
                        if b:
                            starts.append(s1)
                for s1 in starts:
                    res += self.block(n.body, s1)
            finally:
                exc = self.raised.pop()
                self.ixstack.pop()
            return res, exc

        # pass 1: what does the body change?
        probe = st.clone()
        for nm in names:
            if nm in probe.env:
                probe.env[nm] = ("lv", ix, "v", probe.env[nm])
        uid0 = self.uid
        res, exc = iteration(probe.clone())
        ch_attr, ch_cell = set(), set()
        for s in [r[2] for r in res] + [x[0] for x in exc]:
            for k2, v2 in s.attrs.items():
                if st.attrs.get(k2) != v2 and not contains(k2[0], ix) and not fresh_in(k2[0], st):
                    ch_attr.add(k2)
            for k2, v2 in s.cells.items():
                if st.cells.get(k2, k2) != v2 and not contains(k2, ix) and not fresh_in(k2, st):
                    ch_cell.add(k2)
        # pass 2: with changed state unknown at entry
        s0 = st.clone()
        lvs = {}
        for nm in names:
            if nm in st.env:
                lv = ("lv", ix, "n:" + nm, st.env[nm])
                s0.env[nm] = lv
                lvs[("n", nm)] = (lv, st.env[nm])
        for k2 in ch_attr:
            init = st.attrs.get(k2, attr(*k2))
            lv = ("lv", ix, "a:" + k2[1], init)
            s0.attrs[k2] = lv
            lvs[("a", k2)] = (lv, init)
        for k2 in ch_cell:
            init = st.cells.get(k2, k2)
            lv = ("lv", ix, "c", init, k2)
            s0.cells[k2] = lv
            lvs[("c", k2)] = (lv, init)
        base, eb = len(s0.conds), len(s0.eff)
        entry = s0.clone()
        res, exc = iteration(s0)
        # additive counters: value in the generic iteration is known
        getters = {}
        for key in lvs:
            kind, k2 = key
            getters[key] = (lambda s, k2=k2: s.env.get(k2)) if kind == "n" else (lambda s, k2=k2: s.attrs.get(k2)) if kind == "a" \
                else (lambda s, k2=k2: s.cells.get(k2))
        cont = [r for r in res if r[0] in ("fall", "continue")]
        brk = [r for r in res if r[0] == "break"]
        ret = [r for r in res if r[0] == "return"]
        nlen = length(seq) if seq is not None else None
        rew = {}
        for key, (lv, init) in lvs.items():
            if key[0] == "c" or seq is None or not cont:
                continue
            ds = {sub(getters[key](r[2]), lv) if getters[key](r[2]) is not None else None for r in cont}
            if len(ds) == 1:
                d = ds.pop()
                if d is not None and not contains(d, lv) and not T.has_unknown(d):
                    if contains(d, ix):
                        h = height(d) + 1
                        rew[lv] = add(init, ("psum", subst(d, ix, ("bv", h)), ix, h))
                    else:
                        rew[lv] = add(init, mul(d, ix))
        # single-element overwrite: reading the own position sees the initial element
        for key, (lv, init) in lvs.items():
            if key[0] != "c" or seq is None:
                continue
            vals = [getters[key](r[2]) for r in cont]
            if vals and all(v == lv or (v[0] == "setat" and v[1] == lv and contains(v[2], ix)) for v in vals):
                idxs = {v[2] for v in vals if v != lv}
                if len(idxs) == 1:
                    i0 = idxs.pop()
                    rew[at(lv, i0)] = at(init, i0)
                    rew[("len", lv)] = length(init)
            elif vals and not any(v[0] in ("unk",) for v in vals):
                pass

        def rw(t):
            for a, b in rew.items():
                t = subst(t, a, b) if isinstance(t, tuple) else t
            return t

        def rwany(x):
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    try:
                        return rw(x)
                    except Exception:
                        return x
                return tuple(rwany(y) for y in x)
            if isinstance(x, list):
                return [rwany(y) for y in x]
            return x

        pinfo = []
        for o, v, s in res:
            upd = {}
            for key, (lv, init) in lvs.items():
                nv = getters[key](s)
                if nv is not None and nv != lv:
                    upd[key] = rw(resolve(nv, s))
            pinfo.append((o, [(rwany(c), b) for c, b in s.conds[base:]], [rwany(x) for x in s.eff[eb:]], upd, rwany(v) if v else None))
        if self.births:
            for s, e in exc:
                pinfo.append(("raise", [(rwany(c), b) for c, b in s.conds[base:]], [rwany(x) for x in s.eff[eb:]], {}, e))
        linfo = ("loop", seq if seq is not None else ("while",), ix, pinfo)

        out = []
        # early returns and raises escape with the state of that iteration
        for (o, v, s) in ret:
            s2 = s.clone()
            s2.eff = s2.eff[:eb] + [linfo]
            s2.flags.add("inloop")
            out.append(("return", rwany(v), s2))
        for s, e in exc:
            s2 = s.clone()
            s2.eff = s2.eff[:eb] + [linfo]
            s2.flags.add("inloop")
            self.raised[-1].append((s2, e))

        # state after the loop
        after = st.clone()
        after.eff = after.eff + [linfo]
        for o, v, s in res:
            for k2, v2 in s.kinds.items():
                after.kinds.setdefault(k2, v2)
            for k2, v2 in s.cells.items():
                if k2 not in lvs and ("c", k2) not in lvs:
                    after.cells.setdefault(k2, v2)
            for k2, v2 in s.attrs.items():
                if k2[0] in s.kinds and k2[0] not in st.kinds:
                    after.attrs.setdefault(k2, rwany(v2))
        if self.lasts is not None and seq is not None:
            for nm in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} - names:
                after.env[nm] = self.unk(f"loop variable {nm}")
                self.lasts[after.env[nm]] = (ix, ("n", nm), [rwany(r[2].env.get(nm)) for r in res] + [None] * len(exc))
        # names assigned only inside the loop
        for nm in names:
            if nm not in st.env:
                after.env[nm] = self.unk(f"loop variable {nm}")
                if self.lasts is not None:
                    self.lasts[after.env[nm]] = (ix, ("n", nm), [rwany(r[2].env.get(nm)) for r in res] + [None] * len(exc))
        clean = seq is not None and not brk and not ret
        for key, (lv, init) in lvs.items():
            kind, k2 = key
            parts = []
            for r in cont:
                nv = getters[key](r[2])
                parts.append(([(rwany(c), b) for c, b in r[2].conds[base:]], rw(resolve(nv, r[2])) if nv is not None else lv))
            val = self.summarise(key, lv, init, parts, seq, nlen, ix, clean, rew, brk, getters)
            if self.lasts is not None and T.has_unknown(val):
                for x in T.walk(val):
                    if x[0] == "unk" and x[2] in ("loop", "while", "loop container", "loop value"):
                        self.lasts.setdefault(x, (ix, key, None, init))
            if kind == "n":
                after.env[k2] = val
            elif kind == "a":
                after.attrs[k2] = val
            else:
                after.cells[k2] = val
        # attributes of the members of a sequence set in every iteration
        if clean and cont:
            keys = {}
            for r in cont:
                for (o2, nm), v2 in r[2].attrs.items():
                    if contains(o2, ix) and entry.attrs.get((o2, nm)) != v2:
                        keys.setdefault((rwany(o2), nm), []).append(([(rwany(c), b) for c, b in r[2].conds[base:]], rw(resolve(v2, r[2]))))
            for (o2, nm), ps in keys.items():
                if len(ps) == len(cont):
                    after.foralls.append((nlen, o2, nm, merge(ps), ix))
                else:
                    miss = attr(o2, nm)
                    after.foralls.append((nlen, o2, nm, self.unk("partial update"), ix))
            for r in cont:
                for f in r[2].foralls[len(st.foralls):]:
                    after.foralls.append(f)
        afters = [after]
        if n.orelse:
            res2 = []
            for a in afters:
                res2 += self.block(n.orelse, a)
            return out + res2
        return out + [("fall", None, a) for a in afters]

    def summarise(self, key, lv, init, parts, seq, nlen, ix, clean, rew, brk, getters):
        vals = [v for _, v in parts]
        if not parts:
            return self.unk("loop")
        if all(v == lv for v in vals) and not any(getters[key](b[2]) != lv for b in brk):
            return init
        if seq is None:
            return self.unk("while")
        if key[0] == "c":
            lvv = lv
            if clean:
                tails = []
                for cs, v in parts:
                    t = tail_of(v, lvv)
                    tails.append((cs, t))
                if all(t is not None and not contains(t, lvv) for _, t in tails):
                    col = self.collect(seq, nlen, ix, [(cs, t if t != ("list",) else None) for cs, t in tails])
                    return cat(init, col)
                sets = [(cs, v) for cs, v in parts]
                if all(v == lvv or v[0] == "setat" and v[1] == lvv for _, v in sets):
                    idx = {v[2] for _, v in sets if v != lvv}
                    if len(idx) == 1 and idx == {ix}:
                        body = merge([(cs, v[3] if v != lvv else at(init, ix)) for cs, v in sets])
                        if not contains(body, lvv) and nlen == length(init):
                            return close(nlen, body, ix)
            return self.unk("loop container")
        if clean and lv in rew:
            d = sub(rew[lv], init)
            if d[0] == "psum":
                return add(init, ("sumover", nlen, d[1], d[3]))
            c, dd = T._lin(d)
            # d = k*ix
            return add(init, subst(d, ix, nlen))
        body = merge(parts)
        if clean and not T.has_unknown(subst(body, lv, ("acc",))):
            h = height(body) + 1
            b2 = subst(subst(body, lv, ("acc",)), ix, ("bv", h))
            return ("fold", nlen, init, b2, h)
        return ("after", ix, self.unk("loop value"), init)


# ------------------------------------------------------------------ helpers
def fresh_in(t, st):
    """An object created inside the loop body."""
    return t[0] == "new" and t not in st.kinds


def tail_of(v, lv):
    """v = cat(lv, t) -> t"""
    if v == lv:
        return ("list",)
    if v[0] == "cat" and v[1] == lv:
        return v[2]
    if v[0] == "cat":
        t = tail_of(v[1], lv)
        if t is not None:
            return cat(t, v[2])
    return None


def cat(a, b):
    if a[0] in ("list",) and len(a) == 1:
        return b if b[0] != "tup" else ("list",) + b[1:]
    if b[0] in ("list", "tup") and len(b) == 1:
        return a
    if a[0] == "list" and b[0] in ("list", "tup"):
        return a + b[1:]
    if a[0] == "cat" and a[2][0] == "list" and b[0] in ("list", "tup"):
        return ("cat", a[1], a[2] + b[1:])
    return ("cat", a, b)


T.cat = cat


def fmt(parts):
    out = []
    for p in parts:
        if p[0] == "fmt":
            out += p[1:]
        elif isk(p):
            s = str(kv(p))
            if out and isk(out[-1]):
                out[-1] = K(kv(out[-1]) + s)
            elif s:
                out.append(K(s))
        else:
            out.append(p)
    if not out:
        return K("")
    # join neighbouring constants
    res = []
    for p in out:
        if res and isk(p) and isk(res[-1]):
            res[-1] = K(str(kv(res[-1])) + str(kv(p)))
        else:
            res.append(p)
    if len(res) == 1 and isk(res[0]):
        return res[0]
    return ("fmt",) + tuple(res)


def absterm(a):
    """abs(x - y) == abs(y - x)"""
    b = mul(K(-1), a)
    return ("app", "abs", min(a, b, key=repr))


def conj(cs):
    ts = [c if b else not_(c) for c, b in cs]
    return and_(ts)


def and_(ts):
    ts = [t for t in ts if t != TRUE]
    if any(t == FALSE for t in ts):
        return FALSE
    u = sorted(set(ts), key=repr)
    if not u:
        return TRUE
    return u[0] if len(u) == 1 else ("and",) + tuple(u)


def or_(ts):
    if any(t == TRUE for t in ts):
        return TRUE
    u = sorted({t for t in ts if t != FALSE}, key=repr)
    if not u:
        return FALSE
    return u[0] if len(u) == 1 else ("or",) + tuple(u)


def merge(parts):
    """ite over the path conditions: [(conds, value)] -> term"""
    vals = {v for _, v in parts}
    if len(vals) == 1:
        return parts[0][1]
    # decision tree on the first condition
    firsts = [cs[0][0] for cs, _ in parts if cs]
    if not firsts:
        return parts[0][1]
    c = firsts[0]
    pos = [([x for x in cs if x[0] != c], v) for cs, v in parts if (c, True) in cs or c not in [x[0] for x in cs]]
    neg = [([x for x in cs if x[0] != c], v) for cs, v in parts if (c, False) in cs or c not in [x[0] for x in cs]]
    if not pos:
        return merge(neg)
    if not neg:
        return merge(pos)
    return ite(c, merge(pos), merge(neg))


def match(pat, t, ix):
    """i such that pat[ix:=i] == t"""
    if pat == t:
        return ix
    for x in T.walk(t):
        if pat[0] == "at" and pat[2] == ix and t[0] == "at" and t[1] == pat[1]:
            return t[2]
        break
    if pat[0] == "at" and t[0] == "at" and pat[1] == t[1]:
        d = sub(pat[2], ix)
        if not contains(d, ix):
            return sub(t[2], d)
    return None


def walk_scope(n):
    """ast.walk without entering nested functions, classes, lambdas or comprehensions' own scopes."""
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            continue
        yield from walk_scope(c)


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    return t
