"""C17: the caller's objects are left as they were.

Every function is summarised over its parameters: which objects reachable from them it changes in place (a path of
attributes and items from the parameter), what it stores where, and which of them its result is or holds.  Locals are
followed statement by statement; calls are replaced by the summaries of every definition they may mean, until nothing
changes.  The summaries of the entry points then tell what happens to the objects the caller handed over.
"""
import ast

from ..callgraph import Graph, external, pools
from ..program import Class, Func, Module

DEEP, LONG = 3, 6

SHALLOW = {"list", "tuple", "set", "sorted", "reversed", "frozenset", "iter", "dict", "copy.copy", "itertools.chain", "itertools.islice", "max", "min", "next", "filter",
           "numpy.atleast_1d", "numpy.atleast_2d"}
ALIAS = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.transpose",
         "numpy.swapaxes", "numpy.moveaxis", "numpy.expand_dims", "numpy.diagonal", "numpy.broadcast_to", "numpy.split", "numpy.array_split", "numpy.flip", "numpy.fliplr",
         "numpy.flipud", "numpy.real", "numpy.require", "typing.cast"}
VIEW = {"ravel", "reshape", "squeeze", "view", "transpose", "swapaxes", "diagonal"}
VIEWATTR = {"T", "flat", "real"}
CHANGES = {"append": 0, "extend": 0, "insert": 1, "add": 0, "update": 0, "setdefault": 1, "remove": None, "discard": None, "clear": None, "sort": None, "reverse": None, "fill": None, "put": None,
           "itemset": None, "resize": None, "partition": None, "pop": None, "popitem": None, "popleft": None, "appendleft": 0, "extendleft": 0, "rotate": None, "subtract": None,
           "intersection_update": None, "difference_update": None, "symmetric_difference_update": None, "setflags": None, "setfield": None, "byteswap": None, "move_to_end": None,
           "__setitem__": 1, "__delitem__": None, "__iadd__": None, "__imul__": None, "__setattr__": None, "__delattr__": None}
FIRST = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop",
         "heapq.heapreplace", "heapq.heappushpop", "operator.setitem", "operator.delitem", "operator.iadd", "operator.imul", "operator.isub", "numpy.put_along_axis", "bisect.insort",
         "bisect.insort_left", "bisect.insort_right", "numpy.resize_", "list.sort", "list.append", "dict.update", "list.extend", "list.insert", "list.pop", "dict.pop", "dict.setdefault",
         "list.remove", "list.reverse", "list.clear", "dict.clear", "dict.popitem", "numpy.nan_to_num_"}
NONE = frozenset()
ANY = "[]"


def cut(s, f):
    """What is left of field path s after reading field f of its owner; None when it does not lead there."""
    if not s:
        return None
    a = s[0]
    if a == f or a == "*" or f == "*" or a[0] == "[" and f[0] == "[" and (a == ANY or f == ANY):
        return s[1:]
    return None


def fits(p):
    return len(p) <= LONG and not (p[0][0] == "#" and len(p) > 1) and not any(numeric(p[:i]) for i in range(1, len(p)))


def trim(v):
    return frozenset((s, p) for s, p in v if len(s) <= DEEP and fits(p))


def read(v, f):
    out = set()
    for s, p in v:
        if not s:
            if numeric(p) or p[0][0] == "#":
                continue                # its items are numbers
            out.add(((), p + (f,)))
        else:
            r = cut(s, f)
            if r is not None:
                out.add((r, p))
    return trim(out)


def under(f, v):
    return trim(((f,) + s, p) for s, p in v)


def shallow(v):
    return under(ANY, read(v, ANY)) | frozenset((s, p) for s, p in v if s and s[0] != ANY and s[0][0] == "[")


def prefix(s, r):
    """r begins with the fields s: what follows, else None."""
    for x in s:
        r = cut(r, x)
        if r is None:
            return None
    return r


class Summary:
    def __init__(self):
        self.muts, self.stores, self.ret = {}, {}, NONE     # muts: (object path, field, class) -> site; stores: (path, class) -> value

    def size(self):
        return len(self.muts), sum(len(v) for v in self.stores.values()), len(self.ret)


class World:
    def __init__(self, ctx):
        self.ctx, self.prog, self.G = ctx, ctx.prog, Graph(ctx.prog)
        self.sum, self.users, self.todo, self.queued = {}, {}, [], set()
        self.props, self.setters = {}, {}
        for m in ctx.prog.modules.values():
            for c in m.classes.values():
                for f in c.methods.values():
                    if f.kind == "property":
                        self.props.setdefault(f.name, []).append(f)
                for f in c.setters.values():
                    self.setters.setdefault(f.name, []).append(f)
        self.stop = set()
        self.optimizer = self.cl("optimizer", "Optimizer")
        self.kinds = {"problem": self.cl("utils.problem", "Problem"), "termination": self.cl("utils.termination", "Termination"), "algorithm": self.optimizer,
                      "optimizer": self.optimizer, "history": self.cl("utils.history", "History"), "validator": self.cl("utils.validator", "Validator"),
                      "target": self.cl("utils.target", "Target"), "g_best": self.cl("utils.agent", "Agent"), "g_worst": self.cl("utils.agent", "Agent")}
        self.var = self.cl("utils.space", "BaseVar")

    def cl(self, m, n):
        m = self.prog.modules.get("mealpy." + m)
        return m.classes.get(n) if m else None

    def kind(self, p):
        """The class of the object at a path, where the name says it."""
        last = p[-1]
        if last[0] == "[" and len(p) > 1:
            return {"bounds": self.var, "_bounds": self.var, "algorithms": self.optimizer, "problems": self.kinds["problem"]}.get(p[-2])
        if last == "bounds" and len(p) == 1:
            return None
        return self.kinds.get(last)

    def get(self, f, user=None):
        if f not in self.sum:
            self.sum[f] = Summary()
            self.push(f)
        if user is not None:
            self.users.setdefault(f, set()).add(user)
        return self.sum[f]

    def push(self, f):
        if f not in self.queued:
            self.queued.add(f)
            self.todo.append(f)

    def run(self):
        n = 0
        while self.todo:
            f = self.todo.pop(0)
            self.queued.discard(f)
            n += 1
            if n > 60000:
                raise RuntimeError("summaries do not settle")
            s = self.sum[f]
            before = s.size()
            Walk(self, f, s).go()
            if s.size() != before:
                for u in self.users.get(f, ()):
                    self.push(u)
        return n


class Walk:
    def __init__(self, W, f, s):
        self.W, self.f, self.s, self.env = W, f, s, {}
        self.prog, self.m, self.cls = W.prog, f.module, f.cls
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.me = (a.posonlyargs + a.args)[0].arg if f.cls is not None and f.kind not in ("static",) and (a.posonlyargs + a.args) else None
        if f.kind == "classmethod":
            self.me = None
        for i, n in enumerate(self.params):
            self.env[n] = frozenset({((), (self.root(n),))})
        if a.kwarg:
            self.env[a.kwarg.arg] = frozenset({((ANY,), (a.kwarg.arg, ANY))})
        if a.vararg:
            self.env[a.vararg.arg] = frozenset({((ANY,), (a.vararg.arg, ANY))})
        self.local, self.imps = {}, {}

    def root(self, n):
        return "self" if n == self.me else n

    def go(self):
        self.block(self.f.node.body)

    # ---------------- effects
    def mut(self, v, field, at, cls=None):
        for s, p in v:
            if not s and fits(p):
                if p == ("self",) and self.quiet():
                    continue
                self.s.muts.setdefault((p, field, cls or self.cls), (self.f, at.lineno if hasattr(at, "lineno") else at))

    def quiet(self):
        """Changing its own attributes is what an optimizer is for; only what others lend it is followed."""
        return self.cls is not None and self.W.optimizer in self.cls.mro

    def store(self, p, v):
        if v and len(p) <= LONG:
            k = (p, self.cls)
            self.s.stores[k] = self.s.stores.get(k, NONE) | v

    # ---------------- statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def fork(self, *bodies):
        start, outs = dict(self.env), []
        for b in bodies:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        self.env = self.join(outs)

    @staticmethod
    def join(envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, NONE) | v
        return out

    def stmt(self, st):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value)
            for x in st.targets:
                self.assign(x, v, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif t is ast.AugAssign:
            v = self.ev(st.value)
            x = st.target
            if isinstance(x, ast.Name):
                self.mut(self.env.get(x.id, NONE), "+=", st)
                self.env[x.id] = self.env.get(x.id, NONE) | shallow(v)
            else:
                self.mut(self.ev(x), "+=", st)
                self.assign(x, shallow(v), st.value)
        elif t is ast.Expr:
            self.ev(st.value)
        elif t is ast.Return:
            if st.value is not None:
                self.s.ret |= self.ev(st.value)
        elif t is ast.If:
            self.ev(st.test)
            self.fork(st.body, st.orelse)
        elif t in (ast.For, ast.AsyncFor):
            it = read(self.ev(st.iter), ANY)
            before = dict(self.env)
            for _ in range(2):
                self.assign(st.target, it, None)
                self.block(st.body)
                self.env = self.join([before, self.env])
            self.block(st.orelse)
        elif t is ast.While:
            before = dict(self.env)
            for _ in range(2):
                self.ev(st.test)
                self.block(st.body)
                self.env = self.join([before, self.env])
            self.block(st.orelse)
        elif t is ast.Try or t.__name__ == "TryStar":
            before = dict(self.env)
            self.block(st.body)
            self.env = self.join([before, self.env])
            self.fork(st.orelse, *[h.body for h in st.handlers])
            self.block(st.finalbody)
        elif t in (ast.With, ast.AsyncWith):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(st.body)
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Subscript):
                    self.mut(self.ev(x.value), self.key(x.slice), st)
                elif isinstance(x, ast.Attribute):
                    self.mut(self.ev(x.value), x.attr, st)
                elif isinstance(x, ast.Name):
                    self.env.pop(x.id, None)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.local[st.name] = st
            self.inner(st.args, st.body)
        elif t in (ast.Import, ast.ImportFrom) and not getattr(st, "level", 0):
            for a in st.names:
                if t is ast.Import:
                    self.imps[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                else:
                    self.imps[a.asname or a.name] = f"{st.module}.{a.name}"
        elif t is ast.Match:
            self.ev(st.subject)
            self.fork(*[c.body for c in st.cases])
        elif t in (ast.Raise, ast.Assert):
            for x in ast.iter_child_nodes(st):
                self.ev(x)

    def inner(self, args, body, given=None):
        """The body of a function made here, with what its parameters are given."""
        keep = dict(self.env)
        ret = self.s.ret
        names = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        for n in names:
            self.env[n] = (given or {}).get(n, NONE)
        self.s.ret = NONE
        if isinstance(body, list):
            self.block(body)
            out = self.s.ret
        else:
            out = self.ev(body)
        self.s.ret, self.env = ret, keep
        return out

    def key(self, s):
        if isinstance(s, ast.Constant) and isinstance(s.value, (str, int)) and not isinstance(s.value, bool):
            return f"[{s.value}]"
        return ANY

    def assign(self, x, v, src):
        if isinstance(x, ast.Name):
            self.env[x.id] = trim(v)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for i, e in enumerate(x.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, under(ANY, read(v, ANY)), None)
                else:
                    self.assign(e, read(v, f"[{i}]"), None)
        elif isinstance(x, (ast.Attribute, ast.Subscript)):
            f = x.attr if isinstance(x, ast.Attribute) else self.key(x.slice)
            if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
                v = shallow(v)
                v = read(v, ANY)
            if isinstance(x, ast.Subscript):
                self.ev(x.slice)
            o = self.ev(x.value)
            self.mut(o, f, x)
            for s, p in o:
                if not s:
                    self.store(p + (f,), v)
            base, chain = x.value, [f]
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                chain.insert(0, base.attr if isinstance(base, ast.Attribute) else self.key(base.slice))
                base = base.value
            if isinstance(base, ast.Name) and base.id in self.env:
                old = self.env[base.id]
                if base is x.value and f != ANY:
                    old = frozenset((s, p) for s, p in old if not s or s[0] != f)
                self.env[base.id] = trim(old | {(tuple(chain) + s, p) for s, p in v})
            if isinstance(x, ast.Attribute) and x.attr in self.W.setters:
                for g in self.W.setters[x.attr]:
                    if self.cls is None or not (isinstance(x.value, ast.Name) and x.value.id == self.me) or g in [c.setters.get(x.attr) for c in self.cls.mro if isinstance(c, Class)]:
                        ps = [a.arg for a in g.node.args.args]
                        self.apply(g, {"self": o, **({ps[1]: v} if len(ps) > 1 else {})}, x)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v, src)

    # ---------------- expressions
    def ev(self, e):
        t = type(e)
        if t is ast.Name:
            return self.env.get(e.id, NONE)
        if t is ast.Constant or e is None:
            return NONE
        if t is ast.Attribute:
            r = self.prog.resolve_expr(self.m, e)
            if isinstance(r, (str, Func, Class, Module)) or isinstance(r, tuple):
                return NONE
            v = self.ev(e.value)
            out = read(v, e.attr)
            if e.attr in VIEWATTR:
                out |= v
            if v and e.attr in self.W.props:
                for g in self.W.props[e.attr]:
                    out |= self.apply(g, {"self": v}, e)
            return out
        if t is ast.Subscript:
            v = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                own = frozenset((s, p) for s, p in v if not s and arraylike(p) is True)
                return own | shallow(v)
            return read(v, self.key(e.slice))
        if t is ast.Call:
            return self.call(e)
        if t in (ast.Tuple, ast.List, ast.Set):
            out = NONE
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    out |= under(ANY, read(self.ev(x.value), ANY))
                else:
                    out |= under(f"[{i}]" if t is not ast.Set else ANY, self.ev(x))
            return trim(out)
        if t is ast.Dict:
            out = NONE
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                if k is None:
                    out |= shallow(v)
                else:
                    self.ev(k)
                    out |= under(self.key(k), v)
            return trim(out)
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            keep = dict(self.env)
            for g in e.generators:
                self.assign(g.target, read(self.ev(g.iter), ANY), None)
                for c in g.ifs:
                    self.ev(c)
            if t is ast.DictComp:
                self.ev(e.key)
            out = under(ANY, self.ev(e.value if t is ast.DictComp else e.elt))
            self.env = keep
            return out
        if t is ast.IfExp:
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if t is ast.BoolOp:
            out = NONE
            for x in e.values:
                out |= self.ev(x)
            return out
        if t is ast.BinOp:
            a, b = self.ev(e.left), self.ev(e.right)
            return shallow(a) | shallow(b) if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) else NONE
        if t is ast.NamedExpr:
            v = self.ev(e.value)
            self.assign(e.target, v, None)
            return v
        if t is ast.Lambda:
            self.inner(e.args, e.body)
            return NONE
        if t is ast.Starred:
            return self.ev(e.value)
        if t in (ast.Yield, ast.YieldFrom):
            if e.value is not None:
                v = self.ev(e.value)
                self.s.ret |= under(ANY, v) if t is ast.Yield else shallow(v)
            return NONE
        if t is ast.Await:
            return self.ev(e.value)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return NONE

    def given(self, e):
        """Positional values (with what a star spreads) and keywords of a call."""
        pos, star, kw, rest = [], NONE, {}, NONE
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= read(self.ev(a.value), ANY)
            else:
                pos.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                rest |= read(v, ANY)
            else:
                kw[k.arg] = v
        return pos, star, kw, rest

    def bind(self, g, pos, star, kw, rest, recv=None):
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if g.cls is not None and g.kind not in ("static",) and names:
            first = names.pop(0)
            out["self" if g.kind != "classmethod" else first] = recv if recv is not None else NONE
        for n, v in zip(names, pos):
            out[n] = v
        over = pos[len(names):]
        if a.vararg:
            out[a.vararg.arg] = frozenset().union(star, *over)       # a value of one item
        free = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in out and n not in kw]
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                out[n] = v
            elif a.kwarg:
                out[a.kwarg.arg] = out.get(a.kwarg.arg, NONE) | v
        if rest or star:
            for n in free:
                out[n] = out.get(n, NONE) | rest | star
            if a.kwarg:
                out[a.kwarg.arg] = out.get(a.kwarg.arg, NONE) | rest
        return out, {x.arg for x in (a.vararg, a.kwarg) if x}

    def apply(self, g, args, at, spread=()):
        """The effects and the result of calling g with these values."""
        s = self.W.get(g, self.f)
        for (p, f, c), site in list(s.muts.items()):
            for q in self.places(p, args, spread):
                if q == ("self",) and self.quiet():
                    continue
                if fits(q):
                    self.s.muts.setdefault((q, f, c), site)
        for (p, c), v in list(s.stores.items()):
            w = self.subst(v, args, spread)
            if w:
                for q in self.places(p[:-1], args, spread):
                    if len(q) < LONG:
                        k = (q + p[-1:], c)
                        self.s.stores[k] = self.s.stores.get(k, NONE) | w
        return self.subst(s.ret, args, spread)

    def arg(self, p, args, spread):
        """The value bound to the root of p and the fields still to follow."""
        v = args.get(p[0], NONE)
        if p[0] in spread and len(p) > 1:
            return v, p[2:]         # kwargs[...] : the values themselves were collected
        return v, p[1:]

    def places(self, p, args, spread):
        v, r = self.arg(p, args, spread)
        out = set()
        for s, q in v:
            if len(s) <= len(r):
                x = prefix(s, r)
                if x is not None:
                    out.add(q + x)
        return out

    def subst(self, v, args, spread):
        out = set()
        for s, p in v:
            w, r = self.arg(p, args, spread)
            for s2, q in w:
                if len(s2) <= len(r):
                    x = prefix(s2, r)
                    if x is not None:
                        out.add((s, q + x))
                else:
                    x = prefix(r, s2)
                    if x is not None:
                        out.add((s + x, q))
        return trim(out)

    def make(self, c, e, pos, star, kw, rest):
        """An instance of c: what it holds of the values given."""
        g = c.lookup("__init__")
        if g is None:
            return NONE
        args, spread = self.bind(g, pos, star, kw, rest, recv=NONE)
        s = self.W.get(g, self.f)
        for (p, f, k), site in list(s.muts.items()):
            if p[0] != "self":
                for q in self.places(p, args, spread):
                    if fits(q):
                        self.s.muts.setdefault((q, f, k), site)
            elif len(p) > 1:
                # through an attribute of the new object
                for (sp, sc), v in list(s.stores.items()):
                    if sp[0] == "self":
                        x = prefix(sp[1:], p[1:])
                        if x is None:
                            continue
                        for s2, q in self.subst(v, args, spread):
                            y = prefix(s2, x)
                            if y is not None and fits(q + y):
                                self.s.muts.setdefault((q + y, f, k), site)
        out = set()
        for (p, k), v in list(s.stores.items()):
            if p[0] == "self":
                for s2, q in self.subst(v, args, spread):
                    out.add((p[1:] + s2, q))
        return trim(out)

    def targets(self, fn):
        """What a callable expression may be: (functions, receiver value, bound arguments)."""
        if isinstance(fn, ast.Call) and self.lib(fn.func) == "functools.partial" and fn.args:
            return fn.args[0], fn.args[1:], fn.keywords
        return fn, [], []

    def dotted(self, e):
        """The name in a library of something imported inside the function."""
        if isinstance(e, ast.Name):
            n = self.imps.get(e.id, "")
            return "" if n.startswith("mealpy") else n
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return f"{b}.{e.attr}" if b else ""
        return ""

    def lib(self, e):
        r = self.dotted(e) or self.prog.resolve_expr(self.m, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, str):
            return r
        if isinstance(e, ast.Name) and e.id not in self.env and e.id not in self.local and r is None:
            return e.id
        return ""

    def call(self, e):
        pos, star, kw, rest = self.given(e)
        every = frozenset().union(star, rest, *pos, *kw.values())
        fn = e.func
        if e in (self.pooled()):
            return self.pool(e, pos, kw)
        name = self.lib(fn)
        if name:
            return self.library(name, e, pos, star, kw, rest)
        if isinstance(fn, ast.Name) and fn.id in self.local:
            d = self.local[fn.id]
            names = [a.arg for a in d.args.args]
            return self.inner(d.args, d.body, {**dict(zip(names, pos)), **{k: v for k, v in kw.items() if k in names}}) if not self.deep(d) else NONE
        r = self.prog.resolve_expr(self.m, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Class):
            return self.make(r, e, pos, star, kw, rest)
        if isinstance(r, Func):
            if r.cls is not None and r.kind not in ("static", "classmethod"):        # Base.method(self, ...)
                recv, pos = (pos[0], pos[1:]) if pos else (NONE, pos)
                return self.one(r, recv, pos, star, kw, rest, e)
            return self.one(r, NONE, pos, star, kw, rest, e)
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.cls is not None:
                g = self.cls.lookup_after(self.cls, fn.attr)
                return self.one(g, self.env.get(self.me, NONE), pos, star, kw, rest, e) if g else NONE
            return self.method(fn, e, pos, star, kw, rest)
        v = self.ev(fn)
        return NONE

    def deep(self, d):
        self.depth = getattr(self, "depth", 0)
        if self.depth > 3:
            return True
        return False

    def pooled(self):
        if not hasattr(self, "_pooled"):
            self._pooled = set(pools(self.prog, self.f)) if any(isinstance(i, str) and i.split(".")[0] in ("concurrent", "multiprocessing", "joblib") for i in self.m.imports.values()) else set()
        return self._pooled

    def pool(self, e, pos, kw):
        """Work handed to workers: the callable is called with (items of) the other arguments."""
        if not e.args:
            return NONE
        fn, pa, pk = self.targets(e.args[0])
        each = isinstance(e.func, ast.Attribute) and e.func.attr not in ("submit", "apply", "apply_async", "run_in_executor")
        p = [self.ev(a) for a in pa] + [read(v, ANY) if each else v for v in pos[1:]]
        k = {x.arg: self.ev(x.value) for x in pk if x.arg}
        if not each:
            k.update(kw)
        out = NONE
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value)
            for g in self.candidates(fn):
                out |= self.one(g, recv, p, NONE, k, NONE, e)
        return under(ANY, out) if each else under("result", out)

    def one(self, g, recv, pos, star, kw, rest, at):
        if g is None or g in self.W.stop:
            return NONE
        args, spread = self.bind(g, pos, star, kw, rest, recv)
        return self.apply(g, args, at, spread)

    def candidates(self, fn):
        if isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.cls is not None:
            return self.W.G.family(self.cls, fn.attr)
        return None

    def method(self, fn, e, pos, star, kw, rest):
        n = fn.attr
        recv = self.ev(fn.value)
        own = self.candidates(fn)
        if own:
            out = NONE
            for g in own:
                out |= self.one(g, recv, pos, star, kw, rest, e)
            return out
        rname = fn.value.attr if isinstance(fn.value, ast.Attribute) else fn.value.id if isinstance(fn.value, ast.Name) else ""
        if rname in ("logger",):
            return NONE
        if rname in ("generator", "rng", "_generator", "random") or n in ("shuffle",):
            if n == "shuffle" and pos:
                self.mut(pos[0], ANY, e)
            if n in ("choice", "permutation", "permuted", "sample", "choices") and pos:
                if isinstance(kw.get("out"), frozenset):
                    self.mut(kw["out"], ANY, e)
                return shallow(pos[0]) | read(pos[0], ANY)
            return NONE
        if "out" in kw:
            self.mut(kw["out"], ANY, e)
        every = frozenset().union(recv, star, rest, *pos, *kw.values())
        if not every:
            # nothing of a caller is involved here, but what the callee stores in its receiver may be read later
            return NONE
        out = NONE
        known = self.W.G.by_name.get(self.cls.mangled(n) if self.cls else n, [])
        cands = [g for g in known if isinstance(g, Func) and g.kind != "property"] if not external(fn) else []
        cands = self.typed(recv, fn.value, cands)
        for g in cands:
            out |= self.one(g, recv if g.kind != "static" else NONE, pos, star, kw, rest, e)
        if n in CHANGES and not (cands and self.certain(recv)):
            self.mut(recv, ANY, e)
            i = CHANGES[n]
            v = NONE
            if i is not None and len(pos) > i:
                v = read(pos[i], ANY) if n in ("extend", "update", "extendleft") else pos[i]
            if n == "update":
                for x in kw.values():
                    v |= x
            for s, p in recv:
                if not s:
                    self.store(p + (ANY,), v)
            base, chain = fn.value, [ANY]
            while isinstance(base, (ast.Attribute, ast.Subscript)):
                chain.insert(0, base.attr if isinstance(base, ast.Attribute) else self.key(base.slice))
                base = base.value
            if isinstance(base, ast.Name) and base.id in self.env:
                self.env[base.id] = trim(self.env[base.id] | {(tuple(chain) + s, p) for s, p in v})
            if n in ("pop", "popitem", "popleft", "setdefault"):
                out |= read(recv, self.key(e.args[0]) if e.args else ANY) | (v if n == "setdefault" else NONE)
            return out
        if n in VIEW:
            return out | recv
        if n in ("copy", "tolist", "values", "keys", "__copy__"):
            return out | (shallow(recv) if n != "keys" else NONE)
        if n == "items":
            return out | trim((("[]", "[1]") + s, p) for s, p in read(recv, ANY))
        if n in ("get", "__getitem__"):
            return out | read(recv, self.key(e.args[0]) if e.args else ANY) | (pos[1] if len(pos) > 1 else NONE)
        if n == "result":
            return out | read(recv, "result")
        return out

    def certain(self, recv):
        return any(self.W.kind(p) for s, p in recv if not s)

    def typed(self, recv, node, cands):
        """Only the definitions of the class the receiver is known to have."""
        ks = [self.W.kind(p) for s, p in recv if not s]
        if not ks or any(k is None for k in ks):
            return cands
        out = []
        for k in ks:
            for g in cands:
                if g.cls is not None and (g.cls.is_sub(k) or k.is_sub(g.cls)) and g not in out:
                    out.append(g)
        return out

    def library(self, name, e, pos, star, kw, rest):
        last = name.split(".")[-1]
        name = name[9:] if name.startswith("builtins.") else name
        if "out" in kw:
            self.mut(kw["out"], ANY, e)
            return kw["out"]
        if name in ("copy.deepcopy", "deepcopy"):
            return NONE
        if name in FIRST or name.startswith("numpy.") and last == "at":
            if pos:
                self.mut(pos[0], ANY, e)
                if last in ("heappush", "append", "insort", "insert", "extend", "update", "setitem", "setdefault") and len(pos) > 1:
                    self.hold(e.args[0], ANY, read(pos[-1], ANY) if last in ("extend", "update") else pos[-1])
                return read(pos[0], ANY) if "pop" in last else pos[0] if name.startswith("operator.i") else NONE
            return NONE
        if name == "setattr" and len(pos) == 3:
            f = e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"
            self.mut(pos[0], f, e)
            if f != "*":                # extra keywords are kept under their own names, which nothing else uses
                for s, p in pos[0]:
                    if not s:
                        self.store(p + (f,), pos[2])
                self.hold(e.args[0], f, pos[2])
            return NONE
        if name == "delattr" and pos:
            self.mut(pos[0], "*", e)
            return NONE
        if name == "getattr" and len(pos) > 1:
            f = e.args[1].value if isinstance(e.args[1], ast.Constant) else "*"
            return read(pos[0], f) | (pos[2] if len(pos) > 2 else NONE)
        if name == "vars" and pos:
            return pos[0]
        if name in ("numpy.array",) and pos:
            c = [k for k in e.keywords if k.arg == "copy"]
            return pos[0] if c and not (isinstance(c[0].value, ast.Constant) and c[0].value.value is True) else NONE
        if name in ALIAS and pos:
            return pos[0] | kw.get("a", NONE)
        if last == "nan_to_num" and pos and "copy" in kw:
            self.mut(pos[0], ANY, e)
            return pos[0]
        if name == "enumerate" and pos:
            return trim((("[]", "[1]") + s, p) for s, p in read(pos[0], ANY))
        if name in ("zip", "itertools.product", "itertools.zip_longest"):
            out = NONE
            for i, v in enumerate(pos):
                out |= trim((("[]", f"[{i}]") + s, p) for s, p in read(v, ANY))
            return out | trim((("[]", "[]") + s, p) for s, p in read(star, ANY)) if star else out
        if name == "map" and len(pos) > 1:
            fn, pa, pk = self.targets(e.args[0])
            args = [self.ev(a) for a in pa] + [read(v, ANY) for v in pos[1:]]
            if isinstance(fn, ast.Lambda):
                return under(ANY, self.inner(fn.args, fn.body, dict(zip([a.arg for a in fn.args.args], args))))
            out = NONE
            if isinstance(fn, ast.Attribute):
                for g in self.candidates(fn) or []:
                    out |= self.one(g, self.ev(fn.value), args, NONE, {}, NONE, e)
            return under(ANY, out)
        if name in SHALLOW or last in ("deque", "OrderedDict", "defaultdict", "list", "tuple"):
            out = NONE
            for v in pos:
                out |= shallow(v)
                if name in ("max", "min", "next"):
                    out |= read(v, ANY) | v
            for v in kw.values():
                if name == "dict":
                    out |= under(ANY, v)
            return out | shallow(rest)
        if last in ("Agent",):
            return NONE
        return NONE

    def hold(self, e, f, v):
        base, chain = e, [f]
        while isinstance(base, (ast.Attribute, ast.Subscript)):
            chain.insert(0, base.attr if isinstance(base, ast.Attribute) else self.key(base.slice))
            base = base.value
        if isinstance(base, ast.Name) and base.id in self.env:
            self.env[base.id] = trim(self.env[base.id] | {(tuple(chain) + s, p) for s, p in v})


def numeric(p):
    """A row of numbers."""
    return p[-1] in ("lb", "ub") or p[-1].endswith("solution") or len(p) == 2 and p[0] == "starting_solutions"


def arraylike(p):
    """Is the object at this path an array or list (True), a number or text (False), or open (None)?"""
    last = p[-1]
    if numeric(p) or last in ("_bounds", "bounds", "starting_solutions"):
        return True
    if p[0] == "starting_solutions" and len(p) == 2:
        return True
    if last in ("n_dims", "n_objs", "minmax", "name", "seed", "log_to", "log_file", "save_population", "n_vars", "epoch", "pop_size", "max_epoch", "max_fe", "max_time", "max_early_stop", "epsilon"):
        return False
    return None


# ---------------------------------------------------------------- what it means for a caller
PLAIN = ("seed", "mode", "n_workers", "n_jobs", "n_trials", "verbose", "epoch", "pop_size", "name", "save_path", "save_as", "log_to", "log_file", "minmax", "save_population",
         "n_dims", "n_objs", "n_vars", "valid_set", "valid_sets")
OWN = ("logger", "validator", "generator", "_generator", "rng", "history")


def related(a, b):
    return a is None or b is None or a in b.mro or b in a.mro


class Entry:
    """Public functions of one class whose parameters belong to the caller."""

    def __init__(self, W, cls, names, free=()):
        self.W, self.cls, self.free = W, cls, free
        self.fs = [f for f in ((cls.lookup(n) if isinstance(n, str) else n) for n in names) if f is not None]

    def roots(self, f, p, k, seen=None):
        """The caller's objects a path of f's summary stands for."""
        if p[0] != "self":
            return {(f, p)}
        seen = seen if seen is not None else set()
        if (p, k) in seen or len(seen) > 400:
            return set()
        seen.add((p, k))
        out = set()
        for g in self.fs:
            for (sp, sk), v in self.W.sum[g].stores.items():
                if sp[0] != "self" or not related(sk, k):
                    continue
                r = prefix(sp[1:], p[1:])
                if r is None:
                    continue
                for s, q in v:
                    y = prefix(s, r)
                    if y is not None and fits(q + y):
                        out |= self.roots(g, q + y, k, seen)
        return out

    def changes(self):
        for f in self.fs:
            for (p, field, k), site in self.W.sum[f].muts.items():
                for g, q in self.roots(f, p, k):
                    yield g, q, field, site


def settings(W):
    t = W.kinds["termination"]
    f = t.lookup("__init__") if t else None
    return {a.arg for a in f.node.args.args[1:]} | {"epsilon"} if f else set()


def text(q, field):
    t = q[0] + "".join(x if x[0] == "[" else "." + x for x in q[1:])
    return t + (" in place" if field in ("[]", "+=") else field if field[0] == "[" else "." + field)


def run(ctx):
    ctx.explanation = ("alias and mutation summaries of every function (object paths from its parameters), composed over all definitions a call may mean until they settle; "
                       "the summaries of the entry points are compared with what they may change of the caller's objects")
    W = World(ctx)
    O = W.optimizer
    mods = ctx.prog.modules
    W.stop = {O.lookup("solve")} - {None}
    P, T, V = W.kinds["problem"], W.kinds["termination"], W.var
    Mu, Tu, PG = W.cl("multitask", "Multitask"), W.cl("tuner", "Tuner"), W.cl("tuner", "ParameterGrid")
    E = []
    E.append(Entry(W, O, ["solve"]))
    if Mu:
        E.append(Entry(W, Mu, ["__init__", "execute"], free=(("algorithms", ANY),)))
    if Tu:
        E.append(Entry(W, Tu, ["__init__", "execute", "resolve", "export_results", "export_figures"], free=(("algorithm",),)))
    if PG:
        E.append(Entry(W, PG, [f for f in PG.methods.values()]))
    for c in [P] + W.G.subs.get(V, []) + W.G.subs.get(P, [])[1:] if P and V else []:
        E.append(Entry(W, c, [n for n in sorted({n for k in c.mro if isinstance(k, Class) for n in k.methods}) if not n.startswith("_") or n == "__init__"]))
    if T:
        E.append(Entry(W, T, ["__init__"]))
    tg = W.kinds["target"]
    if tg:
        E.append(Entry(W, tg, ["__init__"]))
    for c in W.G.subs.get(O, []):
        if "__init__" in c.methods or c is O:
            E.append(Entry(W, c, ["__init__", "set_parameters"]))
    for e in E:
        for f in e.fs:
            W.get(f)
    n = W.run()
    ctx.count("summaries", len(W.sum))
    ctx.count("rounds", n)
    ctx.count("effects", sum(len(s.muts) for s in W.sum.values()))
    ctx.count("stored_references", sum(len(s.stores) for s in W.sum.values()))
    keep = settings(W)
    solve = W.sum.get(O.lookup("solve"))
    seen = set()
    for e in E:
        ctx.count("entry_points", len(e.fs))
        todo = list(e.changes())
        if O in e.cls.mro and e.cls is not O and solve is not None:
            # what a run does to the objects its constructor was given
            for (p, field, k), site in solve.muts.items():
                if p[0] == "self" and k is not None and (k in e.cls.mro):
                    for g, q in e.roots(None, p, k):
                        todo.append((g, q, field, site))
        for g, q, field, (where, line) in todo:
            ctx.count("obligations")
            if q[0] in ("self", "cls") or q[-1] in PLAIN or any(x in OWN or x in PLAIN for x in q[:-1]):
                continue
            if field in ("seed", "[seed]") or field in ("_seed", "generator") and (W.kind(q) is V or where.cls is V):
                continue
            if any(len(q) >= len(r) and prefix(r, q) is not None and (len(q) > len(r) or field[0] not in "[+") for r in e.free):
                continue
            if W.kind(q) is T and field[0] not in "[+*" and field not in keep:
                continue
            a = arraylike(q)
            if field == "+=" and a is not True:
                if a is None:
                    ctx.undec(f"{where.where}:{line}: an augmented assignment may change {text(q, field)} of {g.where}")
                continue
            key = f"{where.where}:{text(q, field)}".replace(" ", "-")
            if key in seen:
                continue
            seen.add(key)
            ctx.find("caller-object", key, f"{where.module.rel}:{line}", f"line {line} of {where.where.split(':')[-1]} changes {text(q, field)}, which the caller handed to {g.where.split(':')[-1]}")
    if solve is not None:
        for (p, k), v in sorted(solve.stores.items(), key=repr):
            for s, q in v:
                if q[0] == "starting_solutions" and p[0] == "self":
                    ctx.find("kept", f"{p[1]}:{q[0]}{''.join(q[1:])}", O.lookup("solve").where, f"self.{'.'.join(p[1:] + s)} is the caller's own {q[0] + ''.join(q[1:])}, not a copy of it")
                    break
    ctx.need("summaries", 200)
