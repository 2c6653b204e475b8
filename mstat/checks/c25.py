"""Every loop ends: on each way back to its head something its end depends on is drawn anew, moved towards the end or used up."""
import ast
import itertools
import math

from ..callgraph import Graph
from ..program import Class
from .c16 import walk_own

MAX_PATHS = 400
DRAW_ATTRS = ("generator", "rng", "rvs")
CHANGERS = ("pop", "append", "extend", "remove", "insert", "clear", "update", "add", "discard", "sort", "reverse", "popitem", "setdefault", "fill", "put", "resize",
            "popleft", "appendleft", "next", "put_nowait", "get_nowait", "get")
PURE = ("int", "float", "round", "abs", "min", "max", "len", "bool", "floor", "ceil", "sqrt", "fabs", "absolute", "rint", "trunc", "pow")


# ---------------------------------------------------------------- paths through a loop's body
class Path:
    def __init__(self, items=(), end=None):
        self.items, self.end = list(items), end        # end: None (goes on), "back", "exit"

    def plus(self, item):
        return Path(self.items + [item], self.end)


class TooMany(Exception):
    pass


def walk(body, paths):
    """Extend every open path by the statements; ends: 'back' (continue), 'break', 'leave' (return, raise)."""
    for s in body:
        done = [p for p in paths if p.end]
        todo = [p for p in paths if not p.end]
        if not todo:
            return done
        paths = done + step(s, todo)
        if len(paths) > MAX_PATHS:
            raise TooMany
    return paths


def step(s, paths):
    if isinstance(s, ast.If):
        a = walk(s.body, [p.plus(("cond", s.test, True, s)) for p in paths])
        b = walk(s.orelse, [p.plus(("cond", s.test, False, s)) for p in paths])
        return a + b
    if isinstance(s, ast.Continue):
        return [Path(p.items, "back") for p in paths]
    if isinstance(s, ast.Break):
        return [Path(p.items, "break") for p in paths]
    if isinstance(s, (ast.Return, ast.Raise)):
        return [Path(p.items + [("stmt", s)], "leave") for p in paths]
    if isinstance(s, (ast.For, ast.While)):
        first = ("bind", s.target, s.iter) if isinstance(s, ast.For) else ("cond", s.test, True, s)
        inner = walk(s.body, [p.plus(first) for p in paths])
        out = []
        for p in inner:
            out.append(Path(p.items, "leave") if p.end == "leave" else Path(p.items, None))
        if isinstance(s, ast.While):
            out += [p.plus(("cond", s.test, False, s)) for p in paths]
        return walk(s.orelse, out) if s.orelse else out
    if isinstance(s, ast.With):
        return walk(s.body, [p.plus(("stmt", ast.Expr(i.context_expr))) for p in paths for i in s.items[:1]])
    if isinstance(s, ast.Try):
        a = walk(s.body, paths)
        b = [q for h in s.handlers for q in walk(h.body, [p.plus(("cond", ast.Constant("error"), True, h)) for p in paths])]
        a = [q for q in a if q.end] + walk(s.orelse, [q for q in a if not q.end])
        if s.finalbody:
            out = []
            for q in a + b:
                for r in walk(s.finalbody, [Path(q.items, None)]):
                    out.append(r if r.end else Path(r.items, q.end))
            return out
        return a + b
    if isinstance(s, ast.Match):
        out = []
        for c in s.cases:
            out += walk(c.body, [p.plus(("cond", s.subject, ast.unparse(c.pattern), s)) for p in paths])
        return out + list(paths)
    return [p.plus(("stmt", s)) for p in paths]


# ---------------------------------------------------------------- places
def place(e):
    """The text of a place (name, attribute of a place, element of a place)."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = place(e.value)
        return b and f"{b}.{e.attr}"
    if isinstance(e, ast.Subscript):
        b = place(e.value)
        return b and f"{b}[{ast.unparse(e.slice)}]"
    return None


METHOD_READS = {}        # attributes a method reads or changes, by method name


def method_reads(graph):
    METHOD_READS.clear()
    direct, calls = {}, {}
    for n, fs in graph.by_name.items():
        direct[n], calls[n] = set(), set()
        for g in fs:
            if g.kind == "static" or not g.node.args.args:
                continue
            me = g.node.args.args[0].arg
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    (calls[n] if x.attr in graph.by_name else direct[n]).add(x.attr)
    for n in direct:
        done, todo = set(), [n]
        while todo:
            k = todo.pop()
            if k not in done:
                done.add(k)
                todo += calls.get(k, ())
        METHOD_READS[n] = set().union(*(direct.get(k, set()) for k in done)) - {"generator", "logger"}


def places(e, indices=True):
    """Every place read in an expression (the longest of each chain)."""
    out = set()

    def go(x):
        p = place(x)
        if p:
            out.add(p)
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                if isinstance(x, ast.Subscript) and indices:
                    go(x.slice)
                x = x.value
            return
        for c in ast.iter_child_nodes(x):
            if isinstance(x, ast.Call) and c is x.func and isinstance(c, ast.Attribute):
                if isinstance(c.value, ast.Name) and c.value.id in ("self", "np", "math", "numpy"):
                    out.update(f"self.{a}" for a in METHOD_READS.get(c.attr, ()) if c.value.id == "self")
                else:
                    go(c.value)
            elif isinstance(x, ast.Call) and c is x.func and isinstance(c, ast.Name):
                continue
            else:
                go(c)
    if e is not None:
        go(e)
    return out


def touches(a, b):
    """Does a change of place a concern what is read at place b?"""
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x.startswith(y) and x[len(y)] in ".[":
            return True
    ra, rb = a.split("[")[0], b.split("[")[0]
    return "[" in a and "[" in b and (ra == rb or ra.startswith(rb + ".") or rb.startswith(ra + "."))


# ---------------------------------------------------------------- what an expression does
class Reader:
    def __init__(self, ctx, graph, f):
        self.ctx, self.graph, self.f = ctx, graph, f
        self._draws, self._weighted = {}, {}

    def local(self, name):
        """A function defined inside this one or a lambda kept under a name."""
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.FunctionDef) and x.name == name and x is not self.f.node:
                return x
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name and isinstance(x.value, ast.Lambda):
                return x.value
        return None

    def draws(self, e, deep=True):
        """Does evaluating the expression draw from a source of randomness (or of anything else that changes by itself)?"""
        if e is None:
            return False
        k = (id(e), deep)
        if k not in self._draws:
            self._draws[k] = self.graph.reach(e, self.f, has_draw) is not None if deep and any(isinstance(x, ast.Call) for x in ast.walk(e)) else has_draw(e)
            if not self._draws[k]:
                for x in ast.walk(e):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                        g = self.local(x.func.id)
                        if g is not None and (has_draw(g) or self.graph.reach(g, self.f, has_draw) is not None):
                            self._draws[k] = True
                        elif x.func.id in {a.arg for a in self.f.node.args.args + self.f.node.args.kwonlyargs}:
                            self._draws[k] = True           # a function handed in: taken to give something new
        return self._draws[k]

    def weighted(self, e):
        k = id(e)
        if k not in self._weighted:
            self._weighted[k] = any(isinstance(x, ast.Call) for x in ast.walk(e)) and self.graph.reach(e, self.f, has_weights) is not None
        return self._weighted[k]


def has_draw(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            t = ast.unparse(x.func)
            parts = t.replace("()", "").split(".")
            if any(p in DRAW_ATTRS for p in parts[:-1]) or parts[-1] == "rvs" or "random" in parts[:-1] or any(k.arg == "random_state" for k in x.keywords):
                return True
            if parts[0] == "time" or parts[-1] in ("perf_counter", "now", "monotonic"):
                return True
    return False


def has_weights(node):
    """A draw with probabilities."""
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("choice", "choices"):
            if any(k.arg in ("p", "weights") and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in x.keywords) or len(x.args) > 3:
                return True
    return False


# ---------------------------------------------------------------- changes along a path
def changes(item, R):
    """[(place, kind, expression)]: kind is draw, move (depends on its own or another changed value), set, unknown."""
    out = []
    if item[0] == "cond":
        out += walrus(item[1])
        return out + inside(item[1], R)
    if item[0] == "bind":
        for t in names(item[1]):
            out.append((t, "unknown", item[2]))
        return out + inside(item[2], R)
    s = item[1]
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        if s.value is not None:
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for a, b in zip(t.elts, s.value.elts):
                        out += [(p, "set", b) for p in names(a)]
                else:
                    out += [(p, "set", s.value) for p in names(t)]
    elif isinstance(s, ast.AugAssign):
        out += [(p, "move", ast.BinOp(as_load(s.target), s.op, s.value)) for p in names(s.target)]
    elif isinstance(s, ast.Delete):
        out += [(p, "unknown", None) for t in s.targets for p in names(t)]
        out += [(p.rsplit("[", 1)[0], "unknown", None) for t in s.targets for p in names(t) if p.endswith("]")]
    for e in ast.iter_child_nodes(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else []:
        if isinstance(e, ast.expr):
            out += walrus(e) + inside(e, R)
    return out


def as_load(t):
    return ast.parse(ast.unparse(t), mode="eval").body


def told(path, R):
    """The path with tests of a local read as what the local was just set to."""
    known, items = {}, []

    def at(e):
        if isinstance(e, ast.BoolOp):
            return ast.BoolOp(e.op, [at(v) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ast.UnaryOp(e.op, at(e.operand))
        return known.get(e.id, e) if isinstance(e, ast.Name) else e

    for it in path.items:
        if it[0] == "cond" and known:
            it = (it[0], at(it[1]), *it[2:])
        items.append(it)
        ch = changes(it, R)
        for n in [n for n, v in known.items() if any(touches(c, q) for c, _, _ in ch for q in [n, *places(v)])]:
            del known[n]
        if it[0] == "stmt" and isinstance(it[1], ast.Assign) and len(it[1].targets) == 1 and isinstance(it[1].targets[0], ast.Name):
            n, v = it[1].targets[0].id, it[1].value
            if not any(touches(n, q) for q in places(v)):
                known[n] = at(v)
    return Path(items, path.end)


def walrus(e):
    return [(x.target.id, "set", x.value) for x in ast.walk(e) if isinstance(x, ast.NamedExpr)]


def inside(e, R):
    """Changes made by calls inside an expression: methods that change their object, and functions of this package given the object."""
    out = []
    for x in ast.walk(e):
        if not isinstance(x, ast.Call):
            continue
        f = x.func
        if isinstance(f, ast.Attribute):
            b = place(f.value)
            if b and f.attr in CHANGERS:
                out.append((b, "unknown", None))
            if b and f.attr not in CHANGERS and b == R.me():
                for p in R.stores_of(f.attr):
                    out.append((p, "unknown", None))
            if b and b != R.me() and not b.startswith(tuple(m + "." for m in ("np", "numpy", "math"))) and b not in ("np", "numpy", "math") and "generator" not in b and R.changes_itself(f.attr):
                out.append((b, "unknown", None))
        if isinstance(f, ast.Name) and f.id in ("next", "setattr", "delattr") and x.args:
            b = place(x.args[0])
            if b:
                out.append((b, "unknown", None))
        if isinstance(f, ast.Name) and R.local(f.id) is not None:
            g = R.local(f.id)
            for y in ast.walk(g):
                if isinstance(y, ast.Nonlocal):
                    out += [(n, "unknown", None) for n in y.names]
        if R.known_pure(f):
            continue
        for a in list(x.args) + [k.value for k in x.keywords]:
            p = place(a)
            if p and R.may_change(x, p):
                out.append((p, "unknown", None))
    return out


def names(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in names(e)]
    if isinstance(t, ast.Starred):
        return names(t.value)
    p = place(t)
    return [p] if p else []


class Funcs(Reader):
    def me(self):
        a = self.f.node.args.args
        return a[0].arg if self.f.cls is not None and self.f.kind != "static" and a else "?"

    def callers(self, f):
        """Functions of the classes around f's that mention it."""
        out = []
        for gs in self.graph.by_name.values():
            for g in gs:
                if getattr(g, "cls", None) is not None and (g.cls is f.cls or f.cls in g.cls.mro or g.cls in f.cls.mro) and g is not f:
                    out.append(g)
        return out

    def stores_of(self, name):
        """Attributes of self a method of this class may change, as places."""
        key = ("stores", name)
        if key not in self._draws:
            out = set()
            fam = self.graph.family(self.f.cls, name) if self.f.cls is not None else []
            todo, done = list(fam), set()
            while todo:
                g = todo.pop()
                if g in done or g.cls is None or not g.node.args.args or g.kind == "static":
                    continue
                done.add(g)
                me = g.node.args.args[0].arg
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        if isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                            todo += self.graph.family(self.f.cls, x.func.attr)
                        elif isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super":
                            h = g.cls.lookup_after(g.cls, x.func.attr)
                            todo += [h] if h else []
                for x in ast.walk(g.node):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        p = place(x)
                        if p and p.startswith(me + "."):
                            out.add(self.me() + p[len(me):].split("[")[0])
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGERS:
                        p = place(x.func.value)
                        if p and p.startswith(me + "."):
                            out.add(self.me() + p[len(me):].split("[")[0])
            self._draws[key] = out
        return self._draws[key]

    def changes_itself(self, name):
        """Does a method of this name of any class of the package change its own object?"""
        key = ("itself", name)
        if key not in self._draws:
            r = False
            for g in self.graph.by_name.get(name, []):
                if g.node.args.args:
                    me = g.node.args.args[0].arg
                    r = r or any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store) and (place(x) or "").startswith(me + ".") for x in ast.walk(g.node))
            self._draws[key] = r
        return self._draws[key]

    def known_pure(self, f):
        t = ast.unparse(f)
        return t.split(".")[0] in ("np", "numpy", "math") and t.split(".")[-1] not in ("copyto", "put", "place", "putmask", "fill_diagonal") or t in PURE or t in ("list", "set", "tuple", "range", "sorted", "enumerate", "zip", "str", "dict", "sum", "any", "all", "isinstance")

    def may_change(self, call, p):
        """A function of this package that stores into a parameter; functions that are not known may change what they get."""
        gs = self.graph.refs(call.func, self.f)
        if not gs:
            r = ast.unparse(call.func)
            return not (r.split(".")[0] in (self.me(),) and "generator" in r) and self.local(r) is None and r.split(".")[0] not in ("cauchy", "scipy", "stats")
        for g in gs:
            ps = {a.arg for a in g.node.args.args[0 if g.kind == "static" or g.cls is None else 1:]}
            for x in ast.walk(g.node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and (place(x) or "?").split(".")[0].split("[")[0] in ps:
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGERS and (place(x.func.value) or "?").split(".")[0].split("[")[0] in ps:
                    return True
        return False


# ---------------------------------------------------------------- can a path be taken at all
def atoms(e, out):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            atoms(v, out)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        atoms(e.operand, out)
    else:
        out.append(base(e)[0])
    return out


FLIP = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}
NEG = {ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}


def base(e):
    """(text of the positive form, sign): a >= b is not a < b, b > a is a < b."""
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, op, b, sign = e.left, type(e.ops[0]), e.comparators[0], True
        if op in NEG:
            op, sign = NEG[op], False
        if op in FLIP:
            a, b, op = b, a, FLIP[op]
        a, b = ast.unparse(a), ast.unparse(b)
        if op in (ast.Eq,):
            a, b = sorted((a, b))
        return f"{a} {op.__name__} {b}", sign
    return ast.unparse(e), True


def value(e, env):
    if isinstance(e, ast.BoolOp):
        vs = [value(v, env) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not value(e.operand, env)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    t, sign = base(e)
    return env[t] if sign else not env[t]


def possible(test, path, R):
    """Can the conditions of the path hold together with the loop's own, as far as nothing they read changed in between?"""
    conds, changed = [(test, True)], set()
    if has_draw(test):
        conds = []
    for it in path.items:
        if it[0] == "cond" and isinstance(it[2], bool) and not has_draw(it[1]):
            if not any(touches(c, p) for c in changed for p in places(it[1])):
                conds.append((it[1], it[2]))
        for c, _, _ in changes(it, R):
            changed.add(c)
    seen = [x for x in conds if not R.draws(x[0])]
    at = sorted({a for c, _ in seen for a in atoms(c, [])})
    if len(at) > 10:
        return True
    for vals in itertools.product((True, False), repeat=len(at)):
        env = dict(zip(at, vals))
        if all(value(c, env) == w for c, w in seen):
            return True
    return False


# ---------------------------------------------------------------- arithmetic moves, over finite models
class NoNumber(Exception):
    pass


def number(e, env):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
        return e.value
    p = place(e)
    if p is not None:
        if p in env:
            return env[p]
        raise NoNumber(p)
    if isinstance(e, ast.BinOp):
        a, b = number(e.left, env), number(e.right, env)
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                    ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(e.op)]()
        except (KeyError, ZeroDivisionError, OverflowError):
            raise NoNumber(ast.unparse(e))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = number(e.operand, env)
        return -v if isinstance(e.op, ast.USub) else v
    if isinstance(e, ast.Call) and not e.keywords:
        n = ast.unparse(e.func).split(".")[-1]
        a = [number(x, env) for x in e.args]
        fn = {"int": int, "float": float, "round": round, "abs": abs, "absolute": abs, "fabs": abs, "min": min, "max": max, "minimum": min, "maximum": max, "floor": math.floor, "ceil": math.ceil,
              "trunc": int, "rint": round, "sqrt": math.sqrt}.get(n)
        if fn is not None and a:
            try:
                return fn(*a)
            except Exception:
                raise NoNumber(n)
    raise NoNumber(ast.unparse(e))


def holds(e, env, unknown=True):
    """Truth of a condition; parts that are not arithmetic are taken as `unknown` (the loop may go on)."""
    if isinstance(e, ast.BoolOp):
        vs = [holds(v, env, unknown) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(v for v in vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not holds(e.operand, env, not unknown)
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Compare):
        try:
            xs = [number(x, env) for x in [e.left] + e.comparators]
        except NoNumber:
            return unknown
        ok = True
        for a, op, b in zip(xs, e.ops, xs[1:]):
            ok = ok and {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}.get(type(op), unknown)
        return ok
    try:
        return bool(number(e, env))
    except NoNumber:
        return unknown


def gap(e, env):
    """How far the comparisons of a condition are from failing (None when not arithmetic)."""
    best = None
    for x in ast.walk(e):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            try:
                a, b = number(x.left, env), number(x.comparators[0], env)
            except NoNumber:
                continue
            best = min(abs(a - b), best) if best is not None else abs(a - b)
    return best


def given(prog, cls, attr):
    """Values of an attribute kept by the constructor from a checked argument: at and above its lower limit."""
    if cls is None:
        return None
    for k in cls.mro:
        if not isinstance(k, Class) or "__init__" not in k.methods:
            continue
        for x in ast.walk(k.methods["__init__"].node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in x.targets) and isinstance(x.value, ast.Call) and len(x.value.args) == 3:
                n, b = ast.unparse(x.value.func).split(".")[-1], x.value.args[2]
                if n in ("check_int", "check_float") and isinstance(b, (ast.List, ast.Tuple)) and len(b.elts) == 2:
                    try:
                        lo, hi = (number(v, {}) for v in b.elts)
                    except NoNumber:
                        return None
                    if isinstance(b, ast.Tuple):
                        return [lo + 1, lo + 2, hi - 1] if n == "check_int" else [lo + (hi - lo) * 0.01, (lo + hi) / 2, hi - (hi - lo) * 0.01]
                    vs = [lo, lo + 1, lo + 2, hi] if n == "check_int" else [lo, (lo + hi) / 2, hi]
                    return sorted({v for v in vs if lo <= v <= hi})
    return None


def moves(ctx, W, path, exits, R, ex):
    """Follow the values of an arithmetic path over a finite model.  None: not arithmetic; '' : moves to the end; text: it can go on for ever."""
    f = R.f
    test = W.test
    asg = []
    for it in path.items:
        if it[0] == "stmt" and isinstance(it[1], (ast.Assign, ast.AugAssign)):
            for p, k, e in changes(it, R):
                if k in ("set", "move"):
                    asg.append((p, e))
    assigned = {p for p, _ in asg}
    # only what the end depends on
    rel, todo = [], {p for p in places(test, False)}
    if not isinstance(test, ast.Constant):
        pass
    for p, e in reversed(asg):
        if p in todo:
            rel.append((p, e))
            todo |= places(e, False)
    rel.reverse()
    if not rel or any(p.count("[") for p in ()):
        return None
    moving = {p for p, _ in rel}
    state, wrote = set(moving & places(test, False)), set()
    for p, e in rel:
        state |= (places(e, False) & moving) - wrote
        wrote.add(p)
    state = sorted(state)
    params = sorted((places(test, False) | {q for _, e in rel for q in places(e, False)}) - moving)
    grid = []
    for p in params:
        base_ = p.split(".")[0]
        if p.count(".") == 1 and base_ == R.me() and (vals := given(ctx.prog, f.cls, p.split(".")[1])) is not None:
            grid.append(vals)
        elif p.count(".") == 0 and "[" not in p and p in {a.arg for a in f.node.args.args}:
            vals = argument(ctx, R, p)
            if vals is None:
                return None
            grid.append(vals)
        else:
            # a value that is not known: only arithmetic with one side of the comparison may involve it
            if p in {q for _, e in rel for q in places(e, False)}:
                return None
            grid.append([-3.0, 0.0, 4.0, 30.0])
    starts = [1, 2, 3, 4, 5, 7, 10, 20, 31]
    exact = any(isinstance(x, (ast.Eq, ast.NotEq)) for x in ast.walk(test))
    if len(state) > 2 or math.prod([len(g) for g in grid] or [1]) > 64:
        return None
    decided = False
    for vals in itertools.product(*grid):
        env0 = dict(zip(params, vals))
        for st in itertools.product(starts, repeat=len(state)):
            env = dict(env0)
            env.update(zip(state, st))
            start = dict(env)
            try:
                g0 = gap(test, env)
                n = 0
                while holds(test, env) and n < 300:
                    before = dict(env)
                    for p, e in rel:
                        env[p] = number(e, env)
                    n += 1
                    if exact and all(env[k] == before[k] for k in state):
                        n = 300
                if n >= 300:
                    g1 = gap(test, env)
                    if exact and any(env[k] != before[k] for k in state):
                        continue
                    if g0 is None or g1 is None or g1 >= g0:
                        shown = ", ".join(f"{k}={start[k]:g}" for k in state + [q for q in params if q in start])
                        return f"from {shown} the loop's own arithmetic never reaches its end"
                decided = True
            except NoNumber:
                return None
    return "" if decided else None


def argument(ctx, R, name):
    """Values of a parameter from the calls of this function in its own class, when they hand over a checked attribute or a constant."""
    f = R.f
    pos = [a.arg for a in f.node.args.args].index(name) - (0 if f.kind == "static" or f.cls is None else 1)
    vals, n = [], 0
    for k in (R.graph.subs.get(f.cls, []) if f.cls is not None else []):
        for g in k.methods.values():
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and g is not f:
                    a = next((kw.value for kw in x.keywords if kw.arg == name), x.args[pos] if 0 <= pos < len(x.args) else None)
                    n += 1
                    if isinstance(a, ast.Constant) and isinstance(a.value, (int, float)):
                        vals.append(a.value)
                    elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and g.node.args.args and a.value.id == g.node.args.args[0].arg:
                        v = given(ctx.prog, k, a.attr)
                        if v is None:
                            return None
                        vals += v
                    else:
                        return None
    return sorted(set(vals))[:4] or None


# ---------------------------------------------------------------- draws that can never end a loop
def support(e, R):
    """Sample points over the range of a single draw with constant limits, or None."""
    if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute):
        return None
    if place(e.func.value) is None or not place(e.func.value).endswith("generator"):
        return None
    try:
        kw = {k.arg: number(k.value, {}) for k in e.keywords if k.arg in ("low", "high")}
        size = [k for k in e.keywords if k.arg == "size"]
        if size:
            return None
        a = [number(x, {}) for x in e.args]
    except NoNumber:
        return None
    if e.func.attr == "random" and not a:
        return [i / 40 for i in range(40)] + [1 - 1e-12]
    if e.func.attr == "uniform" and len(a) <= 2:
        lo, hi = (a + [None, None])[0], (a + [None, None])[1]
        lo, hi = kw.get("low", lo if lo is not None else 0.0), kw.get("high", hi if hi is not None else 1.0)
        return [lo + (hi - lo) * i / 40 for i in range(40)] + [hi - (hi - lo) * 1e-12]
    if e.func.attr in ("integers", "randint") and 1 <= len(a) + len(kw) <= 2:
        lo, hi = (0, a[0]) if len(a) == 1 and "high" not in kw else (a[0] if a else kw.get("low", 0), a[1] if len(a) > 1 else kw.get("high"))
        if hi is None:
            return None
        return list(range(int(lo), int(hi)))[:200]
    return None


# ---------------------------------------------------------------- limits of computed values
def reaches(e, side, R, f, depth=0):
    """Is the value at a place cut to a range that includes 1 (side 1: at its upper end) or 0 (side 0: at its lower end)?  True only when its definition says so."""
    if depth > 6 or e is None:
        return False
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (int, float)) and not isinstance(e.value, bool) and (e.value >= 1 if side else e.value <= 0)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)) and (side == 0 and e.operand.value >= 0)
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func).split(".")[-1]
        if n == "clip":
            a = list(e.args)[-2:] if not isinstance(e.func, ast.Attribute) or ast.unparse(e.func.value) in ("np", "numpy") else list(e.args)
            kw = {k.arg: k.value for k in e.keywords}
            lim = kw.get("a_max", kw.get("max", a[1] if len(a) > 1 else None)) if side else kw.get("a_min", kw.get("min", a[0] if a else None))
            return isinstance(lim, ast.Constant) and reaches(lim, side, R, f, depth)
        if n in ("minimum", "min") and side and len(e.args) == 2 or n in ("maximum", "max") and not side and len(e.args) == 2:
            cut = [a for a in e.args if isinstance(a, ast.Constant)]
            return len(cut) == 1 and reaches(cut[0], side, R, f, depth)
        if n in ("copy", "array", "asarray", "float", "sort", "sorted", "ravel", "reshape", "flatten", "flip", "list", "tuple") and (e.args or isinstance(e.func, ast.Attribute)):
            own = isinstance(e.func, ast.Attribute) and ast.unparse(e.func.value) not in ("np", "numpy", "math")
            return reaches(e.func.value if own or not e.args else e.args[0], side, R, f, depth + 1)
        return False
    if isinstance(e, ast.Subscript):
        return reaches(e.value, side, R, f, depth + 1)
    if isinstance(e, ast.IfExp):
        return reaches(e.body, side, R, f, depth + 1) or reaches(e.orelse, side, R, f, depth + 1)
    if isinstance(e, ast.Name):
        last = None
        for x in walk_own(f.node):
            if isinstance(x, ast.Assign) and (getattr(x, "lineno", 0) < getattr(e, "lineno", 10 ** 9)):
                for t in x.targets:
                    if e.id in names(t) and (last is None or x.lineno >= last[0].lineno):
                        last = (x, t)
        if last is not None:
            x, t = last
            if isinstance(t, ast.Name):
                return reaches(x.value, side, R, f, depth + 1)
            if isinstance(t, (ast.Tuple, ast.List)):
                i = [j for j, y in enumerate(t.elts) if isinstance(y, ast.Name) and y.id == e.id]
                if len(i) != 1:
                    return False
                if isinstance(x.value, (ast.Tuple, ast.List)) and len(x.value.elts) == len(t.elts):
                    return reaches(x.value.elts[i[0]], side, R, f, depth + 1)
                if isinstance(x.value, ast.Call):
                    for g in R.graph.refs(x.value.func, f) or []:
                        for r in walk_own(g.node) if hasattr(g, "node") and isinstance(g.node, ast.FunctionDef) else []:
                            if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts) == len(t.elts) and reaches(r.value.elts[i[0]], side, R, g, depth + 1):
                                return True
            return False
        a = f.node.args
        own = [y.arg for y in a.posonlyargs + a.args]
        if e.id in own and f.cls is not None:
            at = own.index(e.id) - (f.kind != "static")
            for g in R.callers(f):
                for c in walk_own(g.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == f.name:
                        given = next((k.value for k in c.keywords if k.arg == e.id), c.args[at] if 0 <= at < len(c.args) else None)
                        if given is not None and reaches(given, side, R, g, depth + 1):
                            return True
    return False


def unit(e):
    """A draw from [0, 1)."""
    if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute) or not (place(e.func.value) or "").endswith(("generator", "rng", "random")):
        return False
    a = [x.value if isinstance(x, ast.Constant) else None for x in e.args]
    return not e.keywords and (e.func.attr == "random" and not a or e.func.attr == "uniform" and a in ([], [0, 1], [0.0, 1.0]))


def surely(c, R):
    """A comparison of a draw from [0, 1) with a value that may be its limit: it then holds whatever is drawn."""
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        c = c.operand
        flip = True
    else:
        flip = False
    if not isinstance(c, ast.Compare) or len(c.ops) != 1:
        return None
    a, b, op = c.left, c.comparators[0], type(c.ops[0])
    if unit(b):
        a, b, op = b, a, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(op)
    if not unit(a) or op is None:
        return None
    if flip:
        op = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(op)
    if op in (ast.Lt, ast.LtE):
        return ast.unparse(b) if reaches(b, 1, R, R.f) else None
    if op in (ast.Gt, ast.GtE):
        return ast.unparse(b) if reaches(b, 0, R, R.f) else None
    return None


def filtered(e, R):
    """A draw from a selection of what is there, which may hold a single member."""
    if not isinstance(e, ast.Call) or not isinstance(e.func, ast.Attribute) or e.func.attr != "choice" or not e.args:
        return None
    c = e.args[0]
    for _ in range(4):
        if isinstance(c, ast.Name):
            d = [x.value for x in walk_own(R.f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == c.id for t in x.targets)]
            if len(d) != 1:
                return None
            nm = c.id
            for x in walk_own(R.f.node):
                # its size is looked at
                if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)) and any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(x.test)):
                    return None
            c = d[0]
        elif isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Constant):
            c = c.value
        else:
            break
    if isinstance(c, ast.Call):
        n = ast.unparse(c.func).split(".")[-1]
        if n in ("flatnonzero", "nonzero", "argwhere") or n == "where" and len(c.args) == 1:
            return ast.unparse(c)
    if isinstance(c, ast.ListComp) and any(g.ifs for g in c.generators):
        if all(len(g.ifs) == 1 and isinstance(g.ifs[0], ast.Compare) and isinstance(g.ifs[0].ops[0], ast.NotEq) for g in c.generators if g.ifs):
            return None             # all but one
        return ast.unparse(c)
    return None


# ---------------------------------------------------------------- one while loop
def loop(ctx, R, W):
    f = R.f
    where = f"{f.where.split(':')[0]}:{W.lineno}" if ":" in f.where else f.where
    name = f"{f.module.path.split('/')[-1]}:{(f.cls.name + '.') if f.cls else ''}{f.name}"
    text = ast.unparse(W.test)
    ctx.count("while_loops")
    try:
        paths = walk(W.body, [Path()])
    except TooMany:
        ctx.undec(f"{name}: `while {text}` has too many paths")
        return
    paths = [told(p, R) for p in paths]
    back = [p for p in paths if p.end in (None, "back")]
    out = [p for p in paths if p.end in ("break", "leave")]
    always = isinstance(W.test, ast.Constant) and bool(W.test.value)
    ctx.count("ways_back", len(back))
    if not back:
        return
    if always and not out:
        ctx.find("no-end", f"{name}:{text}", where, f"`while {text}` has no way out")
        return
    reads = set() if always else places(W.test)
    for p in out:
        for it in p.items:
            if it[0] == "cond":
                reads |= places(it[1])
    test_draws = not always and R.draws(W.test)
    every = [c for p in back for it in p.items for c in changes(it, R)]
    parts = [] if always else [([c], byvalue(c)) for c in conjuncts(W.test)]
    for p in out:
        cs = [it[1] for it in p.items if it[0] == "cond" and it[3] is not W]
        if cs:
            parts.append((cs, byvalue(cs[-1])))
    changed_somewhere = {p for p, _, _ in every}

    def moving(cs, got):
        """Does one of the changes concern these conditions?"""
        rel = set().union(*(places(c) for c in cs))
        for _ in range(10):
            more = feeds(rel, every, R) - rel
            if not more:
                break
            rel |= more
        return any(touches(p, r) for p, _, _ in got for r in rel) or any(R.draws(c) for c in cs)

    def progress(path):
        """The changes on the path that the end depends on and that do not merely repeat themselves."""
        got = []
        own_changes = [c for it in path.items for c in changes(it, R)]
        slice_ = set(reads)
        for _ in range(10):
            more = feeds(slice_, own_changes, R) - slice_
            if not more:
                break
            slice_ |= more
        for it in path.items:
            for p, k, e in changes(it, R):
                if not any(touches(p, r) for r in slice_):
                    continue
                if k in ("set", "move") and R.draws(e):
                    got.append((p, "draw", e))
                elif k == "unknown" or k == "move":
                    got.append((p, k, e))
                elif e is not None and any(touches(c, q) for q in places(e) for c in changed_somewhere):
                    got.append((p, "move", e))
                elif e is not None and unknown_call(e, R):
                    got.append((p, "unknown", e))
        return got

    def steps(path):
        """Of these, the ones that come from the path itself and not only from values that other paths change."""
        own = {p for it in path.items for p, k, e in changes(it, R)}
        good = []
        for p, k, e in progress(path):
            if k == "move" and not any(touches(c, q) for q in places(e) for c in own):
                continue
            if k == "move" and same(e, p):
                continue
            good.append((p, k, e))
        return good

    seen = set()
    for p in back:
        ctx.count("obligations")
        if not always and not possible(W.test, p, R):
            continue
        got = steps(p)
        key = f"{name}:{text}"
        if not got and not test_draws:
            # repeated only as long as a draw on the way gives the same side: fine when the other side moves on or leaves
            if chance(p, paths, steps, R):
                continue
            ctx.find("spin", key, where, f"`while {text}` can be repeated with nothing changed that its end depends on{show(p)}")
            continue
        kinds = {k for _, k, _ in got}
        sure = [(c, surely(c, R)) for c in ([] if always else conjuncts(W.test))]
        if not out and any(r for _, r in sure) and not any(moving([c], got) for c, r in sure if not r):
            c, r = next(x for x in sure if x[1])
            if not any(touches(q, w) for q, _, _ in got for w in places(c)):
                ctx.find("sure-repeat", key, where, f"`while {text}` ends only by chance, and with no chance when {r} is at its limit, which it may reach")
                continue
        live = [(cs, v) for cs, v in parts if moving(cs, got)]
        if live and all(v for _, v in live) and not chance(p, paths, lambda q: [x for x in steps(q) if any(not v and moving(cs, [x]) for cs, v in parts)], R, leave=False):
            ctx.find("objective-bound", key, where, f"`while {text}` ends only when objective values compare as `{ast.unparse(live[0][0][-1])[:90]}`, which need never happen, without a limit on the attempts{show(p)}")
            continue
        if not test_draws and kinds == {"move"} and not out:
            r = moves(ctx, W, p, out, R, None)
            if r:
                ctx.find("no-progress", key, where, f"`while {text}`: {r}{show(p)}")
            elif r is None:
                ctx.count("moves_open")
            else:
                ctx.count("moves_followed")
        elif not test_draws and kinds == {"move"}:
            r = moves(ctx, W, p, out, R, None)
            if r and not always and not chance(p, paths, steps, R):
                ctx.find("no-progress", key, where, f"`while {text}`: {r}{show(p)}")
        elif kinds == {"draw"} and repick(W.test, got) and not out and all(filtered(e, R) for _, _, e in got):
            ctx.find("only-one", key, where, f"`while {text}` repeats the draw from `{filtered(got[0][2], R)[:80]}` until it gives another member, which never happens when that holds one member only")
        elif kinds == {"draw"}:
            es = [e for _, _, e in got]
            if repick(W.test, got) and all(R.weighted(e) for e in es):
                ctx.find("weighted-redraw", key, where, f"`while {text}` repeats a draw with data-dependent probabilities until it gives another member; it never does when all the weight is on one")
            elif not out and len(got) == 1 and (pts := support(es[0], R)) is not None:
                try:
                    vals = [strictly(W.test, {got[0][0]: v}) for v in pts]
                except NoNumber:
                    continue
                ctx.count("supports")
                if vals and all(vals):
                    ctx.find("no-way-out", key, where, f"`while {text}`: no value that `{ast.unparse(es[0])}` can give ends the loop")


def feeds(rel, every, R):
    """Places from which the values at these places are computed in the loop (a draw is computed from nothing)."""
    return {q for p, k, e in every if e is not None and not R.draws(e) and any(touches(p, r) for r in rel) for q in places(e)}


def conjuncts(e):
    return [c for v in e.values for c in conjuncts(v)] if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) else [e]


def byvalue(e):
    """A condition that compares objective values, and nothing else."""
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
    if isinstance(e, ast.BoolOp):
        return all(byvalue(v) for v in e.values)
    return any(isinstance(x, ast.Attribute) and (x.attr in ("fitness", "target") or x.attr.startswith("compare_") or x.attr == "is_better_than") for x in ast.walk(e))


def strictly(e, env):
    """Truth of an arithmetic condition; NoNumber when a part is not known."""
    if isinstance(e, ast.BoolOp):
        vs = [strictly(v, env) for v in e.values]
        return all(vs) if isinstance(e.op, ast.And) else any(vs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not strictly(e.operand, env)
    if isinstance(e, ast.Compare):
        for x in [e.left] + e.comparators:
            number(x, env)
        return holds(e, env)
    raise NoNumber(ast.unparse(e))


def same(e, p):
    """x = x, x += 0, x *= 1."""
    if place(e) == p:
        return True
    if isinstance(e, ast.BinOp) and place(e.left) == p and isinstance(e.right, ast.Constant):
        return isinstance(e.op, (ast.Add, ast.Sub)) and e.right.value == 0 or isinstance(e.op, (ast.Mult, ast.Div, ast.FloorDiv, ast.Pow)) and e.right.value == 1
    return False


def unknown_call(e, R):
    """A call whose result may differ although its arguments are the same."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and not R.known_pure(x.func):
            gs = R.graph.refs(x.func, R.f)
            if not gs and not (isinstance(x.func, ast.Attribute) and x.func.attr in ("copy", "astype", "reshape", "ravel", "flatten", "tolist", "sum", "mean", "min", "max", "any", "all", "get_name", "keys", "values", "items", "index", "count", "format", "join", "split")):
                return True
    return False


def chance(p, paths, steps, R, leave=True):
    """Is the path taken only as long as draws fall one way, while the other way moves on or leaves?"""
    drawn = set()
    for i, it in enumerate(p.items):
        if it[0] == "cond":
            random = not byvalue(it[1]) and R.draws(it[1]) or not byvalue(it[1]) and any(touches(c, q) for c in drawn for q in places(it[1]))
            if random:
                for q in paths:
                    if len(q.items) > i and all(a is b or a == b for a, b in zip(q.items[:i], p.items[:i])) and q.items[i][0] == "cond" and q.items[i][3] is it[3] and q.items[i][2] != it[2]:
                        if leave and q.end in ("break", "leave") or steps(q):
                            return True
        for c, k, e in changes(it, R):
            if e is not None and (R.draws(e) or any(touches(d, q) for d in drawn for q in places(e))) or k == "unknown":
                drawn.add(c)
    return False


def repick(test, got):
    """The loop ends when the draw gives something else: equality with, or membership in, what is there already."""
    if not isinstance(test, ast.Compare) or len(test.ops) != 1 or not isinstance(test.ops[0], (ast.Eq, ast.In)):
        return False
    return any(touches(p, q) for p, _, _ in got for q in places(test))


def show(p):
    cs = [("" if it[2] is True else "not " if it[2] is False else "") + f"`{ast.unparse(it[1])[:60]}`" for it in p.items if it[0] == "cond"]
    return (" (when " + " and ".join(cs[:3]) + ")") if cs else ""


# ---------------------------------------------------------------- for loops and recursion
def fors(ctx, R):
    f = R.f
    name = f"{f.module.path.split('/')[-1]}:{(f.cls.name + '.') if f.cls else ''}{f.name}"
    for s in walk_own(f.node):
        if not isinstance(s, ast.For):
            continue
        ctx.count("for_loops")
        it = s.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter", "zip") and it.args:
            it = it.args[0]
        p = place(it)
        alias = {p} if p else set()
        if p:
            for x in walk_own(f.node):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and place(x.targets[0]) and place(x.value) and x.lineno < s.lineno:
                    if place(x.value) == p:
                        alias.add(place(x.targets[0]))
                    if place(x.targets[0]) == p:
                        alias.add(place(x.value))
        ends = leaves_loop(s.body)
        for x in [y for b in s.body for y in walk_own(b)]:
            grows = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "appendleft") and place(x.func.value) in alias:
                grows = x
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and place(x.target) in alias and isinstance(x.value, (ast.List, ast.ListComp, ast.Tuple)):
                grows = x
            if grows is not None and p and not ends and not shrinks(s.body, alias):
                ctx.find("grows", f"{name}:{p}", f"{f.where.split(':')[0]}:{s.lineno}", f"`for … in {ast.unparse(s.iter)}` adds to the list it goes over (`{ast.unparse(grows)[:80]}`), so it never reaches its end")
        if isinstance(it, ast.Call) and ast.unparse(it.func).split(".")[-1] in ("count", "cycle") and ast.unparse(it.func).split(".")[0] in ("itertools", "count", "cycle") and len(s.iter.args if isinstance(s.iter, ast.Call) else []) <= 2:
            if not ends and not (isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "zip" and len(s.iter.args) > 1):
                ctx.find("endless", f"{name}:{ast.unparse(s.iter)}", f"{f.where.split(':')[0]}:{s.lineno}", f"`for … in {ast.unparse(s.iter)}` has no end and no way out")


def leaves_loop(body, inner=False):
    for x in body:
        if isinstance(x, (ast.Return, ast.Raise)) or isinstance(x, ast.Break) and not inner:
            return True
        for part in ("body", "orelse", "finalbody"):
            if leaves_loop(getattr(x, part, None) or [] if isinstance(getattr(x, part, None), list) else [], inner or isinstance(x, (ast.For, ast.While)) and part == "body"):
                return True
        if any(leaves_loop(h.body, inner) for h in getattr(x, "handlers", [])):
            return True
    return False


def shrinks(body, alias):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "remove", "clear", "popleft") and place(x.func.value) in alias for b in body for x in walk_own(b))


def recursion(ctx, R):
    """A function that calls itself on every path."""
    f = R.f
    name = f"{f.module.path.split('/')[-1]}:{(f.cls.name + '.') if f.cls else ''}{f.name}"

    def selfcall(x):
        if not isinstance(x, ast.Call):
            return False
        if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and f.cls is not None and x.func.value.id in (R.me(), f.cls.name) and x.func.attr == f.name:
            return R.graph.prog is not None
        return isinstance(x.func, ast.Name) and f.cls is None and x.func.id == f.name
    if not any(selfcall(x) for x in walk_own(f.node)):
        return
    ctx.count("recursive_functions")
    try:
        paths = walk(f.node.body, [Path()])
    except TooMany:
        return

    def calls(p):
        return any(selfcall(x) for it in p.items for n in ([it[1]] if it[0] == "stmt" else [it[1]] if it[0] == "cond" else [it[2]]) for x in ast.walk(n))
    if paths and all(calls(p) for p in paths):
        ctx.find("endless-recursion", name, f.where, f"{f.name} calls itself on every path")
        return
    params = [a.arg for a in f.node.args.args if a.arg != R.me()]
    for p in paths:
        for it in p.items:
            n = it[1] if it[0] in ("stmt", "cond") else it[2]
            for x in ast.walk(n):
                if selfcall(x) and not x.keywords and len(x.args) == len(params) and all(place(a) == b for a, b in zip(x.args, params)):
                    pre = [c for j in p.items[:p.items.index(it) + 1] for c in changes(j, R)]
                    if not pre and not any(R.draws(j[1]) for j in p.items if j[0] == "cond"):
                        ctx.find("endless-recursion", name, f.where, f"{f.name} calls itself with the arguments it was given and nothing changed")


def run(ctx):
    ctx.explanation = ("Every while loop of the package: the ways from its head back to its head are enumerated; on each, something the end of the loop depends on must be drawn anew, used up or moved, "
                       "unless the way depends on a draw whose other outcome moves on or leaves. Arithmetic moves are followed over finite models of start values and accepted parameters; draws with constant limits are "
                       "compared with the values that end the loop; redraws with data-dependent probabilities until another member is found are reported. For loops must not add to what they go over, and recursion must have an end.")
    g = Graph(ctx.prog)
    method_reads(g)
    for f in list(ctx.prog.all_funcs()):
        ctx.part(f"{f.module.name}:{f.name}", one, g, f)
    ctx.need("for_loops", 100)


def one(ctx, g, f):
    R = Funcs(ctx, g, f)
    ctx.count("functions")
    for s in walk_own(f.node):
        if isinstance(s, ast.While):
            loop(ctx, R, s)
    fors(ctx, R)
    recursion(ctx, R)
