"""C22: every position an algorithm reads exists for the smallest accepted population."""
import ast

from ..defs import COMPS, comp_names
from ..program import Class

POP, DIM, NUM = "pop", "dim", "num"
CHOICES = ("choice",)


def lin(s, c=0):
    return (s, c)


class Sizes:
    """Symbolic sizes and index bounds of the expressions of one function: pairs (pop | dim | num, constant)."""

    def __init__(self, cls, func, steady, attrs=None):
        self.cls, self.f, self.steady = cls, func, steady
        self.attrs = {} if attrs is None else attrs
        self.assigned = {}
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.assigned.setdefault(x.id, []).append((n, t))
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name):
                self.assigned.setdefault(n.target.id, []).append((n, None))
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.assigned.setdefault(x.id, []).append((n, "for"))
            elif isinstance(n, (ast.NamedExpr,)):
                self.assigned.setdefault(n.target.id, []).append((n, None))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "clear", "resize"):
                self.assigned.setdefault(n.func.value.id, []).append((n, "size"))
            elif isinstance(n, (ast.With,)):
                for i in n.items:
                    if isinstance(i.optional_vars, ast.Name):
                        self.assigned.setdefault(i.optional_vars.id, []).append((n, None))

    # ---- names
    def define(self, name, at):
        """('for', node) | ('value', expr) | None: the only definition of a name that can reach this use."""
        p, child = getattr(at, "_parent", None), at
        while p is not None and p is not self.f.node:
            if isinstance(p, COMPS) and name in comp_names(p):
                for g in p.generators:
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.target)):
                        return ("for", g)
            if isinstance(p, ast.For) and child is not p.iter and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(p.target)):
                if any(n is not p and self.within(n, p) for n, how in self.assigned.get(name, ()) if how != "size"):
                    return None
                return ("for", p)
            if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                return None
            # an assignment earlier in the same block
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and child in b:
                    r = self.before(name, b[:b.index(child)])
                    if r is not False:
                        return r
                    if isinstance(p, (ast.For, ast.While)) and any(self.within(n, p) for n, how in self.assigned.get(name, ()) if how != "size"):
                        return None
            child, p = p, getattr(p, "_parent", None)
        if p is self.f.node and child in p.body:
            r = self.before(name, p.body[:p.body.index(child)])
            return None if r is False else r
        return None

    def before(self, name, stmts):
        """Last definition among the statements: False when there is none, None when it is not a single plain one."""
        for st in reversed(stmts):
            hit = [(n, t) for n, t in self.assigned.get(name, ()) if self.within(n, st)]
            if not hit:
                continue
            if len(hit) == 1 and hit[0][0] is st and isinstance(st, ast.Assign):
                t = hit[0][1]
                if isinstance(t, ast.Name):
                    return ("value", st.value)
                if isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
                    i = [x.id for x in t.elts].index(name)
                    if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts):
                        return ("value", st.value.elts[i])
                    return ("member", st.value)
            return None
        return False

    @staticmethod
    def within(n, p):
        while n is not None:
            if n is p:
                return True
            n = getattr(n, "_parent", None)
        return False

    # ---- numbers
    def number(self, e, depth=0):
        """Exact symbolic value of an integer expression."""
        if depth > 12:
            return None
        if isinstance(e, ast.Constant):
            return lin(NUM, e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            r = self.number(e.operand, depth + 1)
            return lin(NUM, -r[1]) if r and r[0] == NUM else None
        if isinstance(e, ast.Attribute):
            t = ast.unparse(e)
            if t == "self.pop_size" and self.steady:
                return lin(POP)
            if t == "self.problem.n_dims":
                return lin(DIM)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            return self.length(e.args[0], depth + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and len(e.args) == 1:
            return self.number(e.args[0], depth + 1)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.number(e.left, depth + 1), self.number(e.right, depth + 1)
            if a and b and b[0] == NUM:
                return (a[0], a[1] + b[1] if isinstance(e.op, ast.Add) else a[1] - b[1])
            if a and b and a[0] == NUM and isinstance(e.op, ast.Add):
                return (b[0], a[1] + b[1])
            return None
        if isinstance(e, ast.Name):
            d = self.define(e.id, e)
            if d and d[0] == "value":
                return self.number(d[1], depth + 1)
        return None

    def length(self, e, depth=0):
        """Symbolic length of a sequence."""
        if depth > 12:
            return None
        if isinstance(e, ast.Attribute):
            t = ast.unparse(e)
            if t == "self.pop":
                return lin(POP) if self.steady else None
            if t in ("self.problem.lb", "self.problem.ub"):
                return lin(DIM)
            if e.attr == "solution":
                return lin(DIM)
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                return self.kept(e.attr)
            return None
        if isinstance(e, (ast.List, ast.Tuple)):
            return None if any(isinstance(x, ast.Starred) for x in e.elts) else lin(NUM, len(e.elts))
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            return self.length(e.generators[0].iter, depth + 1)
        if isinstance(e, ast.Name):
            d = self.define(e.id, e)
            if d and d[0] == "value" and isinstance(d[1], ast.List) and not d[1].elts:
                return self.collected(e, depth)
            if d and d[0] == "value" and not any(how == "size" for n, how in self.assigned.get(e.id, ())):
                return self.length(d[1], depth + 1)
            if d is None and depth < 8 and any(how == "size" for n, how in self.assigned.get(e.id, ())):
                return self.collected(e, depth)
            if d is None and depth < 8:
                # several definitions: a length they all share
                ds = self.assigned.get(e.id, ())
                if ds and all(isinstance(n, ast.Assign) and isinstance(t, ast.Name) for n, t in ds):
                    ls = {self.length(n.value, depth + 1) for n, t in ds}
                    if len(ls) == 1:
                        return ls.pop()
            return None
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name == "range":
                a = [self.number(x, depth + 1) for x in e.args]
                if len(a) == 1:
                    return a[0]
                if len(a) == 2 and a[0] and a[1]:
                    if a[0][0] == NUM:
                        return (a[1][0], a[1][1] - a[0][1])
                return None
            if name in ("list", "set", "tuple", "array", "asarray", "sorted", "reversed", "copy", "deepcopy", "correct_solution", "abs", "sort", "argsort", "cumsum", "update_target_for_population", "greedy_selection_population", "clip") and (
                    len(e.args) >= 1 or isinstance(f, ast.Attribute)):
                if isinstance(f, ast.Attribute) and not e.args:
                    return self.length(f.value, depth + 1)
                return self.length(e.args[0], depth + 1) if e.args else None
            if name in ("zeros", "ones", "empty", "zeros_like", "ones_like", "arange", "permutation") and len(e.args) >= 1:
                return self.number(e.args[0], depth + 1) or (self.length(e.args[0], depth + 1) if name.endswith("like") or name == "permutation" else None) if name != "arange" or len(e.args) == 1 else None
            if name == "random" and isinstance(f, ast.Attribute) and len(e.args) + len(e.keywords) == 1:
                return self.number((e.args or [e.keywords[0].value])[0], depth + 1)
            if name in ("uniform", "normal", "integers") and isinstance(f, ast.Attribute):
                s = e.args[2] if len(e.args) > 2 else next((k.value for k in e.keywords if k.arg == "size"), None)
                return self.number(s, depth + 1) if s is not None else None
            if name == "choice":
                s = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "size"), None)
                return self.number(s, depth + 1) if s is not None else None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.right, ast.Set):
            r = self.length(e.left, depth + 1)
            return (r[0], r[1] - len(e.right.elts)) if r else None
        return None

    def collected(self, e, depth):
        """Length of a list filled by one append per round of one loop, used after that loop."""
        ds = self.assigned.get(e.id, ())
        grow = [n for n, how in ds if how == "size"]
        keeps = [n for n, how in ds if isinstance(n, ast.Assign) and isinstance(how, ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute)
                 and n.value.func.attr in ("update_target_for_population", "greedy_selection_population") and any(isinstance(a, ast.Name) and a.id == e.id for a in n.value.args)]
        if len(grow) != 1 or len(ds) - len(keeps) != 2 or grow[0].func.attr != "append":
            return None
        st = grow[0]._parent
        loop = st._parent
        if not isinstance(st, ast.Expr) or not isinstance(loop, ast.For) or st not in loop.body or self.within(e, loop):
            return None
        for x in ast.walk(loop):
            if isinstance(x, (ast.Break, ast.Continue)):
                return None
        start = next((n for n, how in ds if how != "size" and n not in keeps), None)
        if start is None:
            return None
        if getattr(start, "_parent", None) is not getattr(loop, "_parent", 0):
            return None
        return self.length(loop.iter, depth + 1)

    def kept(self, attr):
        """Length of a sequence kept on the object: the one all its assignments share."""
        memo = self.attrs.setdefault(self.cls, {})
        if attr in memo:
            return memo[attr]
        memo[attr] = None
        ls = set()
        for k in self.cls.mro:
            if not isinstance(k, Class):
                continue
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self":
                        p = n._parent
                        if isinstance(n.ctx, ast.Store):
                            if isinstance(p, ast.Assign) and n in p.targets:
                                if isinstance(p.value, ast.Constant) and p.value.value is None:
                                    continue
                                ls.add(Sizes(self.cls, f, self.steady, self.attrs).length(p.value))
                            else:
                                ls.add(None)
                        elif isinstance(p, ast.Attribute) and p.attr in ("append", "extend", "insert", "pop", "remove", "clear"):
                            ls.add(None)
                        elif isinstance(p, ast.Delete) or isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Del):
                            ls.add(None)
        memo[attr] = ls.pop() if len(ls) == 1 else None
        return memo[attr]

    # ---- index bounds: greatest attainable value, exclusive
    def below(self, e, depth=0):
        """(symbol, c): e takes values up to, and including, symbol + c - 1."""
        if depth > 12:
            return None
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return lin(NUM, e.value + 1)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int):
            return lin(NUM, 1 - e.operand.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
            r = self.below(e.left, depth + 1)
            return (r[0], r[1] + (e.right.value if isinstance(e.op, ast.Add) else -e.right.value)) if r else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            return self.number(e.right, depth + 1)
        if isinstance(e, ast.Name):
            d = self.define(e.id, e)
            if d is None:
                return None
            if d[0] == "value":
                return self.below(d[1], depth + 1)
            if d[0] == "member":
                return self.members(d[1], depth + 1)
            if d[0] == "for":
                t = d[1].target
                if isinstance(t, ast.Name):
                    return self.members(d[1].iter, depth + 1)
                it = d[1].iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and not it.keywords and \
                        isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) and t.elts[0].id == e.id:
                    return self.length(it.args[0], depth + 1)
            return None
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, (ast.Slice, ast.Tuple)):
            return self.members(e.value, depth + 1)
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name == "integers" and isinstance(f, ast.Attribute) and "generator" in ast.unparse(f.value):
                a = e.args
                end = any(k.arg == "endpoint" for k in e.keywords)
                if end:
                    return None
                hi = a[1] if len(a) > 1 else next((k.value for k in e.keywords if k.arg == "high"), a[0] if a else None)
                if len(a) > 2 or any(k.arg == "size" for k in e.keywords) or hi is None:
                    return None
                return self.number(hi, depth + 1)
            if name == "choice" and isinstance(f, ast.Attribute) and "generator" in ast.unparse(f.value):
                if len(e.args) == 1 and not any(k.arg == "size" for k in e.keywords):
                    return self.number(e.args[0], depth + 1) or self.members(e.args[0], depth + 1)
            if name == "int" and len(e.args) == 1:
                return self.below(e.args[0], depth + 1)
        return None

    def members(self, e, depth=0):
        """Bound of the numbers in a sequence of indices."""
        if depth > 12:
            return None
        if isinstance(e, ast.Name):
            d = self.define(e.id, e)
            if d and d[0] == "value":
                return self.members(d[1], depth + 1)
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.right, (ast.Set, ast.Call)):
            return self.members(e.left, depth + 1)
        if isinstance(e, ast.Call):
            f = e.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name == "range":
                if len(e.args) == 3:
                    return None
                hi = e.args[1] if len(e.args) == 2 else e.args[0]
                return self.number(hi, depth + 1)
            if name == "arange":
                return self.number(e.args[-1], depth + 1) if len(e.args) in (1, 2) else None
            if name in ("list", "set", "sorted", "array", "tuple", "reversed") and len(e.args) >= 1:
                return self.members(e.args[0], depth + 1)
            if name == "permutation" and len(e.args) == 1:
                return self.number(e.args[0], depth + 1) or self.members(e.args[0], depth + 1)
            if name == "choice" and e.args and isinstance(f, ast.Attribute):
                return self.number(e.args[0], depth + 1) or self.members(e.args[0], depth + 1)
            if name == "integers" and (len(e.args) > 2 or any(k.arg == "size" for k in e.keywords)) and not any(k.arg in ("endpoint", "high", "low") for k in e.keywords):
                return self.number(e.args[1] if len(e.args) > 1 else e.args[0], depth + 1)
            if name == "argsort" and len(e.args) == 1:
                return self.length(e.args[0], depth + 1)
        return None


def least(prog, c):
    """Smallest population size the constructors of a class accept."""
    best = None
    for k in c.mro:
        if isinstance(k, Class) and "__init__" in k.methods:
            for n in ast.walk(k.methods["__init__"].node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "check_int" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == "pop_size":
                    b = n.args[2] if len(n.args) > 2 else next((x.value for x in n.keywords if x.arg == "bound"), None)
                    if isinstance(b, (ast.List, ast.Tuple)) and isinstance(b.elts[0], ast.Constant) and isinstance(b.elts[0].value, (int, float)):
                        lo = int(b.elts[0].value) + (1 if isinstance(b, ast.Tuple) else 0)
                        best = lo if best is None else max(best, lo)
    return best


def tested(f, sub, names):
    """Some condition of the function speaks about one of the names: the position may be guarded."""
    for n in ast.walk(f.node):
        t = n.test if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else None
        ts = [t] if t is not None else list(n.ifs) if isinstance(n, ast.comprehension) else n.values if isinstance(n, ast.BoolOp) else []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, ast.Compare):
                    for side in [x.left] + x.comparators:
                        if isinstance(side, ast.Name) and side.id in names or isinstance(side, ast.BinOp) and any(isinstance(y, ast.Name) and y.id in names for y in (side.left, side.right)):
                            return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            return True
    return False


def show(r):
    s, c = r
    if s == NUM:
        return str(c)
    n = {"pop": "pop_size", "dim": "n_dims"}[s]
    return n + (f" + {c}" if c > 0 else f" - {-c}" if c < 0 else "")


def run(ctx):
    ctx.explanation = ("For every function of every optimizer: symbolic bounds (population size, number of dimensions, constants) of every index into the population, "
                       "a solution vector or the bounds and of every sequence indexed by such a bound, and the number of members available to and requested by every draw "
                       "of distinct members, against the smallest population size the constructors accept.")
    prog = ctx.prog
    opt = prog.Optimizer
    users = {}
    for c in prog.optimizers():
        for k in c.mro:
            if isinstance(k, Class) and k is not opt:
                for f in k.methods.values():
                    if c.lookup(f.name) is f or k is c:
                        users.setdefault(f, []).append(c)

    def one(ctx, f, cs):
        lows = {c: least(prog, c) for c in cs}
        steady = all(constant(c) for c in cs)
        low = min([v for v in lows.values() if v is not None], default=None)
        z = Sizes(cs[0], f, steady)
        key = f"{f.module.rel.split('/')[-1]}:{f.cls.name}.{f.name}"
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("choice", "sample"):
                draw(ctx, z, f, key, n, low)
            if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
                size, i = z.length(n.value), z.below(n.slice)
                if size is None or i is None:
                    if z.length(n.value):
                        ctx.count("positions_open")
                    continue
                ctx.count("positions")
                names = {x.id for x in ast.walk(n.slice) if isinstance(x, ast.Name)}
                if size[0] == i[0]:
                    if i[1] > size[1] and not tested(f, n, names):
                        ctx.find("position", key, f.where, f"line {n.lineno}: {ast.unparse(n)[:70]} reads position {show((i[0], i[1] - 1))} of {show(size)}")
                elif {size[0], i[0]} == {POP, DIM} and not tested(f, n, names):
                    ctx.find("position", key, f.where, f"line {n.lineno}: {ast.unparse(n)[:70]} indexes {'a vector of dimensions' if size[0] == DIM else 'the population'} with a position below {show(i)}")
                elif size[0] == POP and i[0] == NUM and low is not None and i[1] - 1 >= low + size[1] and not tested(f, n, names):
                    ctx.find("position", key, f.where, f"line {n.lineno}: {ast.unparse(n)[:70]} reads position {i[1] - 1} but populations of {low} are accepted")
                elif size[0] == POP and i[0] == NUM and low is not None and i[1] - 1 < -(low + size[1]):
                    ctx.find("position", key, f.where, f"line {n.lineno}: {ast.unparse(n)[:70]} reads position {i[1] - 1} but populations of {low} are accepted")
                elif size[0] == NUM and i[0] in (POP, DIM):
                    if not tested(f, n, names) and i[0] == POP and low is not None and low + i[1] > size[1]:
                        ctx.find("position", key, f.where, f"line {n.lineno}: {ast.unparse(n)[:70]} indexes {size[1]} values with a position below {show(i)}")
    for f, cs in users.items():
        ctx.count("functions")
        ctx.part(f.where, one, f, cs)
    ctx.need("functions", 600)
    ctx.need("positions", 300)
    ctx.need("draws", 60)


def constant(c):
    """The population keeps the size the constructor accepted: pop_size is set only there."""
    for k in c.mro:
        if isinstance(k, Class) and k.name != "Optimizer":
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == "pop_size" and isinstance(n.ctx, ast.Store):
                        p = n._parent
                        if f.name != "__init__" or not (isinstance(p, ast.Assign) and (isinstance(p.value, ast.Call) and isinstance(p.value.func, ast.Attribute) and p.value.func.attr == "check_int"
                                                                                      or isinstance(p.value, ast.Constant))):
                            return False
    return True


def draw(ctx, z, f, key, n, low):
    kw = {k.arg: k.value for k in n.keywords}
    a = n.args
    if n.func.attr == "choice":
        rep = kw.get("replace", a[2] if len(a) > 2 else None)
        size = kw.get("size", a[1] if len(a) > 1 else None)
        src = a[0] if a else kw.get("a")
        single = size is None
        distinct = isinstance(rep, ast.Constant) and rep.value is False
    else:
        src, size = (a + [None, None])[:2]
        size = size or kw.get("k")
        single, distinct = False, True
    if src is None:
        return
    have = z.number(src) or z.length(src)
    want = (NUM, 1) if single else z.number(size) if size is not None else None
    par = getattr(n, "_parent", None)
    if isinstance(par, ast.Assign) and par.value is n and isinstance(par.targets[0], (ast.Tuple, ast.List)) and want and want[0] == NUM and not single:
        t = par.targets[0].elts
        ctx.count("unpackings")
        if not any(isinstance(x, ast.Starred) for x in t) and len(t) != want[1]:
            ctx.find("draw", key, f.where, f"line {n.lineno}: {want[1]} drawn members are unpacked into {len(t)} names")
    if not (distinct or single):
        return
    ctx.count("draws")
    if have is None or want is None:
        ctx.count("draws_open")
        return
    bad = None
    if have[0] == want[0]:
        bad = want[1] > have[1]
    elif have[0] == POP and want[0] == NUM and low is not None:
        bad = want[1] > low + have[1]
    elif have[0] == NUM and want[0] == POP and low is not None:
        bad = low + want[1] > have[1]
    if bad:
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {"self"}
        g = guard(n)
        if g:
            ctx.count("draws_open")
            return
        ctx.find("draw", (f"{key}:{show(want)}/{show(have)}" + (f"@{low}" if have[0] != want[0] else "")).replace(" ", ""), f.where, f"line {n.lineno}: {ast.unparse(n)[:90]} draws {show(want)} from {show(have)}" + (f" with populations of {low} accepted" if have[0] != want[0] else ""))


def guard(n):
    """An enclosing condition compares the population size."""
    p, child = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, (ast.If, ast.IfExp)) and child is not p.test and ("pop_size" in ast.unparse(p.test) or "len(" in ast.unparse(p.test)):
            return True
        child, p = p, getattr(p, "_parent", None)
    return False
