"""An exception of the objective reaches the caller: nothing between the objective and the caller catches it, drops it, or replaces its value."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, cname
from ..callgraph import Graph, pools, threads
from .. import terms as T
from . import c23
from .c24 import origin
from .prims import flat, args_of, calls_to, returns, ME

CHANGING = ("nan_to_num", "where", "clip", "maximum", "minimum", "fmax", "fmin", "nanmax", "nanmin", "nansum", "nanmean", "abs", "round", "mean", "sum", "max", "min")


def objective(node):
    """Does the code below node touch the objective itself?"""
    return any(isinstance(x, ast.Attribute) and x.attr == "obj_func" and isinstance(x.ctx, ast.Load)
               or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "obj_func" for x in ast.walk(node))


def always_raises(body):
    """Every path through the statements ends in a raise."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and always_raises(s.body) and always_raises(s.orelse):
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)) and always_raises(s.body):
            return True
        if isinstance(s, ast.Try):
            if s.finalbody and always_raises(s.finalbody):
                return True
            if always_raises(s.body) and all(always_raises(h.body) for h in s.handlers):
                return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in walk_own(s)) and not isinstance(s, (ast.For, ast.While)):
            return False
        if isinstance(s, (ast.For, ast.While)) and any(isinstance(x, ast.Return) for x in walk_own(s)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit"):
            return True
    return False


def walk_own(node):
    """The node's own code: functions defined inside belong to their callers."""
    stack = [node]
    while stack:
        x = stack.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


def leaves(body):
    """A jump out of a finally block, which discards what is being raised."""
    def go(n, loop):
        if isinstance(n, ast.Return):
            return n
        if isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return None
        for c in ast.iter_child_nodes(n):
            r = go(c, loop or isinstance(n, (ast.For, ast.While)) and c in n.body)
            if r:
                return r
        return None
    for s in body:
        r = go(s, False)
        if r:
            return r
    return None


class Where:
    """Does a piece of code run the objective?"""

    def __init__(self, ctx):
        self.g = Graph(ctx.prog)
        self.prog = ctx.prog
        self.hot = set()
        funcs = list(ctx.prog.all_funcs())
        self.hot = {f for f in funcs if objective(f.node) and not only_setup(f)}
        grew = True
        while grew:
            grew = False
            for f in funcs:
                if f not in self.hot and any(h in self.hot for h in self.g.edges(f)):
                    self.hot.add(f)
                    grew = True

    def runs(self, nodes, f, tainted=()):
        for n in nodes:
            if objective(n) and not only_setup(f):
                return "obj_func"
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in tainted and isinstance(x.ctx, ast.Load):
                    return f"the results of workers in '{x.id}'"
            for h in self.g.refs(n, f):
                if h in self.hot:
                    return h.qual.split(".", 1)[-1]
        return None


def only_setup(f):
    """The problem's constructor looks at the objective without running it."""
    return not any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)) and (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id) == "obj_func"
                   or isinstance(x, ast.Call) and any(isinstance(a, ast.Attribute) and a.attr == "obj_func" for a in x.args) and ast.unparse(x.func) not in ("callable", "hasattr", "getattr", "isinstance")
                   for x in ast.walk(f.node)) and not any(isinstance(a, ast.Assign) and isinstance(a.value, ast.Attribute) and a.value.attr == "obj_func"
                                                          and isinstance(a.targets[0], ast.Name) for a in ast.walk(f.node))


def derived(f, first):
    """Names computed from the given ones inside the function."""
    names = set(first)
    grew = True
    while grew:
        grew = False
        for x in ast.walk(f.node):
            src, tgt = None, ()
            if isinstance(x, ast.Assign):
                src, tgt = x.value, x.targets
            elif isinstance(x, (ast.For, ast.comprehension)):
                src, tgt = x.iter, [x.target]
            elif isinstance(x, ast.withitem) and x.optional_vars is not None:
                src, tgt = x.context_expr, [x.optional_vars]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend", "add", "insert"):
                src, tgt = x, [x.func.value]
                if not any(isinstance(y, ast.Name) and y.id in names for a in x.args for y in ast.walk(a)):
                    continue
            if src is None or not any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(src)):
                continue
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and y.id not in names:
                        names.add(y.id)
                        grew = True
    return names


def parents(node):
    up = {}
    for x in ast.walk(node):
        for c in ast.iter_child_nodes(x):
            up[c] = x
    return up


def holders(f, call, up):
    """The names the value of a call ends up in, and the statement that receives it."""
    x = call
    while x in up and not isinstance(up[x], ast.stmt):
        if isinstance(up[x], ast.comprehension):
            break
        x = up[x]
    s = up.get(x)
    if isinstance(s, ast.Assign):
        return {y.id for t in s.targets for y in ast.walk(t) if isinstance(y, ast.Name)}, s
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "extend", "add") \
            and isinstance(s.value.func.value, ast.Name) and s.value is not call:
        return {s.value.func.value.id}, s
    return set(), s


# ---------------------------------------------------------------- nothing is caught
def caught(ctx, F):
    w = Where(ctx)
    for need in ("mealpy.optimizer.Optimizer.solve", "mealpy.optimizer.Optimizer.get_target", "mealpy.utils.problem.Problem.get_target"):
        if ctx.prog.resolve_qual(need) not in w.hot:
            ctx.undec(f"{need} is not seen to run the objective")
    ctx.count("functions_that_run_the_objective", len(w.hot))
    for f in ctx.prog.all_funcs():
        ctx.count("functions")
        calls = pools(ctx.prog, f)
        up = parents(f.node) if calls else {}
        tainted = set()
        for c in calls:
            if w.runs([c], f):
                tainted |= holders(f, c, up)[0]
        tainted = derived(f, tainted) if tainted else tainted
        for x in ast.walk(f.node):
            if isinstance(x, ast.Try) or type(x).__name__ == "TryStar":
                ctx.count("try_statements")
                if x.handlers:
                    what = w.runs(x.body, f, tainted)
                    for h in x.handlers if what else ():
                        if not always_raises(h.body):
                            kind = ast.unparse(h.type) if h.type is not None else "any exception"
                            ctx.find("swallowed", cname(f), f.where, f"{kind} raised while running {what} is caught and not raised again")
                if x.finalbody and leaves(x.finalbody):
                    what = w.runs(x.body + [h for h in x.handlers] + x.orelse, f, tainted)
                    if what:
                        ctx.find("swallowed", cname(f), f.where, f"the finally block leaves by {type(leaves(x.finalbody)).__name__.lower()}, which discards what {what} raises")
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    if quiet(ctx, f, i.context_expr) and w.runs(x.body, f, tainted):
                        ctx.find("swallowed", cname(f), f.where, f"{ast.unparse(i.context_expr)[:60]} discards what {w.runs(x.body, f, tainted)} raises")
        for c in calls:
            what = w.runs([c], f) or (any(isinstance(a, ast.Name) for a in c.args) and "the work handed over")
            ctx.count("worker_handovers")
            if what:
                taken(ctx, f, c, up, what)
        for c in threads(ctx.prog, f):
            if w.runs([c], f):
                ctx.find("swallowed", cname(f), f.where, f"{w.runs([c], f)} runs in a bare {ast.unparse(c.func)}, whose exceptions stay with it")
        dec = [ast.unparse(d) for d in f.node.decorator_list]
        for d in f.node.decorator_list:
            g = ctx.prog.resolve_expr(f.module, d.func if isinstance(d, ast.Call) else d)
            if f in w.hot and hasattr(g, "node") and any(isinstance(x, ast.Try) and x.handlers and not all(always_raises(h.body) for h in x.handlers) for x in ast.walk(g.node)):
                ctx.find("swallowed", cname(f), f.where, f"the decorator {dec} catches what {f.name} raises")
        # a helper that calls a function it is given, inside a try
        own = {a.arg for a in f.node.args.args} - {"self"}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Try) and x.handlers and not all(always_raises(h.body) for h in x.handlers):
                called = {y.func.id for s in x.body for y in ast.walk(s) if isinstance(y, ast.Call) and isinstance(y.func, ast.Name)} & own
                if called:
                    for g, c in callers(ctx.prog, w.g, f):
                        if w.runs(list(c.args) + [k.value for k in c.keywords], g):
                            ctx.find("swallowed", cname(f), f.where, f"{f.name} catches what {', '.join(sorted(called))} raises; {g.where} hands it {w.runs(list(c.args) + [k.value for k in c.keywords], g)}")


def callers(prog, g, f):
    for h in prog.all_funcs():
        if f in g.edges(h):
            for x in ast.walk(h.node):
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == f.name or isinstance(x.func, ast.Attribute) and x.func.attr == f.name):
                    yield h, x


def quiet(ctx, f, e):
    if not isinstance(e, ast.Call):
        return False
    r = ctx.prog.resolve_expr(f.module, e.func)
    if isinstance(r, str) or r is None and ast.unparse(e.func).split(".")[-1] == "suppress":
        return (r or "contextlib.suppress") == "contextlib.suppress"
    if hasattr(r, "methods") and r.lookup("__exit__"):
        return any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and not x.value.value) for x in walk_own(r.lookup("__exit__").node))
    if hasattr(r, "node"):          # a generator used as context manager that catches around its yield
        return any(isinstance(x, ast.Try) and x.handlers and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for s in x.body for y in ast.walk(s))
                   and not all(always_raises(h.body) for h in x.handlers) for x in ast.walk(r.node))
    return False


def taken(ctx, f, c, up, what):
    """The results of the work handed to workers are all asked for: that is where their exceptions come back."""
    ctx.count("obligations")
    names, s = holders(f, c, up)
    future = isinstance(c.func, ast.Attribute) and c.func.attr in ("submit", "apply_async", "map_async", "starmap_async", "run_in_executor")
    if isinstance(s, ast.Expr) and not names:
        ctx.find("dropped", cname(f), f.where, f"line {c.lineno}: the results of {what} handed to workers are dropped, and what they raise with them")
        return
    live = derived(f, names)
    asked, early = False, None
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            base = {y.id for y in ast.walk(x.func.value) if isinstance(y, ast.Name)}
            if x.func.attr == "exception" and base & live:
                up_x = up.get(x)
                ctx.find("dropped", cname(f), f.where, f"line {x.lineno}: exceptions of workers are looked at instead of being raised") if not raised(up, x) else None
                asked = asked or up_x is not None
            if x.func.attr in ("result", "get") and (base & live or any(y is c for y in ast.walk(x))):
                asked = True
        if not future:
            if isinstance(x, ast.Call) and any(isinstance(y, ast.Name) and y.id in live or y is c for a in x.args for y in ast.walk(a)) and ast.unparse(x.func) not in ("len", "next", "iter", "id", "wait", "print", "bool") \
                    and not ast.unparse(x.func).endswith(".wait"):
                asked = True
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id in live or y is c for y in ast.walk(x.iter)):
                asked = True
        if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) and x.value is not None and any(isinstance(y, ast.Name) and y.id in names or y is c for y in ast.walk(x.value)):
            asked = True
        if isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id in live or y is c for y in ast.walk(x.iter)):
            early = early or jump(x.body)
    if not asked:
        ctx.find("dropped", cname(f), f.where, f"line {c.lineno}: the results of {what} handed to workers are never asked for, and what they raise is lost")
    elif early:
        ctx.find("dropped", cname(f), f.where, f"line {early.lineno}: results of workers after this one are not asked for, and what they raise is lost")


def jump(body):
    def go(n, loop):
        if isinstance(n, ast.Return) or isinstance(n, ast.Break) and not loop:
            return n
        for c in ast.iter_child_nodes(n):
            r = go(c, loop or isinstance(n, (ast.For, ast.While)))
            if r:
                return r
    for s in body:
        r = go(s, False)
        if r:
            return r
    return None


def raised(up, x):
    """The exception looked at is raised somewhere in the same function."""
    while x in up and not isinstance(x, ast.FunctionDef):
        x = up[x]
    return any(isinstance(y, ast.Raise) for y in ast.walk(x))


# ---------------------------------------------------------------- values are handed on as they are
def value(ctx, F):
    f = method(ctx, F.P, "get_target")
    if f is None:
        return
    core = F.core(opaque={("Problem", "obj_func"), ("Target", "__init__")}, types={"self": F.P})
    for p in returns(paths(ctx, core, f, [ME, S("x")])):
        ctx.count("obligations")
        made = [e for e, _ in flat(p.eff) if e[0] == "construct" and e[1].split(".")[-1] == "Target"]
        runs = [e for e, _ in flat(p.eff) if e[0] == "call" and e[1].endswith("obj_func")]
        if len(made) != 1 or not runs:
            if not runs:
                ctx.find("value", cname(f), f.where, "a target is handed out on a path that does not run the objective")
            else:
                ctx.undec(f"{f.where}: {len(made)} targets made")
            continue
        a = args_of(made[0])
        v = a.get("objectives", a.get(0))
        if v is None:
            ctx.undec(f"{f.where}: arguments of the target")
        elif v != runs[-1][3]:
            made_by = [e for e, _ in flat(p.eff) if e[0] == "call" and e[3][:2] == v[:2]]
            if runs[-1][3] not in origin(v, p) and not undecidable(v):
                ctx.find("value", cname(f), f.where, f"the target is made from {show(v)[:60]} and not from what the objective returned")
            elif made_by and made_by[0][1].split(".")[-1] in CHANGING or T.contains(v, runs[-1][3]) and v[0] in ("app", "ite"):
                ctx.find("value", cname(f), f.where, f"the target is made from {show(v)[:100]} and not from what the objective returned")
            else:
                ctx.undec(f"{f.where}: the target is made from {show(v)[:100]}")


def invalid(ctx, F):
    """Target refuses what is no number or list of numbers."""
    f = method(ctx, F.T, "__init__")
    if f is None:
        return
    q = c23.Ask(ctx, F, "invalid-value")
    core = F.core(types={"self": F.T})
    names = c23.params(f)
    ps = paths(ctx, core, f, [ME] + [S(n) for n in names])
    if ps is None or len(names) < 2:
        return
    obj, wts = S(names[0]), S(names[1])
    g = F.T.lookup("set_objectives")
    g = g if g is not None and len(c23.params(g)) == 1 else None
    gps = paths(ctx, core, g, [ME, S(c23.params(g)[0])]) if g is not None else None
    bad = False
    for v in (None, "1.0", "", {}, {"f": 1}, object(), q.a(F.T), {1.0}):
        for n in (None, (1.0,)):
            ctx.count("obligations")
            k = c23.verdict(ps, {obj: v, wts: n}, q.types)[0]
            if k is None and gps is not None:
                k = c23.verdict(gps, {S(c23.params(g)[0]): v}, q.types)[0]
            if k == "return" and not bad:
                bad = True
                ctx.find("invalid-value", cname(g or f), (g or f).where, f"an objective value {c23.value_text(v)} is accepted")
            elif k is None:
                ctx.undec(f"{f.where}: an objective value {c23.value_text(v)}: outcome not determined")
    if gps is not None:
        for v in (1, 1.5, 0, -2.0, (1.0, 2.0), [3, 4.5], [0]):
            q.case(g, gps, {S(c23.params(g)[0]): v}, "return", f"an objective value {v!r}")


def run(ctx):
    F = Fw(ctx.prog)
    ctx.part("nothing caught or dropped", caught, F)
    ctx.part("value", value, F)
    ctx.part("invalid values", invalid, F)
    ctx.need("functions", 500)
    ctx.need("functions_that_run_the_objective", 200)
    ctx.need("worker_handovers", 1)
    ctx.explanation = ("Every try, finally, context manager, worker hand-over, thread and decorator in the package is enumerated; code from which the objective can be "
                       "reached in the call graph must let its exceptions through, and every result of a worker must be asked for. The target must be made from what the "
                       "objective returned, and refuse values that are not numbers.")
