"""Which functions a piece of code may run: by resolved name where the receiver is known, by method name otherwise (an over-approximation)."""
import ast

from .program import Class, Func, Module

EXTERNAL = ("numpy", "scipy", "pandas", "math", "random", "matplotlib", "time", "os", "itertools", "functools", "operator", "copy", "logging", "pickle", "platform")


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.by_name, self.subs, self._edges = {}, {}, {}
        for m in prog.modules.values():
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    self.by_name.setdefault(c.mangled(f.name), []).append(f)
                for b in c.mro:
                    if isinstance(b, Class):
                        self.subs.setdefault(b, []).append(c)

    def family(self, cls, name):
        """The definitions `self.name` may mean inside a method of cls."""
        out = []
        for c in self.subs.get(cls, [cls]):
            for k in c.mro:
                if isinstance(k, Class) and name in k.methods:
                    if k.methods[name] not in out:
                        out.append(k.methods[name])
                    break
        return out

    def refs(self, node, f):
        """Functions referred to in the code below node, which is part of function f."""
        out, m, cls = [], f.module, f.cls
        me = f.node.args.args[0].arg if f.cls is not None and f.kind != "static" and f.node.args.args else None
        seen = set()
        for x in ast.walk(node):
            if id(x) in seen:
                continue
            if isinstance(x, ast.Attribute):
                r = self.prog.resolve_expr(m, x)
                if isinstance(r, Func):
                    out.append(r)
                elif isinstance(r, Class):
                    out.extend(self.ctor(r))
                elif isinstance(r, (str, tuple, Module)):
                    continue
                elif isinstance(x.value, ast.Name) and x.value.id == me:
                    n = cls.mangled(x.attr)
                    out.extend(self.family(cls, x.attr) or ([] if x.attr in ("generator", "logger") else self.by_name.get(n, [])))
                elif isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "super" and cls is not None:
                    g = cls.lookup_after(cls, x.attr)
                    out.extend([g] if g else [])
                elif not external(x):
                    out.extend(self.by_name.get(cls.mangled(x.attr) if cls else x.attr, []))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r = self.prog.resolve_name(m, x.id)
                if isinstance(r, Func):
                    out.append(r)
                elif isinstance(r, Class):
                    out.extend(self.ctor(r))
        return out

    def ctor(self, c):
        g = c.lookup("__init__")
        return [g] if g else []

    def edges(self, f):
        if f not in self._edges:
            self._edges[f] = self.refs(f.node, f)
        return self._edges[f]

    def closure(self, start, stop=()):
        seen, todo = [], list(start)
        done = set(stop)
        while todo:
            g = todo.pop()
            if g in done:
                continue
            done.add(g)
            seen.append(g)
            todo.extend(self.edges(g))
        return seen

    def reach(self, node, f, hit, stop=()):
        """The first reachable function with hit(func), '' when the code below node itself satisfies it, or None."""
        if hit(node):
            return ""
        for g in self.closure(self.refs(node, f), stop):
            if hit(g.node):
                return g
        return None


def external(x):
    """Receivers that are known not to be objects of this package."""
    v = x.value
    while isinstance(v, (ast.Attribute, ast.Call, ast.Subscript)):
        if isinstance(v, ast.Attribute) and v.attr in ("generator", "logger"):
            return True
        v = v.func if isinstance(v, ast.Call) else v.value
    return isinstance(v, (ast.Constant, ast.List, ast.Dict, ast.ListComp, ast.JoinedStr))


# ---------------------------------------------------------------- pools of workers
POOL = {"map", "submit", "starmap", "imap", "imap_unordered", "apply_async", "map_async", "starmap_async", "apply", "run_in_executor"}
LIBS = ("concurrent", "multiprocessing", "joblib", "threading", "_thread", "asyncio", "queue", "subprocess")


def dotted(prog, m, e):
    r = prog.resolve_expr(m, e)
    return r if isinstance(r, str) else ""


def pools(prog, f):
    """The calls in f that hand work to workers, with the callables and the kind of hand-over."""
    made = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.withitem) and isinstance(x.optional_vars, ast.Name) and is_pool(prog, f, x.context_expr):
            made.add(x.optional_vars.id)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and is_pool(prog, f, x.value):
            made.add(x.targets[0].id)
    own = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    uses = any(isinstance(i, str) and i.split(".")[0] in LIBS for i in f.module.imports.values())
    out = []
    for x in ast.walk(f.node):
        if not isinstance(x, ast.Call):
            continue
        if isinstance(x.func, ast.Attribute) and x.func.attr in POOL:
            v = x.func.value
            if isinstance(v, ast.Name) and (v.id in made or uses and v.id in own and v.id not in ("self", "cls")) or is_pool(prog, f, v):
                out.append(x)
        elif isinstance(x.func, ast.Name) and x.func.id in made:         # joblib style: Parallel(...)(tasks)
            out.append(x)
    return out


def is_pool(prog, f, e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            d = dotted(prog, f.module, x.func)
            if d.split(".")[0] in LIBS:
                return True
            # a class handed over in a variable: every value it is given is a pool
            if isinstance(x.func, ast.Name) and not d:
                vals = [y for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.func.id for t in a.targets)
                        for y in ast.walk(a.value) if isinstance(y, (ast.Attribute, ast.Name))]
                if any(dotted(prog, f.module, v).split(".")[0] in LIBS for v in vals):
                    return True
    return False


def threads(prog, f):
    """Bare threads and processes: what they raise stays with them."""
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            d = dotted(prog, f.module, x.func)
            if d.split(".")[0] in ("threading", "multiprocessing", "_thread") and d.split(".")[-1] in ("Thread", "Process", "Timer", "start_new_thread"):
                yield x
