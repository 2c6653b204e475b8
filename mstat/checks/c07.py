"""Solving again starts clean: attributes live into a run and modified by it; what the framework resets; class- and module-level state."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, check, cname, undecidable
from ..program import Class
from ..flow import run_all, construct
from .prims import returns, ME
from .c06 import every

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem", "fill", "put"}
RESET = ("pop", "g_best", "g_worst")
NEW = ("history", "generator", "rng", "logger")


def framework(ctx, F):
    """What solve resets before the search starts, on every path."""
    f = method(ctx, F.O, "check_problem")
    if f is None:
        return
    op = {("History", "__init__"), ("Logger", "__init__"), ("Problem", "__init__"), ("Problem", "set_seed")}
    late = {}
    g = method(ctx, F.O, "check_termination")
    if g is not None:
        core = F.core(opaque={("Termination", "__init__"), ("Termination", "set_start_values"), ("Logger", "__init__")}, types={"self": F.O})
        for n, t in (("none", NONE), ("given", S("termination"))):
            for p in returns(paths(ctx, core, g, [ME, K("start"), t])):
                late.setdefault("nfe_counter", []).append(p.attr(ME, "nfe_counter"))
                got = p.attr(ME, "termination")
                ctx.count("obligations")
                if got == attr(ME, "termination"):
                    ctx.find("not-reset", cname(g), g.where, f"the termination of an earlier run is kept when {'no' if n == 'none' else 'a'} termination is given")
    for kind in ("instance", "dict"):
        def setup(st):
            if kind == "dict":
                st.truth[("app", "isinstance", S("problem"), ("cls", "mealpy.utils.problem.Problem"))] = False
        core = F.core(opaque=op, types={"self": F.O, **({"problem": F.P} if kind == "instance" else {})})
        for p in returns(paths(ctx, core, f, [ME, S("problem"), S("seed")], setup=setup)):
            for a in RESET:
                check(ctx, "not-reset", f, p.attr(ME, a), NONE, f"self.{a} at the start of a run")
            for a in NEW:
                ctx.count("obligations")
                t = p.attr(ME, a)
                if t == attr(ME, a) or contains(t, attr(ME, a)):
                    ctx.find("not-reset", cname(f), f.where, f"self.{a} of an earlier run is kept")
            t = p.attr(ME, "problem")
            ctx.count("obligations")
            if t == attr(ME, "problem"):
                ctx.find("not-reset", cname(f), f.where, "the problem of an earlier run is kept")
            n = p.attr(ME, "nfe_counter")
            ctx.count("obligations")
            if n == attr(ME, "nfe_counter") or contains(n, attr(ME, "nfe_counter")):
                if any(x == attr(ME, "nfe_counter") or contains(x, attr(ME, "nfe_counter")) for x in late.get("nfe_counter", [n])):
                    ctx.find("not-reset", cname(f), f.where, "the number of function evaluations of an earlier run is carried into the next one")
    g = method(ctx, F.O, "check_mode_and_workers")
    if g is not None:
        core = F.core(opaque={("Validator", "check_str"), ("Validator", "check_int"), ("Logger", "__init__")}, types={"self": F.O})
        for p in returns(paths(ctx, core, g, [ME, S("mode"), S("n_workers")])):
            ctx.count("obligations")
            if p.attr(ME, "mode") == attr(ME, "mode"):
                ctx.find("not-reset", cname(g), g.where, "the mode of an earlier run is kept")
    c = method(ctx, F.H, "__init__")
    if c is not None:
        core = F.core(opaque={("Logger", "__init__")}, types={"self": F.H})
        from .c20 import LISTS, SERIES
        for p in returns(paths(ctx, core, c, [ME])):
            for n in tuple(LISTS) + tuple(SERIES):
                ctx.count("obligations")
                t = p.attr(ME, n)
                if t == attr(ME, n):
                    ctx.find("history-shared", cname(c), c.where, f"a new history does not get its own {n}")
                elif t[0] != "new" and not undecidable(t) and not (t[0] == "list" and len(t) == 1):
                    ctx.find("history-shared", cname(c), c.where, f"{n} of a new history is {show(t)}, not a new list")


def local_names(fn):
    """Names bound inside a function (parameters included)."""
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    out |= {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
    return out - glob, glob


def stores(fn):
    """(target expression, node, kind) of every store through a subscript/attribute, mutator call and augmented assignment."""
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            work = list(tg)
            while work:
                t = work.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    work += t.elts
                elif isinstance(t, ast.Starred):
                    work.append(t.value)
                elif isinstance(t, ast.Subscript):
                    yield t.value, n, "element"
                elif isinstance(t, ast.Attribute):
                    yield t, n, "attribute"
                elif isinstance(n, ast.AugAssign):
                    yield t, n, "augmented"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            yield n.func.value, n, "method"


def root(t):
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
    return t


def mutable_literal(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and \
        (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("list", "dict", "set", "deque", "defaultdict", "OrderedDict", "Counter",
                                                                        "zeros", "ones", "array", "empty", "full")


def same(a, b):
    return ast.dump(a) == ast.dump(b).replace("Store()", "Load()") or ast.unparse(a) == ast.unparse(b)


def state_scan(ctx, F):
    """Module-level, class-level and default-argument state modified by functions."""
    prog = ctx.prog
    touched = {t.attr for m in prog.modules.values() for _, fn in functions(m) for t, n, kind in stores(fn)
               if isinstance(t, ast.Attribute) and kind in ("element", "method", "augmented")}
    for m in prog.modules.values():
        if ".visualize" in m.name:
            continue
        for cl, fn in functions(m):
            ctx.count("functions_scanned")
            where = f"{m.rel}:{fn.lineno}"
            what = f"{m.rel.split('/')[-1]}:{(cl.name + '.') if cl else ''}{fn.name}"
            loc, glob = local_names(fn)
            klass = m.classes.get(cl.name) if cl else None
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                    ctx.find("module-state", what, f"{m.rel}:{n.lineno}", f"assigns the module-level variable {n.id}")
            for t, n, kind in stores(fn):
                r = root(t)
                at = f"{m.rel}:{n.lineno}"
                if isinstance(r, ast.Call) and isinstance(t, ast.Attribute):
                    # type(self).x = ...
                    if isinstance(r.func, ast.Name) and r.func.id == "type" and kind == "attribute":
                        ctx.find("class-state", what, at, f"`{ast.unparse(n)[:90]}` changes class-level state")
                    continue
                if not isinstance(r, ast.Name):
                    continue
                if r.id not in loc:
                    g = prog.resolve_name(m, r.id)
                    if isinstance(g, Class):
                        if kind == "attribute" and isinstance(t, ast.Attribute) and t.value is r or kind in ("element", "method", "augmented"):
                            if kind == "method" and t is r:
                                continue            # Class.update(...)
                            ctx.find("class-state", what, at, f"`{ast.unparse(n)[:90]}` changes class-level state")
                    elif isinstance(g, tuple) and g[0] == "global":
                        ctx.find("module-state", what, at, f"`{ast.unparse(n)[:90]}` changes the module-level object {r.id}")
                    elif isinstance(g, str) and kind == "attribute" and t.value is r:
                        ctx.find("module-state", what, at, f"`{ast.unparse(n)[:90]}` changes the module {g}")
                    elif g is not None and not isinstance(g, (str, tuple)) and kind == "attribute" and not isinstance(g, Class):
                        ctx.find("module-state", what, at, f"`{ast.unparse(n)[:90]}` changes state shared by all runs")
                    continue
                # cls.x = ..., self.__class__.x = ...
                first = fn.args.args[0].arg if fn.args.args and cl else None
                if first == r.id and is_classmethod(fn) and kind in ("attribute", "element", "method", "augmented") and t is not r:
                    if identity_counter(prog, klass, t):
                        ctx.count("identity_counters")
                        continue
                    ctx.find("class-state", what, at, f"`{ast.unparse(n)[:90]}` changes class-level state")
                elif any(isinstance(x, ast.Attribute) and x.attr == "__class__" for x in ast.walk(t)) and not (isinstance(t, ast.Attribute) and t.attr == "__class__"):
                    ctx.find("class-state", what, at, f"`{ast.unparse(n)[:90]}` changes class-level state")
                elif first == r.id and klass is not None and kind in ("element", "method", "augmented"):
                    # an object kept at class level and changed through an instance
                    x = t
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.value is r:
                        v, own = klass.class_attr(x.attr)
                        if v is not None and mutable_literal(v) and not assigned_by_init(klass, x.attr):
                            ctx.find("class-state", what, at, f"`{ast.unparse(n)[:90]}` changes {own.name}.{x.attr}, which all objects share")
            shared(ctx, prog, m, klass, fn, what, touched)
            defaults(ctx, m, cl, klass, fn, what)
            cached(ctx, prog, m, cl, fn, what, where)


def shared(ctx, prog, m, klass, fn, what, touched):
    """A class- or module-level mutable object becomes an attribute whose contents are modified somewhere."""
    loc, _ = local_names(fn)
    for n in ast.walk(fn):
        if not isinstance(n, ast.Assign):
            continue
        pairs = [(t, n.value) for t in n.targets]
        for t, v in list(pairs):
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                pairs += list(zip(t.elts, v.elts))
        for t, v in pairs:
            if not (isinstance(t, ast.Attribute) and t.attr in touched):
                continue
            lit = None
            if isinstance(v, ast.Name) and v.id not in loc:
                g = prog.resolve_name(m, v.id)
                if isinstance(g, tuple) and g[0] == "global":
                    lit = g[1].globals.get(g[2])
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                k = prog.resolve_name(m, v.value.id) if v.value.id not in loc else None
                if v.value.id in ("self", "cls") and klass is not None and v.attr != t.attr and not assigned_by_init(klass, v.attr):
                    k = klass
                if isinstance(k, Class):
                    lit = k.class_attr(v.attr)[0]
            lit = getattr(lit, "value", lit)
            if lit is not None and mutable_literal(lit):
                ctx.find("shared-object", what, f"{m.rel}:{n.lineno}", f"`{ast.unparse(n)[:90]}` makes objects share one container that is modified later")


def functions(m):
    def walk(body, cl):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield cl, st
            elif isinstance(st, ast.ClassDef):
                yield from walk(st.body, st)
            elif isinstance(st, (ast.If, ast.Try)):
                yield from walk(st.body, cl)
    yield from walk(m.tree.body, None)


def is_classmethod(fn):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list)


def identity_counter(prog, klass, t):
    """A class-level counter that only numbers objects: the number is never read outside textual representations."""
    if klass is None or not isinstance(t, ast.Attribute):
        return False
    name = t.attr
    readers = 0
    for m in prog.modules.values():
        for cl, fn in functions(m):
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in (name, "id") and not (n.attr == "id" and cl is None):
                    if fn.name in ("__str__", "__repr__") or cl is not None and cl.name == klass.name and fn.name in ("increase", "__init__"):
                        continue
                    if n.attr == name and cl is not None and cl.name == klass.name:
                        continue
                    if n.attr == name and not (isinstance(n.value, ast.Name) and prog.resolve_name(m, n.value.id) is klass):
                        continue
                    if n.attr == "id" and isinstance(n.value, ast.Name) and n.value.id == "ast":
                        continue
                    readers += 1
    return readers == 0


def assigned_by_init(klass, name):
    for k in klass.mro:
        if isinstance(k, Class) and "__init__" in k.methods:
            for n in ast.walk(k.methods["__init__"].node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                    return True
    return False


def defaults(ctx, m, cl, klass, fn, what):
    """Mutable default arguments that are modified, or kept on an object whose methods modify them."""
    a = fn.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for p, d in pairs:
        if not mutable_literal(d):
            continue
        ctx.count("mutable_defaults")
        if any(isinstance(n, ast.Name) and n.id == p.arg and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)):
            if not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p.arg for n in ast.walk(fn)):
                continue
        names = {p.arg}
        attrs = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        attrs.add(t.attr)
        for t, n, kind in stores(fn):
            x = t
            while isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(x, ast.Name) and x.id in names and kind in ("element", "method", "augmented"):
                ctx.find("default-state", what, f"{m.rel}:{n.lineno}", f"`{ast.unparse(n)[:90]}` changes the default value of {p.arg}, which later calls get")
        if attrs and klass is not None:
            for f in klass.methods.values():
                for t, n, kind in stores(f.node):
                    x = t
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.attr in attrs and isinstance(x.value, ast.Name) and x.value.id == "self" and \
                            kind in ("element", "method", "augmented"):
                        ctx.find("default-state", what, f"{m.rel}:{n.lineno}", f"`{ast.unparse(n)[:90]}` changes the default value of {p.arg}, "
                                 f"which objects created later get")


def cached(ctx, prog, m, cl, fn, what, where):
    for d in fn.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        n = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
        if n in ("lru_cache", "cache", "cached_property", "memoize"):
            ctx.count("caches")
            if any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" for y in ast.walk(fn)) or \
                    any(isinstance(y, ast.Name) and y.id in ("generator", "rng") for y in ast.walk(fn)):
                ctx.find("cached-state", what, where, f"results of {fn.name} are cached although they depend on the state of the run")


def variables(ctx, F):
    """Methods of decision variables that runs call do not change the variable."""
    BV = ctx.prog.cls("mealpy.utils.space.BaseVar")
    seen = set()
    for c in ctx.prog.classes() if callable(getattr(ctx.prog, "classes", None)) else [k for m in ctx.prog.modules.values() for k in m.classes.values()]:
        if BV not in c.mro:
            continue
        work = ["generate", "encode", "decode", "correct"]
        done = set()
        while work:
            n = work.pop()
            f = c.lookup(n)
            if f is None or n in done:
                continue
            done.add(n)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and c.lookup(x.attr):
                    work.append(x.attr)
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            ctx.count("variable_methods")
            for t, node, kind in stores(f.node):
                r = root(t)
                if isinstance(r, ast.Name) and r.id == "self" and not (kind == "method" and t is r):
                    ctx.find("variable-state", f"{f.module.rel.split('/')[-1]}:{f.cls.name}.{f.name}", f"{f.module.rel}:{node.lineno}",
                             f"`{ast.unparse(node)[:90]}` changes the variable while it is used")


def run(ctx):
    ctx.explanation = ("Per algorithm, mode and direction: attributes of the optimizer (and of the problem) that a run may read before setting them and "
                       "that a run modifies, including in-place changes of objects created by the constructor; canonical terms of the functions that "
                       "reset the run state; scan of every function for changes of module-level, class-level and default-argument state.")
    F = Fw(ctx.prog)
    ctx.part("framework", framework, F)
    ctx.part("state_scan", state_scan, F)
    ctx.part("variables", variables, F)
    res = run_all(ctx)
    hit = {}
    for r in res:
        for a, rd, w in r.get("carried", ()):
            hit.setdefault((construct(w[0]), a), (rd, w, set()))[2].add(r["cls"])
    for (c, a), (rd, w, cl) in sorted(hit.items()):
        cl = sorted(cl)
        who = ", ".join(cl[:4]) + (f" and {len(cl) - 4} more" if len(cl) > 4 else "")
        nm = a if a.startswith("problem.") else "self." + a
        ctx.find("carried", f"{c}:{a}", w[0], f"`{w[1]}` changes {nm}, which a later run reads in {rd[0].split(':')[-1]} before setting it [{who}]")
    ctx.need("obligations", 20)
    ctx.need("functions_scanned", 1000)
    ctx.need("classes", 200)
