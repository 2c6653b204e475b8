"""C15: no undefined name, attribute or mismatched call on any reachable branch."""
import ast

from .. import flow
from ..defs import (Flow, locals_of, own_nodes, comp_names, args_of, COMPS, BUILTIN_EXTRA, sigs, misfit, sig_of)
from ..program import Class, Func, Module

OBJECT = set(dir(object)) | {"__dict__", "__class__", "__module__", "__name__", "__annotations__", "__qualname__", "__mro__", "__bases__"}
OPEN = {"Exception", "ValueError", "TypeError", "object", "ABC", "abc.ABC"}


def functions(prog):
    """(Func, node, enclosing nodes) of every function, nested ones included."""
    for f in prog.all_funcs():
        stack = [(f.node, [])]
        while stack:
            n, outer = stack.pop()
            yield f, n, outer
            for x in own_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    stack.append((x, outer + [n]))


def module_names(prog, m, depth=0):
    names = set(m.imports) | set(m.functions) | set(m.classes) | set(m.globals)
    for n in m.tree.body:
        for x in ([n] if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else []):
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    names.add(y.id)
                elif isinstance(y, ast.ExceptHandler) and y.name:
                    names.add(y.name)
                elif isinstance(y, (ast.Import, ast.ImportFrom)):
                    names |= {a.asname or a.name.split(".")[0] for a in y.names}
    for f in ast.walk(m.tree):
        if isinstance(f, ast.Global):
            names |= set(f.names)
    if m.is_pkg:
        names |= {q[len(m.name) + 1:].split(".")[0] for q in prog.modules if q.startswith(m.name + ".")}
    for s in m.star:
        b = prog.resolve_qual(s)
        if isinstance(b, Module) and depth < 5:
            names |= {x for x in module_names(prog, b, depth + 1) if not x.startswith("_")}
        elif isinstance(b, str):
            names |= set(sigs()["names"].get(b, ())) or {"*"}
    return names


def names(ctx):
    """Every name read in a function is a local, an enclosing local, a module name or a builtin."""
    cache = {}
    built = set(sigs()["names"]["builtins"]) | BUILTIN_EXTRA
    for f, node, outer in functions(ctx.prog):
        m = f.module
        if m.name not in cache:
            cache[m.name] = module_names(ctx.prog, m)
        known = cache[m.name] | built
        if "*" in known:
            continue
        scope = locals_of(node)
        for o in outer:
            scope |= locals_of(o)
        ctx.count("functions")

        def walk(n, bound):
            if isinstance(n, COMPS):
                bound = bound | comp_names(n)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ctx.count("name_reads")
                if n.id not in bound and n.id not in scope and n.id not in known:
                    ctx.find("undefined-name", f"{m.rel.split('/')[-1]}:{qual(f)}", f.where, f"line {n.lineno}: the name '{n.id}' is not defined anywhere")
                return
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    for d in c.args.defaults + [x for x in c.args.kw_defaults if x] + getattr(c, "decorator_list", []):
                        walk(d, bound)
                    continue
                walk(c, bound)
        for st in (node.body if isinstance(node.body, list) else [node.body]):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            walk(st, frozenset())


def qual(f):
    return f"{f.cls.name}.{f.name}" if f.cls else f.name


def label(f):
    return f"{f.module.rel.split('/')[-1]}:{qual(f)}"


def assigned(ctx):
    """Every local read is preceded by an assignment on each path."""
    for f, node, outer in functions(ctx.prog):
        if isinstance(node, ast.Lambda):
            continue
        bad = []
        fl = Flow(node, lambda e, facts: bad.append((e, facts)))
        fl.run()
        ctx.count("locals", len(fl.locals))
        for e, facts in bad:
            cond = " and ".join(("" if v else "not ") + f"({g})" for g, v in sorted(facts))[:120]
            if fl.lossy:
                ctx.undec(f"{f.where}: '{e.id}' may be unassigned in line {e.lineno} (too many paths)")
            else:
                ctx.find("unassigned", label(f), f.where, f"line {e.lineno}: '{e.id}' is read" + (f" on the path where {cond}" if cond else "") + " without having been assigned")


def universe(prog, c, cache):
    """Attribute names instances of a class can have; None when open (external bases)."""
    if c in cache:
        return cache[c]
    out = set(OBJECT)
    cache[c] = out
    for k in c.mro:
        if not isinstance(k, Class):
            if k not in OPEN:
                cache[c] = None
                return None
            continue
        out |= set(k.methods) | set(k.setters) | set(k.attrs)
        for st in k.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.add(st.target.id)
            if isinstance(st, (ast.ClassDef,)):
                out.add(st.name)
        for f in list(k.methods.values()) + list(k.setters.values()):
            me = f.node.args.args[0].arg if f.node.args.args and f.kind in ("method", "property", "setter", "classmethod") else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                    if isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    elif k is not prog.Optimizer:
                        cache[c] = None
                        return None
                elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == me and k is not prog.Optimizer:
                    par = getattr(n, "_parent", None)
                    if isinstance(par, ast.Attribute) and par.attr == "update" or isinstance(par, ast.Assign) and n in par.targets or isinstance(par, ast.AugAssign):
                        cache[c] = None
                        return None
    return out


def attributes(ctx):
    """self.X exists somewhere in the class; attributes of the framework's objects exist in their class."""
    prog = ctx.prog
    cache = {}
    typed = {"problem": prog.cls("mealpy.utils.problem.Problem"), "history": prog.cls("mealpy.utils.history.History"),
             "termination": prog.cls("mealpy.utils.termination.Termination"), "validator": prog.cls("mealpy.utils.validator.Validator")}
    ext = {"generator": "generator", "logger": "logger"}
    opt = prog.Optimizer
    subs = {}
    for c in prog.all_classes():
        for k in c.mro:
            if isinstance(k, Class) and k is not c:
                subs.setdefault(k, []).append(c)
    for c in prog.all_classes():
        u = universe(prog, c, cache)
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f.kind == "static" or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                    continue
                if isinstance(n.value, ast.Name) and n.value.id == me:
                    ctx.count("attribute_reads")
                    if u is None or c.mangled(n.attr) in u or n.attr in u:
                        continue
                    if abstract(f) or guarded(n, me):
                        continue
                    # an attribute only subclasses have: wrong for this class and for every subclass without it
                    if c.name.startswith(("Base", "Optimizer", "Abstract")) and subs.get(c) and all(n.attr in (universe(prog, s, cache) or {n.attr}) for s in subs[c]):
                        continue
                    ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: self.{n.attr} is read but {c.name} never defines it")
                elif isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == me and opt in c.mro:
                    t = n.value.attr
                    if t in typed:
                        ctx.count("attribute_reads")
                        w = universe(prog, typed[t], cache)
                        if w is not None and n.attr not in w and not guarded(n, me):
                            ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: self.{t}.{n.attr} is read but {typed[t].name} never defines it")
                    elif t in ext:
                        ctx.count("attribute_reads")
                        if n.attr not in sigs()["types"][ext[t]]:
                            ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: self.{t}.{n.attr} does not exist")


def members(ctx):
    """Attributes of objects of unstated type: some class of the package, some library type, or the algorithm's own candidates have them."""
    prog = ctx.prog
    base = set(OBJECT)
    for t in sigs()["types"].values():
        base |= set(t)
    for ns in sigs()["names"].values():
        base |= set(ns)
    opt = prog.Optimizer
    owned, stored = {}, {}
    for c in prog.all_classes():
        base |= set(c.methods) | set(c.attrs) | set(c.setters)
        mine = set()
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                mine.add(n.attr)
            elif isinstance(n, ast.Call):
                mine |= {k.arg for k in n.keywords if k.arg}
                if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    mine.add(n.args[1].value)
        stored[c] = mine
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                mine.add(n.target.id)
        if opt not in c.mro or c is opt:
            base |= mine
        if any(isinstance(k, str) and "Enum" in k for k in c.mro):
            base |= {"name", "value"}
    for m in prog.modules.values():
        base |= set(m.functions) | set(m.classes) | set(m.globals)
        for f in m.functions.values():
            base |= {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    base |= {q.rsplit(".", 1)[-1] for q in prog.modules}
    for m in prog.modules.values():
        for f in [g for c in m.classes.values() if opt in c.mro and c is not opt for g in list(c.methods.values()) + list(c.setters.values())]:
            own = set()
            for k in f.cls.mro:
                own |= stored.get(k, set()) if isinstance(k, Class) else set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    r = root_name(n)
                    if r in m.imports and not isinstance(prog.resolve_qual(m.imports[r]), (Module, Class)):
                        continue
                    ctx.count("attribute_reads")
                    if n.attr not in base and n.attr not in own and not guarded(n, None):
                        ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: no object this code handles has an attribute '{n.attr}' ({ast.unparse(n)[:60]})")


def abstract(f):
    return any(isinstance(n, ast.Raise) for n in f.node.body) and len(f.node.body) <= 2


def guarded(n, me):
    """The read is under hasattr/getattr or an except handler for attribute errors."""
    p = n
    while p is not None:
        if isinstance(p, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") for x in ast.walk(p.test)):
            return True
        if isinstance(p, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type) for h in p.handlers):
            return True
        if isinstance(p, ast.BoolOp) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr" for x in ast.walk(p)):
            return True
        p = getattr(p, "_parent", None)
    return False


LOCALS = {}


def shadowed(f, name, n):
    """A local of any enclosing function hides the module-level name."""
    p = n
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and p not in LOCALS:
            LOCALS[p] = locals_of(p)
        if p in LOCALS and name in LOCALS[p]:
            return True
        if isinstance(p, COMPS) and name in comp_names(p):
            return True
        p = getattr(p, "_parent", None)
    return False


def root_name(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def shape(call):
    n = sum(not isinstance(a, ast.Starred) for a in call.args)
    return n, [k.arg for k in call.keywords if k.arg], any(isinstance(a, ast.Starred) for a in call.args), any(k.arg is None for k in call.keywords)


def libraries(ctx):
    """Names taken from libraries exist there; calls fit the library's signatures."""
    prog = ctx.prog
    cache = {}
    for m in prog.modules.values():
        for k, q in m.imports.items():
            if isinstance(prog.resolve_qual(q), str) and "." in q:
                base, name = q.rsplit(".", 1)
                if base.split(".")[0] == "mealpy" or base in sigs()["names"] and name not in sigs()["names"][base] and q not in sigs()["names"]:
                    ctx.find("undefined-name", f"{m.rel.split('/')[-1]}:import", m.rel, f"'{name}' does not exist in {base}")
        owners = [(f, f.node) for f in list(m.functions.values()) + [g for c in m.classes.values() for g in list(c.methods.values()) + list(c.setters.values())]]
        for f, node in owners:
            rng = {}      # locals holding the generator
            for n in ast.walk(node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute) and n.value.attr == "generator":
                    rng[n.targets[0].id] = "generator"
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute):
                    r = root_name(n)
                    if r is None or r not in m.imports or shadowed(f, r, n):
                        continue
                    q = prog.resolve_expr(m, n)
                    if isinstance(q, str) and q.split(".")[0] != "mealpy":
                        base, name = q.rsplit(".", 1)
                        ctx.count("library_names")
                        if base in sigs()["names"] and name not in sigs()["names"][base] and q not in sigs()["names"] and not guarded(n, None):
                            ctx.find("undefined-name", label(f), f.where, f"line {n.lineno}: {q} does not exist")
                    b = prog.resolve_expr(m, n.value) if not isinstance(n.value, ast.Call) else None
                    if isinstance(b, Class) and universe(prog, b, cache) is not None and n.attr not in universe(prog, b, cache) and isinstance(n.ctx, ast.Load):
                        ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: {b.name}.{n.attr} does not exist")
                    if isinstance(b, Module) and prog.resolve_name(b, n.attr) is None and n.attr not in module_names(prog, b):
                        ctx.find("undefined-name", label(f), f.where, f"line {n.lineno}: {b.name}.{n.attr} does not exist")
                if isinstance(n, ast.Call):
                    call(ctx, prog, m, f, n, rng)


def call(ctx, prog, m, f, n, rng):
    fn = n.func
    q = None
    r = root_name(fn)
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Attribute) and fn.value.attr == "generator" or \
            isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in rng:
        q = f"<generator>.{fn.attr}"
        if fn.attr not in sigs()["types"]["generator"]:
            ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: a random generator has no '{fn.attr}'")
            return
    elif r is not None and (r in m.imports or isinstance(fn, ast.Name)) and not shadowed(f, r, n):
        t = prog.resolve_expr(m, fn)
        if isinstance(t, Func) and t.cls is None:
            ctx.count("calls")
            why = misfit(sig_of(t.node), *shape(n))
            if why:
                ctx.find("arguments", label(f), f.where, f"line {n.lineno}: {t.name}() {why}")
            return
        if isinstance(t, Class):
            init = t.lookup("__init__")
            if init is not None and all(isinstance(k, Class) or k in OPEN for k in t.mro):
                ctx.count("calls")
                why = misfit(sig_of(init.node, 1), *shape(n))
                if why:
                    ctx.find("arguments", label(f), f.where, f"line {n.lineno}: {t.name}() {why}")
            return
        if t is None and isinstance(fn, ast.Name):
            q = f"builtins.{fn.id}"
        elif isinstance(t, str):
            q = t
    if q in sigs()["sigs"]:
        ctx.count("calls")
        why = misfit(sigs()["sigs"][q], *shape(n))
        if why:
            ctx.find("arguments", label(f), f.where, f"line {n.lineno}: {q.replace('<generator>', 'generator')}() {why}")


def returns_of(node):
    """Lengths of the tuples a function returns; None entries for other values; 'none' when it may end without a value."""
    out = set()
    vals = [x.value for x in own_nodes(node) if isinstance(x, ast.Return)]
    for v in vals:
        out.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts) else "none" if v is None else None)
    if not vals:
        out.add("none")
    return out


def selfcalls(ctx):
    """Calls of the object's own methods, in every concrete class: arguments fit, the result has the parts it is unpacked into."""
    prog = ctx.prog
    done = set()
    stored, calls = {}, {}
    for c in prog.all_classes():
        stored[c] = {x.attr for x in ast.walk(c.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        for f in c.methods.values():
            calls[f] = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
    for c in prog.all_classes():
        if not all(isinstance(k, Class) or k in OPEN for k in c.mro):
            continue
        for k in c.mro:
            if not isinstance(k, Class):
                continue
            for f in k.methods.values():
                if c.lookup(f.name) is not f and k is not c or f.kind == "static" or not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                for n in calls[f]:
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == me:
                        g = c.lookup(n.func.attr)
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                        g = c.lookup_after(k, n.func.attr)
                        if g is None:
                            if n.func.attr not in OBJECT:
                                ctx.find("undefined-attribute", label(f), f.where, f"line {n.lineno}: no base class of {k.name} defines {n.func.attr}")
                            continue
                    else:
                        continue
                    if g is None or g.kind in ("property", "setter") or (f, n, g) in done:
                        continue
                    done.add((f, n, g))
                    if any(n.func.attr in stored[kk] for kk in c.mro if isinstance(kk, Class)):
                        continue        # replaced by an attribute
                    ctx.count("calls")
                    decorated = [d for d in g.node.decorator_list if ast.unparse(d) not in ("staticmethod", "classmethod", "abstractmethod", "abc.abstractmethod")]
                    if decorated:
                        continue
                    why = misfit(sig_of(g.node, 0 if g.kind == "static" else 1), *shape(n))
                    if why:
                        ctx.find("arguments", label(f), f.where, f"line {n.lineno}: {g.name}() {why}" + (f" in {c.name}" if c is not k else ""))
                    par = getattr(n, "_parent", None)
                    if isinstance(par, ast.Assign) and par.value is n and len(par.targets) == 1 and isinstance(par.targets[0], (ast.Tuple, ast.List)) and not abstract(g):
                        t = par.targets[0].elts
                        lens = returns_of(g.node)
                        star = any(isinstance(x, ast.Starred) for x in t)
                        for ln in lens:
                            if isinstance(ln, int) and not star and ln != len(t) or ln == "none" and lens == {"none"} and any(True for _ in g.node.body):
                                ctx.find("arguments", label(f), f.where, f"line {n.lineno}: {g.name}() returns {ln if ln != 'none' else 'no'} value(s), unpacked into {len(t)}")
                        ctx.count("unpackings")


def numbers(ctx):
    """A validated number is not measured, indexed or iterated."""
    opt = ctx.prog.Optimizer
    for c in ctx.prog.all_classes():
        if opt not in c.mro:
            continue
        stores = {}
        for k in c.mro:
            if isinstance(k, Class):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                stores.setdefault(t.attr, []).append(n.value)
        num = {a for a, vs in stores.items() if all(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("check_int", "check_float") for v in vs)}

        def number(e):
            if isinstance(e, ast.Constant):
                return isinstance(e.value, (int, float)) and not isinstance(e.value, bool)
            if isinstance(e, ast.BinOp):
                return number(e.left) and number(e.right)
            if isinstance(e, ast.UnaryOp):
                return number(e.operand)
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in num
        for f in c.methods.values():
            for n in ast.walk(f.node):
                bad = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "enumerate", "list", "zip", "sorted", "set", "tuple") and n.args and number(n.args[0]):
                    bad = f"{n.func.id}()"
                elif isinstance(n, ast.Subscript) and number(n.value):
                    bad = "indexing"
                elif isinstance(n, (ast.For, ast.comprehension)) and number(n.iter):
                    bad = "iteration"
                ctx.count("numbers")
                if bad:
                    ctx.find("arguments", label(f), f.where, f"{bad} of the number {ast.unparse(n.args[0] if isinstance(n, ast.Call) else n.value if isinstance(n, ast.Subscript) else n.iter)}")


def run(ctx):
    ctx.explanation = ("Every name read in every function is resolved through its scopes; every local is certainly assigned before it is read on each "
                       "condition-consistent path; every attribute of self, of the problem, history, termination, validator and generator exists; every call of a "
                       "library function, generator method, package function, constructor or own method fits the signature it is bound to; the abstract run of "
                       "every optimizer reads no attribute before it is set.")
    ctx.part("names", names)
    ctx.part("assignments", assigned)
    ctx.part("attributes", attributes)
    ctx.part("members", members)
    ctx.part("libraries", libraries)
    ctx.part("own calls", selfcalls)

    ctx.part("numbers", numbers)

    def runs(ctx):
        res = flow.run_all(ctx)
        flow.report(ctx, res, {"missing-attr", "arity", "none-use"})
    ctx.part("runs", runs)
    ctx.need("functions", 900)
    ctx.need("calls", 2000)
