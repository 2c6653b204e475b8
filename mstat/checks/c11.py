"""Parallel evaluation is the sequential one: results by position, draws by the coordinator, no side effects in workers, no dependence on the kind or number of workers."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, cname
from ..callgraph import Graph, pools
from .. import terms as T
from . import prims
from .prims import flat, args_of, calls_to, returns, mode_setup, ME

EQUAL = ("swarm", "thread", "process")
DRAWS = ("generator", "random", "default_rng", "RandomState", "rng")
CHANGES = ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "sort", "reverse", "setdefault", "popitem", "fill", "put", "itemset", "resize", "discard")


# ---------------------------------------------------------------- by position, same work in every mode
def pairing(ctx, F):
    prims.batch(ctx, F, "pairing")
    f = method(ctx, F.O, "update_target_for_population")
    if f is None:
        return
    what = {}
    for m in EQUAL:
        core = F.core(opaque={("Optimizer", "get_target"), ("Optimizer", "correct_solution"), ("Optimizer", "amend_solution")}, types={"self": F.O, "pop": ("list", F.A)})
        for p in returns(paths(ctx, core, f, [ME, S("pop")], setup=mode_setup(m))):
            for a, _, _ in calls_to(p, "Optimizer.get_target"):
                what.setdefault(m, set()).add(form(p, a.get("solution", NONE)))
    for m in EQUAL[1:]:
        ctx.count("obligations")
        if what.get(m) and what.get(EQUAL[0]) and what[m] != what[EQUAL[0]] and not any(None in x for x in (what[m], what[EQUAL[0]])):
            a, b = (sorted(map(str, what[k] - what[j]))[:1] for k, j in ((EQUAL[0], m), (m, EQUAL[0])))
            ctx.find("mode-dependence", cname(f), f.where, f"mode {EQUAL[0]} evaluates {''.join(a) or 'the solutions'} where mode {m} evaluates {''.join(b) or 'the solutions'}")


def form(p, t):
    """How the evaluated position is made from a candidate, whatever the position in the population; None when not known."""
    if t[0] == "attr" and t[1][0] == "at" and t[1][1] == S("pop"):
        return f"candidate.{t[2]}"
    if t[0] == "res":
        c = prims.call_of(p, t)
        if c is None:
            return None
        inner = [form(p, v) for k, v in c[1].items() if k != "self"]
        return None if None in inner else f"{c[0].split('.')[-1]}({', '.join(inner)})"
    return None


def effects(ctx, F):
    """The work of a worker, interpreted with the objective opaque: it changes nothing that existed before and draws nothing."""
    u = method(ctx, F.O, "update_target_for_population")
    f = method(ctx, F.O, "get_target")
    if f is None or u is None:
        return
    asked = set()
    for m in ("thread", "process"):
        core = F.core(opaque={("Optimizer", "get_target")}, types={"self": F.O, "pop": ("list", F.A)})
        for p in returns(paths(ctx, core, u, [ME, S("pop")], setup=mode_setup(m))):
            for a, _, _ in calls_to(p, "Optimizer.get_target"):
                asked.add((m, tuple(sorted((k, v) for k, v in a.items() if k not in ("self", "solution") and v[0] == "k"))))
    for m, extra in sorted(asked, key=str):
        core = F.core(opaque={("Problem", "obj_func")}, types={"self": F.O})
        for p in returns(paths(ctx, core, f, [ME, S("x")], kwargs=dict(extra), setup=mode_setup(m))):
            ctx.count("obligations")
            ctx.count("worker_paths")
            for e, _ in flat(p.eff):
                t = e[1] if e[0] in ("setattr", "append", "setitem", "delete") else None
                if t is not None and not own(t):
                    what = f"{show(t)}.{e[2]}" if e[0] == "setattr" else show(t)
                    ctx.find("worker-effect", cname(f), f.where, f"the work done in a worker changes {what[:100]} (mode {m})")
                if e[0] == "call" and ("generator" in e[1] or "random" in e[1].lower() and not e[1].startswith("Problem.obj")):
                    ctx.find("worker-draw", cname(f), f.where, f"the work done in a worker draws at random: {e[1]} (mode {m})")


def own(t):
    """Objects made by the work itself."""
    while t[0] in ("at", "attr"):
        t = t[1]
    return t[0] in ("new", "res", "list", "copy", "app", "cat", "map")


def closures(ctx, F):
    """Everything else a worker may run inside an optimizer: no stores on existing objects, no draws."""
    g = Graph(ctx.prog)
    stop = {F.O.lookup(n) for n in ("get_target", "solve")} | set(F.P.methods.values()) | set(F.T.methods.values())
    for f in ctx.prog.all_funcs():
        for c in pools(ctx.prog, f):
            ctx.count("worker_handovers")
            if f.cls is None or F.O not in f.cls.mro:
                continue
            work = [a for a in list(c.args[:1]) + [k.value for k in c.keywords if k.arg in ("func", "fn")]]
            inline = [x for a in work for x in ast.walk(a) if isinstance(x, ast.Lambda)]
            local = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
            inline += [local[x.id] for a in work for x in ast.walk(a) if isinstance(x, ast.Name) and x.id in local]
            alias = {t.id: a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name)}
            work += [alias[x.id] for a in work for x in ast.walk(a) if isinstance(x, ast.Name) and x.id in alias]
            todo = [(n, f) for n in inline]
            refs = [h for a in work for h in g.refs(a, f)] + [h for n in inline for h in g.refs(n, f)]
            todo += [(h.node, h) for h in g.closure(refs, stop)]
            for node, h in todo:
                ctx.count("worker_functions")
                ctx.count("obligations")
                for line, what in touched(node, h):
                    ctx.find("worker-effect", cname(h), h.where, f"line {line}: {what} in work that {f.where} hands to workers")


def touched(node, f, strict=True):
    args = node.args
    given = {a.arg for a in args.args + args.kwonlyargs + args.posonlyargs}
    made = {y.id for x in ast.walk(node) for y in ast.walk(x) if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem, ast.comprehension))
            and isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    new = (ast.Call, ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set, ast.BinOp)
    fresh = {t.id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.value, new) for t in x.targets if isinstance(t, ast.Name)}
    fresh |= {t.id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Tuple) for g in x.targets if isinstance(g, ast.Tuple) and len(g.elts) == len(x.value.elts)
              for t, v in zip(g.elts, x.value.elts) if isinstance(t, ast.Name) and isinstance(v, new)}
    if not strict:          # what the function is given belongs to its caller
        fresh |= given - {args.args[0].arg if args.args and f.kind != "static" else ""}
        given, made = set(), made | fresh
    glob = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    for x in ast.walk(node):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x.value
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name) and (b.id in fresh and b.id not in given):
                continue
            yield x.lineno, f"{ast.unparse(x)} is changed"
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in glob:
            yield x.lineno, f"{x.id} is changed"
        elif isinstance(x, ast.Attribute) and x.attr in DRAWS:
            yield x.lineno, f"{ast.unparse(x)} is drawn from"
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGES:
            b = x.func.value
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in made and b.id in fresh:
                continue
            yield x.lineno, f"{ast.unparse(x.func.value)} is changed"


def decoding(ctx, F):
    """What an objective calls back in a worker, the decoding of a solution, keeps no state and draws nothing."""
    g = Graph(ctx.prog)
    for h in [F.P.lookup(n) for n in ("decode_solution", "decode_solution_with_bounds") if F.P.lookup(n)]:
        ctx.count("decoding_functions")
        for line, what in touched(h.node, h, False):
            ctx.find("decoding", cname(h), h.where, f"line {line}: {what} while a solution is decoded, which workers do at the same time")
    base = ctx.prog.cls("mealpy.utils.space.BaseVar")
    for m in ctx.prog.modules.values():
        for c in m.classes.values():
            if base not in c.mro or c is base or c.lookup("decode") is None:
                continue
            ctx.count("variable_types")
            ctx.count("obligations")
            for h in reached(g, c, c.lookup("decode")):
                ctx.count("decoding_functions")
                for line, what in touched(h.node, h, False):
                    ctx.find("decoding", f"{m.rel.split('/')[-1]}:{c.name}", h.where, f"line {line}: {what} while a {c.name} is decoded, which workers do at the same time")


def reached(g, c, f):
    """Functions the method f runs on an instance of exactly c."""
    seen, todo = [], [f]
    while todo:
        h = todo.pop()
        if h in seen:
            continue
        seen.append(h)
        for k in g.edges(h):
            if k.cls is None or k.name == "__init__":
                todo.extend([k] if k.cls is None and k.module.name.startswith("mealpy.utils") else [])
            elif k.cls in c.mro:
                own = [c.lookup(k.name)]
                if k.cls is not h.cls and h.cls is not None and h.cls in c.mro and any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(h.node)):
                    own.append(k)
                todo.extend(x for x in own if x is not None)
    return seen


# ---------------------------------------------------------------- nothing else depends on the mode
def constants(prog, c):
    out = {}
    for k in reversed([k for k in c.mro if hasattr(k, "attrs")]):
        for n, v in k.attrs.items():
            try:
                out[n] = ast.literal_eval(v)
            except ValueError:
                if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
                    pass
    return out


def evaluate(e, mode, env, alias):
    """The value of an expression over the mode; raises KeyError when it depends on anything else."""
    if isinstance(e, ast.Constant):
        return e.value
    if is_mode(e, alias):
        return mode
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.attr in env:
        return env[e.attr]
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return [evaluate(x, mode, env, alias) for x in e.elts]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return not evaluate(e.operand, mode, env, alias)
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = evaluate(e.left, mode, env, alias), evaluate(e.comparators[0], mode, env, alias)
        o = type(e.ops[0]).__name__
        return {"Eq": a == b, "NotEq": a != b, "Is": a == b, "IsNot": a != b, "In": lambda: a in b, "NotIn": lambda: a not in b}[o] if o not in ("In", "NotIn") \
            else (a in b) == (o == "In")
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith", "lower", "strip") :
        return getattr(evaluate(e.func.value, mode, env, alias), e.func.attr)(*[evaluate(x, mode, env, alias) for x in e.args])
    raise KeyError(ast.unparse(e))


def is_mode(e, alias):
    return isinstance(e, ast.Attribute) and e.attr == "mode" and isinstance(e.value, ast.Name) and e.value.id == "self" or isinstance(e, ast.Name) and e.id in alias


def one_mode(ctx, F):
    g = Graph(ctx.prog)
    u, chk = F.O.lookup("update_target_for_population"), F.O.lookup("check_mode_and_workers")
    inner = {u, chk}
    grew = True
    while grew:         # private helpers of the two functions that are decided separately
        grew = False
        for f in list(F.O.methods.values()):
            if f not in inner and f.name.startswith("_"):
                by = [h for h in ctx.prog.all_funcs() if f in g.edges(h)]
                if by and all(h in inner for h in by):
                    inner.add(f)
                    grew = True
    for c in [F.O] + prims_subclasses(ctx, F):
        env = None
        for f in c.methods.values():
            if f in inner:
                continue
            alias = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and is_mode(x.value, ()) for t in x.targets if isinstance(t, ast.Name)}
            up = None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == "n_workers" and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    ctx.count("mode_reads")
                    if not handed(ctx.prog, f, x):
                        ctx.find("worker-count", cname(f), f.where, f"line {x.lineno}: the search depends on the number of workers")
                if not is_mode(x, alias) or isinstance(x.ctx, ast.Store):
                    continue
                ctx.count("mode_reads")
                ctx.count("obligations")
                if env is None:
                    env = constants(ctx.prog, c)
                if up is None:
                    up = {k: p for p in ast.walk(f.node) for k in ast.iter_child_nodes(p)}
                e = x
                while isinstance(up.get(e), (ast.Compare, ast.List, ast.Tuple)) or isinstance(up.get(e), ast.UnaryOp) and isinstance(up[e].op, ast.Not) \
                        or isinstance(up.get(e), ast.Attribute) and isinstance(up.get(up[e]), ast.Call):
                    e = up[e]
                    if isinstance(e, ast.Attribute):
                        e = up[e]
                if isinstance(up.get(e), ast.Assign) and e is x or isinstance(up.get(e), (ast.FormattedValue, ast.JoinedStr)):
                    continue
                try:
                    vals = [evaluate(e, m, env, alias) for m in EQUAL]
                except (KeyError, TypeError, AttributeError):
                    if logged(up, e):
                        continue
                    ctx.undec(f"{f.where}: line {x.lineno}: use of the mode in {ast.unparse(e)[:80]}")
                    continue
                if any(v != vals[0] for v in vals):
                    if e is x and logged(up, e):
                        continue
                    if e is x:
                        ctx.undec(f"{f.where}: line {x.lineno}: use of the mode in {ast.unparse(up.get(e, e))[:80]}")
                        continue
                    ctx.find("mode-dependence", cname(f), f.where, f"line {x.lineno}: {ast.unparse(e)[:100]} tells the modes {', '.join(EQUAL)} apart")


def prims_subclasses(ctx, F):
    return [c for m in ctx.prog.modules.values() for c in m.classes.values() if F.O in c.mro and c is not F.O]


def logged(up, e):
    while e in up and not isinstance(e, ast.stmt):
        e = up[e]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("info", "warning", "debug", "error"):
            return True
    return False


def handed(prog, f, x):
    """The number of workers goes to the pool and nowhere else."""
    from ..callgraph import is_pool
    for c in ast.walk(f.node):
        if isinstance(c, ast.Call) and any(a is x for a in list(c.args) + [k.value for k in c.keywords]) and is_pool(prog, f, c):
            return True
    return False


def population(ctx, F):
    """generate_population makes the same draws, in the same order, in all three modes."""
    f = method(ctx, F.O, "generate_population")
    if f is None:
        return
    seqs = {}
    for m in EQUAL:
        core = F.core(opaque={("Optimizer", n) for n in ("generate_empty_agent", "generate_agent", "complete_agent", "update_target_for_population", "get_target")}, types={"self": F.O})
        seqs[m] = []
        for p in returns(paths(ctx, core, f, [ME, S("n")], setup=mode_setup(m))):
            seqs[m].append((tuple(str(c) for c in p.conds), tuple((e[1], tuple(str(l[0]) for l in loops)) for e, loops in flat(p.eff) if e[0] == "call")))
        ctx.count("obligations")
    for m in EQUAL[1:]:
        if seqs[m] != seqs[EQUAL[0]]:
            a, b = [[x[0].split(".")[-1] for x in s[-1][1]] for s in (seqs[EQUAL[0]], seqs[m]) if s] or ((), ())
            ctx.find("mode-dependence", cname(f), f.where, f"a population is made by {' '.join(a)} in mode {EQUAL[0]} and by {' '.join(b)} in mode {m}")


def run(ctx):
    F = Fw(ctx.prog)
    ctx.part("pairing", pairing, F)
    ctx.part("effects of workers", effects, F)
    ctx.part("functions given to workers", closures, F)
    ctx.part("decoding", decoding, F)
    ctx.part("dependence on the mode", one_mode, F)
    ctx.part("populations", population, F)
    ctx.need("worker_paths", 1)
    ctx.need("mode_reads", 300)
    ctx.need("worker_handovers", 1)
    ctx.explanation = ("The function that evaluates a population is reduced to terms in every mode: each candidate must receive the value of its own solution, by position, whatever "
                       "order workers finish in. The work handed to workers is interpreted and searched for changes to existing objects and random draws. Every read of the mode or "
                       "the number of workers in an algorithm must give the same result for swarm, thread and process, and populations must be made by the same sequence of calls.")
