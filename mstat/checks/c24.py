"""Algorithms take part in a run through the extension points only, and every replacement of one keeps its contract."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, cname
from ..program import Class
from .. import terms as T
from .prims import flat, args_of, calls_to, returns, ME

PROTECTED = ("solve", "get_target", "update_target_for_population", "correct_solution", "check_problem", "check_mode_and_workers", "check_termination",
             "track_optimize_step", "track_optimize_process", "update_global_best_agent", "before_initialization", "after_initialization",
             "generate_population", "set_parameters", "get_parameters")
VALUED = ("solve", "get_target", "update_target_for_population", "correct_solution", "update_global_best_agent", "generate_population", "get_parameters")
POINTS = ("initialize_variables", "initialization", "generate_empty_agent", "generate_agent", "complete_agent", "amend_solution", "before_main_loop", "evolve")
CONTROL = ("problem", "generator", "mode", "n_workers", "history", "termination", "logger", "validator", "nfe_counter", "parameters", "params_name_ordered", "early_stopping")
RUN = ("initialize_variables", "before_initialization", "initialization", "after_initialization", "before_main_loop", "evolve", "update_global_best_agent",
       "track_optimize_step", "check_termination", "track_optimize_process")
GIVEN = S("GIVEN")


def origin(t, p):
    """The subterms a term is computed from, through the results of the calls made on the path."""
    made = {}
    for e, _ in flat(p.eff):
        if e[0] == "call":
            made.setdefault(_head(e[3]), []).extend(e[2])
        elif e[0] == "construct":
            made.setdefault(_head(e[3]), []).extend(e[2])
        elif e[0] == "setitem":
            made.setdefault(_head(e[1]), []).append(e[3])
        elif e[0] == "append":
            made.setdefault(_head(e[1]), []).append(e[2])
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        for y in T.walk(x):
            out.add(y)
            for z in made.get(_head(y), ()) if y[0] in ("res", "new") else ():
                if (y, z) not in seen:
                    seen.add((y, z))
                    todo.append(z[2] if isinstance(z, tuple) and z and z[0] == "kw" else z)
            h = p.content(y) if y[0] == "new" else None
            if h is not None and h != y and (y, h) not in seen:
                seen.add((y, h))
                todo.append(h)
    return out


def _head(t):
    return t[:2] if t is not None and t[0] in ("res", "new") else t


def subclasses(ctx, F):
    return [c for m in ctx.prog.modules.values() for c in m.classes.values() if F.O in c.mro and c is not F.O]


def outside(F, c):
    """Functions whose bodies do not matter: the framework's, and other objects'."""
    return lambda g: g.cls is None or g.cls is F.O and not g.name.startswith("__set") or F.O not in g.cls.mro


# ---------------------------------------------------------------- nothing is replaced
def replaced(ctx, F):
    for c in subclasses(ctx, F):
        ctx.count("classes")
        for n in PROTECTED:
            f = c.methods.get(n)
            if f is None:
                continue
            ctx.count("obligations")
            if not delegates(ctx, F, c, f, n):
                ctx.find("replaced", cname(f), f.where, f"{c.name} replaces {n}, which every run relies on")
        for node, owner in ((c.node, None), *((f.node, f) for f in c.methods.values())):
            body = c.node.body if owner is None else ast.walk(node)
            for x in body:
                if owner is None:
                    names = [t.id for t in getattr(x, "targets", [getattr(x, "target", None)]) if isinstance(t, ast.Name)] if isinstance(x, (ast.Assign, ast.AnnAssign)) else []
                else:
                    names = [x.attr] if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) \
                        and x.value.id == (owner.node.args.args[0].arg if owner.node.args.args else "self") else []
                for n in names:
                    ctx.count("stores")
                    if n in PROTECTED or n in POINTS and owner is not None:
                        if owner is None and isinstance(x, ast.Assign) and ast.unparse(x.value).endswith(f".{n}"):
                            continue            # the inherited method under its own name
                        ctx.find("replaced", f"{c.module.rel.split('/')[-1]}:{c.name}:{n}", f"{c.module.rel}:{c.name}", f"{c.name} binds {n} to something else")
                    elif n in CONTROL and owner is not None:
                        ctx.find("control", cname(owner), owner.where, f"the algorithm assigns self.{n}, which belongs to the run")


def delegates(ctx, F, c, f, n):
    """Every path calls the inherited method once, with the same arguments, and hands back its result."""
    core = F.core(types={"self": c})
    own = {g for k in c.mro[1:] if isinstance(k, Class) for g in k.methods.values() if g.name == n}
    out = outside(F, c)
    core.opaque = lambda g: g in own or out(g)
    ps = paths(ctx, core, f, [ME] + [S(x.arg) for x in f.node.args.args[1:]])
    if ps is None:
        return True
    for p in returns(ps):
        calls = [e for e, loops in flat(p.eff) if e[0] == "call" and e[1] in {f"{g.cls.name}.{n}" for g in own} and not loops]
        if len(calls) != 1:
            return False
        a = [v for k, v in args_of(calls[0]).items() if k != "self"]
        if a != [S(x.arg) for x in f.node.args.args[1:]][:len(a)]:
            return False
        if p.value not in (calls[0][3], NONE) or p.value == NONE and n in VALUED:
            return False
    return True


# ---------------------------------------------------------------- signatures
def signatures(ctx, F):
    for c in subclasses(ctx, F):
        for n in POINTS:
            f = c.methods.get(n)
            base = F.O.methods.get(n)
            if f is None or base is None:
                continue
            ctx.count("obligations")
            if f.kind not in ("method", "instance", None, ""):
                ctx.find("signature", cname(f), f.where, f"{n} is a {f.kind}, not a method")
                continue
            b, a = base.node.args, f.node.args
            nb = len(b.args) - 1
            na = len(a.args) - 1
            required = len(a.args) - 1 - len(a.defaults)
            b_required = nb - len(b.defaults)
            if na < nb and not a.vararg:
                ctx.find("signature", cname(f), f.where, f"{n} accepts {na} argument(s), the run passes {nb}")
            elif required > b_required or any(d is None for d in a.kw_defaults):
                ctx.find("signature", cname(f), f.where, f"{n} needs {required} argument(s), the run may pass {b_required}")


# ---------------------------------------------------------------- contracts
def contracts(ctx, F):
    for c in subclasses(ctx, F):
        for n, rule in (("generate_empty_agent", empty_agent), ("generate_agent", whole_agent), ("complete_agent", complete),
                        ("amend_solution", amend), ("initialization", initial)):
            f = c.methods.get(n)
            if f is not None:
                ctx.count("replacements")
                rule(ctx, F, c, f)
    for n, rule in (("generate_empty_agent", empty_agent), ("generate_agent", whole_agent), ("complete_agent", complete),
                    ("amend_solution", amend), ("initialization", initial)):
        f = F.O.methods.get(n)
        if f is not None:
            ctx.count("replacements")
            rule(ctx, F, F.O, f)


def _run(ctx, F, c, f, args, extra=None, deep=()):
    core = F.core(types={"self": c})
    out = outside(F, c)
    core.opaque = lambda g: g is not f and g not in deep and out(g)

    def setup(st):
        for x in args:
            if x == GIVEN:
                st.truth[cmp_("is", GIVEN, NONE)] = False
        if extra:
            extra(st)
    return paths(ctx, core, f, [ME] + args, setup=setup)


def opaque(t):
    """Parts of the term that could stand for anything."""
    return any(x[0] in ("unk", "lv", "after", "lastiter", "fold", "flat", "future", "dyn") for x in T.walk(t))


def when(p):
    return (" when " + " and ".join(("" if b else "not ") + show(x) for x, b in p.conds[:3])) if p.conds else ""


def empty_agent(ctx, F, c, f):
    init = F.A.methods.get("__init__")
    for given in (True, False):
        ps = _run(ctx, F, c, f, [GIVEN if given else NONE], deep=(init,) if init else ())
        for p in returns(ps or ()):
            ctx.count("obligations")
            v = p.value
            if v == NONE:
                ctx.find("contract", cname(f), f.where, "returns nothing" + when(p))
                continue
            x = p.attr(v, "solution")
            for e, _ in flat(p.eff):
                if e[0] == "construct" and e[3] == v:
                    x = args_of(e).get("solution", x)
            src = origin(x, p)
            if x == NONE:
                ctx.find("contract", cname(f), f.where, f"makes a candidate without a position{when(p)}")
            elif given and x not in (GIVEN, copy(GIVEN)):
                mine = any(e[0] == "call" and _head(e[3]) == _head(x) for e, _ in flat(p.eff))
                if GIVEN not in src and not undecidable(x) or GIVEN not in src and x[0] == "res":
                    ctx.find("contract", cname(f), f.where, f"the candidate does not keep the given position: it gets {show(x)[:80]}{when(p)}")
                elif not mine and not undecidable(x):
                    ctx.find("contract", cname(f), f.where, f"the candidate is not at the given position but at {show(x)[:80]}{when(p)}")
                else:
                    ctx.undec(f"{f.where}: position {show(x)[:80]}")


def whole_agent(ctx, F, c, f):
    ps = _run(ctx, F, c, f, [GIVEN])
    for p in returns(ps or ()):
        ctx.count("obligations")
        v = p.value
        if v == NONE:
            ctx.find("contract", cname(f), f.where, "returns nothing" + when(p))
            continue
        if GIVEN not in origin(v, p):
            ctx.find("contract", cname(f), f.where, f"the candidate is not made from the given position{when(p)}")
        evals = [e for e, _ in flat(p.eff) if e[0] == "call" and e[1].split(".")[-1] == "get_target"]
        if not evals:
            ctx.find("contract", cname(f), f.where, f"the candidate is not evaluated{when(p)}")
        if not any(e[0] == "call" and e[1].split(".")[-1] == "complete_agent" for e, _ in flat(p.eff)) and "complete_agent" in F.O.methods and c is F.O:
            ctx.find("contract", cname(f), f.where, f"the candidate is not completed{when(p)}")


def complete(ctx, F, c, f):
    a = S("candidate")
    ps = _run(ctx, F, c, f, [a])
    for p in returns(ps or ()):
        ctx.count("obligations")
        if p.value != a:
            if p.value == NONE or not undecidable(p.value):
                ctx.find("contract", cname(f), f.where, ("returns nothing" if p.value == NONE else f"returns {show(p.value)[:60]}, not the candidate") + when(p))
            else:
                ctx.undec(f"{f.where}: returns {show(p.value)[:60]}")
        moved = [x for x in ("solution", "target") if p.attr(a, x) not in (attr(a, x), copy(attr(a, x)), None)]
        if len(moved) == 1 and not any(e[0] == "call" and e[1] == "Agent.update" for e, _ in flat(p.eff)):
            ctx.find("contract", cname(f), f.where, f"changes the {moved[0]} of the candidate alone{when(p)}")


def amend(ctx, F, c, f):
    ps = _run(ctx, F, c, f, [GIVEN])
    for p in returns(ps or ()):
        ctx.count("obligations")
        if p.value == NONE:
            ctx.find("contract", cname(f), f.where, "returns nothing" + when(p))
        elif p.value != GIVEN and GIVEN not in origin(p.value, p) and not opaque(p.value):
            ctx.find("contract", cname(f), f.where, f"does not use the given position: returns {show(p.value)[:80]}{when(p)}")


def initial(ctx, F, c, f):
    for given in (True, False):
        def extra(st):
            st.attrs[(ME, "pop")] = GIVEN if given else NONE
            if given:
                st.truth[cmp_("is", GIVEN, NONE)] = False
                st.truth[("app", "bool", GIVEN)] = True
        ps = _run(ctx, F, c, f, [], extra)
        for p in returns(ps or ()):
            ctx.count("obligations")
            t = p.attr(ME, "pop")
            if t == NONE or t is None:
                ctx.find("contract", cname(f), f.where, f"{'starting positions' if given else 'nothing'} given: leaves the population empty{when(p)}")
            elif given and t != GIVEN and GIVEN not in origin(t, p):
                if t[0] in ("res", "map", "cat", "list", "new") or not undecidable(t):
                    ctx.find("contract", cname(f), f.where, f"discards the starting positions: the population becomes {show(t)[:100]}{when(p)}")
                else:
                    ctx.undec(f"{f.where}: population {show(t)[:80]}")


# ---------------------------------------------------------------- the run itself
def protocol(ctx, F):
    """solve() makes one call of each extension point, in the documented order, and one search step per pass."""
    f = method(ctx, F.O, "solve")
    if f is None:
        return
    own = set(RUN) | {"check_problem", "check_mode_and_workers", "generate_population", "get_special_agents"}
    core = F.core(opaque={("Optimizer", n) for n in own}, types={"self": F.O})
    ps = paths(ctx, core, f, [ME] + [S(a.arg) for a in f.node.args.args[1:]])
    setup = ("initialize_variables", "before_initialization", "initialization", "after_initialization", "before_main_loop")
    for p in returns(ps or ()):
        seq = [(e[1].split(".")[-1], bool(loops)) for e, loops in flat(p.eff) if e[0] == "call" and e[1].startswith("Optimizer.")]
        pos = []
        for n in setup:
            ctx.count("obligations")
            at = [i for i, (m, l) in enumerate(seq) if m == n]
            if len(at) != 1 or seq[at[0]][1]:
                ctx.find("protocol", cname(f), f.where, f"{n} is called {len(at)} times{' in every epoch' if at and seq[at[0]][1] else ''}{when(p)}")
            else:
                pos.append(at[0])
        if pos != sorted(pos):
            ctx.find("protocol", cname(f), f.where, f"the stages of a run are called in the order {[seq[i][0] for i in sorted(pos)]}{when(p)}")
        ev = [i for i, (m, l) in enumerate(seq) if m == "evolve"]
        ctx.count("obligations")
        if ev and pos and min(ev) < max(pos):
            ctx.find("protocol", cname(f), f.where, f"a search step is made before the run is set up{when(p)}")
        for e in p.eff:
            for info in e[3] if e[0] == "loop" else ():
                n = sum(x[0] == "call" and x[1].split(".")[-1] == "evolve" for x, _ in flat(info[2]))
                ctx.count("obligations")
                if n != 1 and info[0] not in ("raise", "raises"):
                    ctx.find("protocol", cname(f), f.where, f"evolve is called {n} times in an epoch{when(p)}")


def constructors(ctx, F):
    """Options every optimizer takes reach the base constructor."""
    for c in subclasses(ctx, F):
        f = c.methods.get("__init__")
        if f is None:
            continue
        ctx.count("obligations")
        kw = f.node.args.kwarg
        if kw is None:
            ctx.find("options", cname(f), f.where, "the constructor does not accept the options every optimizer takes")
            continue
        names = {kw.arg}
        for x in ast.walk(f.node):          # options = {**kwargs} or dict(kwargs)
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.value)):
                names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        ok = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__init__"
                 and any(k.arg is None and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(k.value)) for k in x.keywords) for x in ast.walk(f.node))
        if not ok:
            ctx.find("options", cname(f), f.where, "the options every optimizer takes do not reach the base constructor")


def run(ctx):
    ctx.explanation = ("Every class derived from Optimizer is searched for replacements of the run loop, evaluation, correction, counting, tracking and input checks; "
                       "every replacement of an extension point is interpreted on every path and its result compared with the contract; the run loop's calls are "
                       "enumerated on every path.")
    F = Fw(ctx.prog)
    ctx.part("replaced", replaced, F)
    ctx.part("signatures", signatures, F)
    ctx.part("contracts", contracts, F)
    ctx.part("protocol", protocol, F)
    ctx.part("constructors", constructors, F)
    ctx.need("classes", 150)
    ctx.need("replacements", 50)
