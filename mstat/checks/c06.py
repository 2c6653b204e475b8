"""A seed determines the run: where random sources are created, which seed they get, and which other sources of variation are consulted."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, check, cname, undecidable
from ..program import Class
from ..flow import run_all, report
from .. import terms as T
from .prims import returns, ME

# external names whose value differs between two runs of the same program
GLOBAL_RANDOM = ("numpy.random.", "random.", "secrets.", "uuid.", "scipy.stats.")
CLOCK = ("time.", "datetime.", "timeit.")
PROCESS = ("os.getpid", "os.urandom", "os.times", "os.environ", "os.getenv", "os.listdir", "os.scandir", "os.getppid", "glob.", "threading.get_ident",
           "threading.current_thread", "threading.active_count", "platform.", "socket.", "gc.", "sys.getrefcount", "tempfile.", "psutil.",
           "multiprocessing.current_process", "os.getloadavg")
CTORS = {"numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState", "numpy.random.SeedSequence", "numpy.random.PCG64",
         "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64", "random.Random"}
QMC = {"LatinHypercube", "Sobol", "Halton", "PoissonDisk", "MultinomialQMC", "MultivariateNormalQMC"}
HARMLESS = {"time.sleep", "datetime.timedelta", "datetime.timezone", "random.Random", "numpy.random.Generator"} | CTORS
BUILTINS = {"id", "hash", "object"}


class Names(ast.NodeVisitor):
    """Qualified external names used in one function or module body, with the imports visible there."""

    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.local = [{}]
        self.func = []
        self.out = []           # (qualified name, node, function stack, parent call or None, in annotation)
        self.call = {}

    def qual(self, e):
        if isinstance(e, ast.Name):
            for d in reversed(self.local):
                if e.id in d:
                    return d[e.id]
            r = self.prog.resolve_name(self.mod, e.id)
            if isinstance(r, str):
                return r
            if isinstance(r, tuple) and r[0] == "global":
                return self.alias(r)
            if r is None and e.id in BUILTINS and e.id not in self.mod.globals:
                return "builtins." + e.id
            return None
        if isinstance(e, ast.Attribute):
            b = self.qual(e.value)
            if b:
                return f"{b}.{e.attr}"
            r = self.prog.resolve_expr(self.mod, e)
            return r if isinstance(r, str) else None
        return None

    def alias(self, g):
        """A module-level name bound to an external name (r = np.random)."""
        _, m, name = g
        v = m.globals.get(name)
        v = getattr(v, "value", v)
        if isinstance(v, (ast.Name, ast.Attribute)) and m is self.mod:
            if isinstance(v, ast.Name) and v.id == name:
                return None
            return self.qual(v)
        return None

    def visit_Import(self, n):
        for a in n.names:
            if a.asname:
                self.local[-1][a.asname] = a.name
            else:
                self.local[-1][a.name.split(".")[0]] = a.name.split(".")[0]

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module and not n.module.startswith("mealpy"):
            for a in n.names:
                self.local[-1][a.asname or a.name] = f"{n.module}.{a.name}"

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        self.func.append(n)
        params = {a.arg: None for a in n.args.args + n.args.kwonlyargs}
        self.local.append(params)
        for b in n.body:
            self.visit(b)
        self.local.pop()
        self.func.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.local.append({a.arg: None for a in n.args.args})
        self.visit(n.body)
        self.local.pop()

    def visit_ClassDef(self, n):
        self.func.append(n)
        for b in n.body:
            self.visit(b)
        self.func.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_arg(self, n):
        pass

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            if isinstance(t, ast.Name) and self.func:
                q = self.qual(n.value) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                if q or t.id in self.local[-1]:
                    self.local[-1][t.id] = q
            else:
                self.visit(t)

    def visit_Call(self, n):
        self.call[id(n.func)] = n
        self.generic_visit(n)

    def visit_Attribute(self, n):
        q = self.qual(n)
        if q:
            self.out.append((q, n, list(self.func), self.call.get(id(n))))
        else:
            if n.attr == "rvs":     # a frozen distribution
                self.out.append(("scipy.stats.frozen.rvs", n, list(self.func), self.call.get(id(n))))
            self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            q = self.qual(n)
            if q:
                self.out.append((q, n, list(self.func), self.call.get(id(n))))


def seedlike(e, fnode):
    """Does the argument of a random source derive from a seed or from an existing per-run source?"""
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute)}
    if any("seed" in n.lower() or n in ("generator", "rng") for n in names):
        return True
    if fnode is not None and isinstance(fnode, ast.FunctionDef):
        # a parameter or a local computed from one
        params = {a.arg for a in fnode.args.args + fnode.args.kwonlyargs} - {"self", "epoch"}
        if names & params:
            return True
        for st in ast.walk(fnode):
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in st.targets):
                got = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(st.value) if isinstance(x, ast.Attribute)}
                if any("seed" in n.lower() or n in ("generator", "rng") for n in got) or got & params:
                    return True
    return False


def owner(m, stack):
    fn = [f for f in stack if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]
    cl = [c for c in stack if isinstance(c, ast.ClassDef)]
    name = ".".join(([cl[-1].name] if cl else []) + ([fn[0].name] if fn else []))
    return f"{m.rel.split('/')[-1]}:{name or '<module>'}", fn[0] if fn else None, cl[-1] if cl else None


def census(ctx, F):
    """Every use of an external source of variation in the package."""
    prog = ctx.prog
    opt = {c.name: c for m in prog.modules.values() for c in m.classes.values() if F.O in c.mro}
    for m in prog.modules.values():
        v = Names(prog, m)
        for st in m.tree.body:
            v.visit(st)
        ctx.count("modules")
        for q, n, stack, call in v.out:
            ctx.count("names")
            what, fn, cl = owner(m, stack)
            where = f"{m.rel}:{n.lineno}"
            if q.startswith("np."):
                q = "numpy." + q[3:]
            if q in CTORS:
                if call is None:
                    continue
                ctx.count("sources")
                algo = cl is not None and cl.name in opt and opt[cl.name].module is m and opt[cl.name] is not F.O
                arg = (call.args or [None])[0] or next((k.value for k in call.keywords if k.arg in ("seed", "x", None)), None)
                if q == "numpy.random.Generator":
                    continue            # wraps a bit generator, which is judged itself
                if arg is None or isinstance(arg, ast.Constant) and arg.value is None:
                    if reseeded(prog, m, cl, fn):
                        continue
                    ctx.find("unseeded-source", what, where, f"`{ast.unparse(call)}` creates a random source that the seed does not determine")
                elif not seedlike(arg, fn):
                    if isinstance(arg, ast.Constant):
                        ctx.find("unseeded-source", what, where, f"`{ast.unparse(call)}` creates a random source that ignores the seed of the run")
                    else:
                        ctx.undec(f"{where}: seed of `{ast.unparse(call)}`")
                elif fn is None:
                    ctx.find("unseeded-source", what, where, f"`{ast.unparse(call)}` creates a random source once per process")
                elif algo and not uses(arg, ("generator", "rng", "seed")):
                    ctx.undec(f"{where}: `{ast.unparse(call)}` in an algorithm")
                continue
            if q in HARMLESS:
                continue
            if q.startswith("scipy.stats.qmc.") and call is not None and q.split(".")[-1] in QMC:
                ctx.count("sources")
                src = next((k.value for k in call.keywords if k.arg in ("seed", "rng", None)), None)
                if src is None or isinstance(src, ast.Constant):
                    ctx.find("unseeded-source", what, where, f"`{ast.unparse(call)}` creates a random source that the seed does not determine")
                elif not seedlike(src, fn):
                    ctx.undec(f"{where}: seed of `{ast.unparse(call)}`")
                continue
            if q.startswith("scipy."):
                if call is not None and q.split(".")[-1] == "rvs" or q.split(".")[-1] in ("rvs",):
                    ctx.count("sources")
                    if call is None or not any(k.arg == "random_state" or k.arg is None for k in call.keywords):
                        ctx.find("global-random", what, where, f"`{ast.unparse(call or n)}` draws from numpy's global random state")
                    else:
                        rs = next(k.value for k in call.keywords if k.arg == "random_state" or k.arg is None)
                        if isinstance(rs, ast.Constant):
                            ctx.find("global-random", what, where, f"`{ast.unparse(call)}` does not draw from a source of the run")
                continue
            if any(q.startswith(p) for p in GLOBAL_RANDOM):
                ctx.find("global-random", what, where, f"uses {q}: a random state the seed of the run does not determine")
            elif any(q.startswith(p) for p in CLOCK):
                if clock_ok(prog, F, m, cl, fn, opt):
                    ctx.count("clock_reads")
                else:
                    ctx.find("clock", what, where, f"uses {q} in the search")
            elif any(q.startswith(p) or q == p.rstrip(".") for p in PROCESS):
                if search_code(F, m, cl, opt):
                    ctx.find("process-state", what, where, f"uses {q} in the search")
            elif q in ("builtins.id", "builtins.hash") and call is not None:
                if fn is not None and fn.name in ("__hash__", "__repr__", "__str__") or not search_code(F, m, cl, opt):
                    continue
                ctx.find("object-identity", what, where, f"`{ast.unparse(call)}` in the search depends on the process, not on the seed")


def uses(e, names):
    return any(isinstance(x, ast.Attribute) and x.attr in names or isinstance(x, ast.Name) and any(n in x.id for n in names) for x in ast.walk(e))


def search_code(F, m, cl, opt):
    """Code that takes part in the search (not plotting, export, logging, tuning or multitask drivers)."""
    if cl is not None and cl.name in opt:
        return True
    return m.name.startswith("mealpy.utils.") and ".visualize" not in m.name and m.name.split(".")[-1] not in ("io", "logger", "history") \
        or "_based" in m.name


def clock_ok(prog, F, m, cl, fn, opt):
    """Clock readings are allowed where runs are timed: in the base optimizer's functions that make no random draw, and outside the search."""
    if cl is not None and cl.name == "Optimizer" and m is F.O.module and fn is not None:
        return not any(isinstance(x, ast.Attribute) and x.attr in ("generator", "rng") and isinstance(x.ctx, ast.Load)
                       and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(fn))
    return not search_code(F, m, cl, opt) or m.name.endswith(".termination")


def reseeded(prog, m, cl, fn):
    """A variable's first source, replaced by the seeded one when the variable joins a problem."""
    if cl is None or fn is None or fn.name != "__init__":
        return False
    c = m.classes.get(cl.name)
    return c is not None and any(k.lookup_setter("seed") is not None for k in [c]) and F_is_var(c)


def F_is_var(c):
    return any(k.name == "BaseVar" for k in c.mro if isinstance(k, Class))


def stores(ctx, F):
    """The per-run sources are replaced only where runs start (and where variables are seeded)."""
    prog = ctx.prog
    opt = set(prog.optimizers())
    for m in prog.modules.values():
        for c in m.classes.values():
            var = F_is_var(c)
            if c not in opt and not var:
                continue
            for f in list(c.methods.values()) + list(c.setters.values()):
                for n in ast.walk(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in (("generator", "rng") if c in opt else ("generator",)):
                                if c.name == "BaseVar":
                                    continue
                                v = getattr(n, "value", None)
                                if isinstance(v, ast.Constant) and v.value is None and f.name == "__init__":
                                    continue
                                if isinstance(v, ast.Call) and v.args and seedlike(v.args[0], f.node):
                                    ctx.undec(f"{f.where}: replaces {ast.unparse(x)} with {ast.unparse(v)}")
                                    continue
                                ctx.find("source-replaced", f"{m.rel.split('/')[-1]}:{c.name}.{f.name}", f"{m.rel}:{n.lineno}",
                                         f"`{ast.unparse(n)}` replaces the random source of the run")


def is_call(p, t, name, args):
    """Is the term the result of this call?"""
    for e in every(p.eff):
        if e[0] in ("call", "construct") and e[3] == t:
            return e[1] == name and tuple(p.res(a) if isinstance(a, tuple) else a for a in e[2]) == args
    return False


def every(eff):
    for e in eff:
        if e[0] == "loop":
            for info in e[3]:
                yield from every(info[2])
        yield e


def start(ctx, F):
    """check_problem: the sources of the run are created from the given seed; the problem gets the seed."""
    f = method(ctx, F.O, "check_problem")
    if f is None:
        return
    names = {"create_logger"}
    op = {("History", "__init__"), ("Logger", "__init__"), ("Problem", "__init__"), ("Problem", "set_seed")}
    seed = S("seed")
    for kind in ("instance", "dict"):
        def setup(st):
            if kind == "dict":
                st.truth[("app", "isinstance", S("problem"), ("cls", "mealpy.utils.problem.Problem"))] = False
        core = F.core(opaque=op, types={"self": F.O, **({"problem": F.P} if kind == "instance" else {})})
        ps = paths(ctx, core, f, [ME, S("problem"), seed], setup=setup)
        for p in returns(ps):
            for a, ctor in (("generator", "numpy.random.default_rng"), ("rng", "random.Random")):
                ctx.count("obligations")
                t = p.attr(ME, a)
                made = [e for e in every(p.eff) if e[0] in ("call", "construct") and e[3] == t]
                if t == attr(ME, a):
                    ctx.find("run-seed", cname(f), f.where, f"self.{a} is not created anew for the run ({kind} problem)")
                elif not made:
                    if not undecidable(t):
                        ctx.find("run-seed", cname(f), f.where, f"self.{a} of the run is {show(t)}, not a source made from the seed")
                    else:
                        ctx.undec(f"{f.where}: self.{a} is {show(t)[:100]}")
                else:
                    e = made[0]
                    args = [x[2] if x[0] == "kw" else x for x in e[2]]
                    if args != [seed]:
                        if not args or not any(contains(x, seed) for x in args):
                            ctx.find("run-seed", cname(f), f.where, f"self.{a} is created by {e[1]}({', '.join(map(show, args))}), which ignores the seed")
                        elif any(undecidable(x) for x in args):
                            ctx.undec(f"{f.where}: {e[1]}({', '.join(map(show, args))})"[:200])
                        else:
                            ctx.find("run-seed", cname(f), f.where, f"self.{a} is created by {e[1]}({', '.join(map(show, args))}), should be made from the seed itself")
            ctx.count("obligations")
            if kind == "instance":
                ok = [e for e in every(p.eff) if e[0] == "call" and e[1] == "Problem.set_seed"
                      and any(x == ("kw", "seed", seed) or x == seed for x in e[2])]
                if not ok and not p.attr(S("problem"), "seed") == seed:
                    ctx.find("problem-seed", cname(f), f.where, "a given Problem object does not get the seed of the run")
            else:
                cons = [e for e in every(p.eff) if e[0] == "construct" and e[1] == "Problem"]
                if len(cons) != 1:
                    ctx.undec(f"{f.where}: construction of the problem from a dictionary")
                    continue
                if any(e[0] == "call" and e[1].endswith("update") and any(contains(x, seed) for x in e[2] if isinstance(x, tuple)) for e in every(p.eff)):
                    continue            # problem.update(seed=seed)
                if not any(contains(x, seed) for x in cons[0][2] if isinstance(x, tuple)) and not any(
                        e[0] == "call" and e[1] == "Problem.set_seed" for e in every(p.eff)):
                    ctx.find("problem-seed", cname(f), f.where, "the problem built from the dictionary does not get the seed of the run")


def variables(ctx, F):
    """Problem and BaseVar: the seed reaches the source of every variable."""
    BV = ctx.prog.cls("mealpy.utils.space.BaseVar")
    st = BV.lookup_setter("seed")
    if st is None:
        ctx.undec("BaseVar.seed setter not found")
    else:
        core = F.core(types={"self": BV})
        for p in returns(paths(ctx, core, st, [ME, S("value")])):
            ctx.count("obligations")
            t = p.attr(ME, "generator")
            if t == attr(ME, "generator"):
                ctx.find("variable-seed", cname(st), st.where, "seeding a variable does not replace its random source"
                         + (f" when {show(p.conds[0][0])} is {p.conds[0][1]}" if p.conds else ""))
            elif not is_call(p, t, "numpy.random.default_rng", (S("value"),)) and not undecidable_call(p, t):
                ctx.find("variable-seed", cname(st), st.where, "the source of a seeded variable is not made from the seed")
    seed = S("seed")
    f = method(ctx, F.P, "set_seed")
    if f is not None:
        core = F.core(types={"self": F.P}, attr_types={("Problem", "_bounds"): ("list", BV)})
        for p in returns(paths(ctx, core, f, [ME, seed])):
            check(ctx, "problem-seed", f, p.attr(ME, "seed"), seed, "seed of the problem")
            each_seeded(ctx, f, p, attr(ME, "_bounds"), seed, "seeding a problem")
    f = method(ctx, F.P, "set_bounds")
    if f is not None:
        own = attr(ME, "seed")
        core = F.core(types={"self": F.P, "bounds": ("list", BV)})

        def setup(st):
            st.attrs[(ME, "seed")] = own
            st.truth[("app", "isinstance", S("bounds"), ("cls", "mealpy.utils.space.BaseVar"))] = False
        for p in returns(paths(ctx, core, f, [ME, S("bounds")], setup=setup)):
            each_seeded(ctx, f, p, S("bounds"), own, "building a problem")
        core = F.core(types={"self": F.P, "bounds": BV})
        for p in returns(paths(ctx, core, f, [ME, S("bounds")])):
            ctx.count("obligations")
            t = p.attr(S("bounds"), "generator")
            if not is_call(p, t, "numpy.random.default_rng", (own,)):
                if t == attr(S("bounds"), "generator"):
                    ctx.find("variable-seed", cname(f), f.where, "a single variable does not get the problem's seed")
                else:
                    ctx.undec(f"{f.where}: source of a single variable {show(t)}")
    f = method(ctx, F.P, "__init__")
    if f is not None:
        core = F.core(opaque={("Problem", "set_bounds"), ("Logger", "__init__"), ("Problem", "set_seed")}, types={"self": F.P})
        for p in returns(paths(ctx, core, f, [ME, S("bounds")], kwargs={"seed": seed})):
            ctx.count("obligations")
            got = p.attr(ME, "seed")
            done, at_call = False, None
            for e in every(p.eff):
                if e[0] == "setattr" and e[1] == ME and e[2] == "seed":
                    at_call = e[3]
                if e[0] == "call" and e[1] in ("Problem.set_bounds", "Problem.set_seed"):
                    done = done or at_call == seed or any(x == ("kw", "seed", seed) for x in e[2])
            if not done:
                if any(e[0] == "setattr" and e[2] in ("dyn", None) for e in every(p.eff)) or undecidable(got):
                    ctx.undec(f"{f.where}: seed given to the problem")
                else:
                    ctx.find("problem-seed", cname(f), f.where, "the variables are set up before the problem knows its seed")


def undecidable_call(p, t):
    return t[0] not in ("res", "new", "k", "attr")


def each_seeded(ctx, f, p, seq, seed, what):
    ctx.count("obligations")
    for e in p.eff:
        if e[0] != "loop":
            continue
        for o, conds, eff, upd, val in e[3]:
            if o == "raise":
                continue
            hits = [x for x in eff if x[0] == "setattr" and x[2] == "generator"]
            for x in hits:
                made = [y for y in eff if y[0] == "call" and y[3] == x[3]]
                ok = made and made[0][1] == "numpy.random.default_rng" and made[0][2] == (seed,)
                if ok and over_all(x[1], seq, e):
                    return
                if made and made[0][2] != (seed,) and not any(undecidable(a) for a in made[0][2] if isinstance(a, tuple)):
                    ctx.find("variable-seed", cname(f), f.where, f"{what} seeds a variable with {', '.join(map(show, made[0][2])) or 'nothing'}, "
                             f"not with the seed")
                    return
                if ok:
                    ctx.find("variable-seed", cname(f), f.where, f"{what} seeds {show(x[1])} for each of {show(e[1])[:80]}: not every variable")
                    return
    if any(e[0] == "loop" for e in p.eff) and not any(x[0] == "setattr" and x[2] in ("generator", "seed", "_seed") for x in every(p.eff)):
        ctx.find("variable-seed", cname(f), f.where, f"{what} does not pass the seed to the variables")
    else:
        ctx.undec(f"{f.where}: seed of each variable")


def over_all(target, seq, loop):
    """The loop touches at(seq, i) for every position i of the sequence."""
    it = loop[1]
    if it == ("while",):
        return False
    return length(it) == length(seq) and (target == at(seq, loop[2]) or target == at(it, loop[2]) == at(seq, loop[2]) or target == at(seq, at(it, loop[2])))


def run(ctx):
    ctx.explanation = ("Resolved census of every external source of variation used in the package (global random state, unseeded sources, clock, process "
                       "state, object identity), canonical terms of the functions that create and seed the sources of a run, and interpretation of "
                       "every search step for draws outside those sources and for unordered collections.")
    F = Fw(ctx.prog)
    ctx.part("census", census, F)
    ctx.part("stores", stores, F)
    ctx.part("start", start, F)
    ctx.part("variables", variables, F)
    res = run_all(ctx)
    report(ctx, res, {"global-random", "time-use", "unordered"})
    ctx.need("obligations", 8)
    ctx.need("names", 2000)
    ctx.need("classes", 200)
