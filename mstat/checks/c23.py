"""Invalid requests are rejected before the search starts: what every entry point accepts and refuses, decided in finite models of its arguments."""
from ..core import GiveUp
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, cname
from ..model import Model, NdArray, TYPES
from ..program import Class
from . import c08
from .c08 import NoValue, Rejected, INF
from .c13 import Var
from .prims import flat, args_of, ME

MODES = ("process", "thread", "swarm", "single")


class Rows(list, NdArray):
    """A 2D array, row by row."""


class Things:
    """Model values that are instances of the analysed classes."""

    def __init__(self, prog):
        self.prog, self.made = prog, {}

    def kind(self, c):
        if c not in self.made:
            bases = tuple(self.kind(b) for b in c.bases if isinstance(b, Class)) or (object,)
            self.made[c] = type(c.name, bases, {})
        return self.made[c]

    def table(self):
        t = dict(TYPES)
        for m in self.prog.modules.values():
            for c in m.classes.values():
                t[c.qual] = self.kind(c)
        return t


class Request(Model):
    """A model in which the validator stands for its specification and classes for themselves."""

    def __init__(self, env, events, resolve, types, cpus=8):
        super().__init__(env, events, self.answer, resolve)
        self.types, self.cpus = types, cpus
        self.rejected = False

    def ev(self, t, b=()):
        try:
            return super().ev(t, b)
        except NoValue:
            return c08.ev(t, self.env)          # operations on sets

    def value(self, t, b):
        if t[0] == "ext" and t[1] in self.types:
            return self.types[t[1]]
        if t[0] == "cls" and len(t) > 1 and t[1] in self.types:
            return self.types[t[1]]
        return super().value(t, b)

    def app(self, t, b):
        if t[1] == "isinstance" and len(t) == 4:
            v, ks = self.value(t[2], b), self.value(t[3], b)
            ks = ks if isinstance(ks, (tuple, list)) else (ks,)
            if not all(isinstance(k, type) for k in ks):
                raise NoValue(t)
            return isinstance(v, tuple(ks))
        if t[1] == "type" and len(t) == 3:
            v = self.value(t[2], b)
            if isinstance(v, Rows):
                return NdArray
        if t[1] == "shape" and len(t) == 3:
            v = self.value(t[2], b)
            if isinstance(v, (Rows, NdArray)):
                return (len(v), len(v[0])) if v and isinstance(v[0], (list, tuple)) else (len(v),)
            raise Rejected
        return super().app(t, b)

    def answer(self, m, name, pos, kw, b, idx):
        a = {k: self.value(v, b) for k, v in kw.items() if k != "self"}
        last = name.split(".")[-1]
        if name in ("os.cpu_count", "multiprocessing.cpu_count"):
            return self.cpus
        if name.startswith("Validator.check_"):
            return specified(last, a)
        raise NoValue(name)


def specified(n, a):
    """What the validator is specified to return (C08 decides that it does)."""
    v = a.get("value", a.get("values"))
    b = a.get("bound", a.get("bounds"))
    num = isinstance(v, (int, float)) or hasattr(v, "denominator")
    if n in ("check_int", "check_float"):
        if num and (b is None or c08.in_bound(v, b)):
            return int(v) if n == "check_int" else v
        raise Rejected
    if n == "check_str":
        if isinstance(v, str) and (b is None or v in b):
            return v
        raise Rejected
    if n == "check_bool":
        if isinstance(v, bool) and v in (b or (True, False)):
            return v
        raise Rejected
    if n == "check_list_tuple":
        if isinstance(v, (list, tuple)) and len(v) >= 1:
            return list(v)
        raise Rejected
    if n == "check_is_instance":
        if isinstance(a.get("class_type"), type):
            if isinstance(v, a["class_type"]):
                return v
            raise Rejected
    raise NoValue(n)


def verdict(ps, env, types, cpus=8):
    """(kind, path, model) in the model: 'raise', 'return', or None when not determined."""
    hits = []
    for p in ps:
        m = Request(env, [e for e, _ in flat(p.eff)], p.res, types, cpus)
        try:
            ok = True
            for c, b in p.conds:
                if bool(m.ev(c)) != b:
                    ok = False
                    break
            if not ok:
                continue
        except Rejected:
            hits.append(("raise", p, m))
            continue
        except (NoValue, RecursionError):
            hits.append((None, p, m))
            continue
        kind = p.kind
        if kind != "raise":
            for e, loops in flat(p.eff):
                if e[0] == "call" and (e[1].startswith("Validator.check_") or e[1] in ("os.cpu_count",)):
                    try:
                        m.ev(e[3])
                    except Rejected:
                        kind = "raise"
                        break
                    except NoValue:
                        kind = None
        hits.append((kind, p, m))
    kinds = {h[0] for h in hits}
    if len(kinds) != 1:
        return None, None, None
    if kinds == {"return"} and len(hits) > 1:
        return "return", None, None
    return hits[0]


class Ask:
    def __init__(self, ctx, F, rule):
        self.ctx, self.F, self.rule = ctx, F, rule
        self.types = Things(ctx.prog).table()
        self.things = Things(ctx.prog)
        self.types = self.things.table()
        self.bad = set()

    def a(self, c):
        return self.things.kind(c)()

    def case(self, f, ps, env, want, what, cpus=8):
        """One request: want is 'raise' or 'return'."""
        if ps is None:
            return None
        self.ctx.count("obligations")
        self.ctx.count("requests")
        k, p, m = verdict(ps, env, self.types, cpus)
        if k is None:
            self.ctx.undec(f"{f.where}: {what}: outcome not determined")
            return None
        if k != want and (f, want) not in self.bad:
            self.bad.add((f, want))
            self.ctx.find(self.rule, cname(f), f.where, f"{what} is {'accepted' if want == 'raise' else 'rejected'}")
        return (p, m) if k == "return" == want else None

    def stored(self, f, r, obj, name, want, what):
        if r is None or r[0] is None:
            return
        p, m = r
        self.ctx.count("obligations")
        try:
            v = m.ev(p.res(p.attr(obj, name)))
        except (NoValue, Rejected):
            self.ctx.undec(f"{f.where}: {what}: {show(p.attr(obj, name))[:80]}")
            return
        if v != want and (f, name) not in self.bad:
            self.bad.add((f, name))
            self.ctx.find(self.rule, cname(f), f.where, f"{what}: the run uses {v!r}")


def value_text(v):
    n = type(v).__name__
    return repr(v) if type(v).__module__ == "builtins" else ("an array " + str(list(v)) if isinstance(v, Rows) else f"an instance of {n}")


# ---------------------------------------------------------------- the solver's own requests
def problem(ctx, F):
    f = method(ctx, F.O, "check_problem")
    if f is None:
        return
    q = Ask(ctx, F, "problem")
    core = F.core(opaque={("Problem", "set_seed"), ("Problem", "__init__"), ("Logger", "create_logger"), ("Logger", "__init__"), ("History", "__init__")},
                  types={"self": F.O})
    names = params(f)
    if len(names) < 2:
        ctx.undec(f"{f.where}: parameters {names}")
        return
    ps = paths(ctx, core, f, [ME] + [S(n) for n in names])
    base = ctx.prog.cls("mealpy.utils.space.BaseVar")
    for v, want in ((q.a(F.P), "return"), ({"bounds": 1, "minmax": "min"}, "return"), (None, "raise"), ("problem", "raise"), (3, "raise"), (0, "raise"), ("", "raise"),
                    ((), "raise"), ([1, 2], "raise"), ([], "raise"), (q.a(F.Te), "raise")) + (((q.a(base), "raise"),) if base else ()):
        q.case(f, ps, {S(names[0]): v, S(names[1]): 1}, want, f"{value_text(v)} given as problem")


def params(f):
    return [a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.arg not in ("self", "cls")]


def mode_and_workers(ctx, F):
    f = method(ctx, F.O, "check_mode_and_workers")
    if f is None:
        return
    q = Ask(ctx, F, "mode")
    core = F.core(opaque={("Validator", n) for n in F.V.methods}, types={"self": F.O})
    names = params(f)
    if len(names) != 2:
        ctx.undec(f"{f.where}: parameters {names}")
        return
    ps = paths(ctx, core, f, [ME] + [S(n) for n in names])
    mode, work = S(names[0]), S(names[1])
    par = attr(ME, "is_parallelizable")
    for v in ("parallel", "Single", "", "multi", "threads", None, 0, 1, ("single",), True):
        for n in (None, 4):
            for flag in (True, False):
                q.case(f, ps, {mode: v, work: n, par: flag}, "raise", f"mode {v!r}")
    for v in MODES:
        for flag in (True, False):
            for n in (None, 2, 3, 7):
                if v == "process" and n == 8:
                    continue
                r = q.case(f, ps, {mode: v, work: n, par: flag}, "return", f"mode {v!r} with n_workers={n}")
                q.stored(f, r, ME, "mode", v if flag or v in ("swarm", "single") else "single", f"mode {v!r} was asked for")
                if flag and v in ("process", "thread") and n is not None:
                    q.stored(f, r, ME, "n_workers", n, f"{n} workers were asked for")
    for v, cap in (("process", lambda c: min(61, c - 1)), ("thread", lambda c: min(32, c + 4))):
        for cpus in (4, 8, 100):
            top = cap(cpus)
            for n in (top + 1, top + 50, 1, 0, -1, -4, "4", (2,), INF):
                q.case(f, ps, {mode: v, work: n, par: True}, "raise", f"n_workers={n!r} in mode {v!r} on {cpus} cores", cpus)
            for n in (2, top):
                q.case(f, ps, {mode: v, work: n, par: True}, "return", f"n_workers={n!r} in mode {v!r} on {cpus} cores", cpus)


def termination(ctx, F):
    f = method(ctx, F.O, "check_termination")
    if f is not None:
        q = Ask(ctx, F, "termination")
        core = F.core(opaque={("Termination", "__init__"), ("Termination", "set_start_values")}, types={"self": F.O})
        ps = paths(ctx, core, f, [ME, K("start"), S("term"), NONE])
        for v, want in ((None, "return"), (q.a(F.Te), "return"), ({"max_epoch": 10}, "return"), ("10", "raise"), (10, "raise"), (0, "raise"), ("", "raise"), ([], "raise"),
                        ((), "raise"), ([10], "raise"), (False, "raise"), (True, "raise"), (q.a(F.P), "raise")):
            q.case(f, ps, {S("term"): v}, want, f"{value_text(v)} given as termination")
        # an empty dictionary names no criterion: it has to reach the constructor, which refuses it
        k, p, m = verdict(ps or (), {S("term"): {}}, q.types)
        ctx.count("obligations")
        if k == "return" and p is not None and not any(e[0] == "construct" and e[1] == "Termination" for e, _ in flat(p.eff)):
            ctx.find("termination", cname(f), f.where, "an empty dictionary given as termination is taken for no termination")
    f = method(ctx, F.Te, "__init__")
    if f is None:
        return
    q = Ask(ctx, F, "termination")
    checks = {("Validator", n) for n in F.V.methods}
    core = F.core(opaque=checks | {("Logger", "create_logger"), ("Logger", "__init__")}, types={"self": F.Te})
    names = params(f)[:4]
    want = {"max_epoch": ((1, 10 ** 7), (0, -1, 10 ** 7 + 1, "5", (5,))), "max_fe": ((10, 10 ** 9), (9, 0, 10 ** 9 + 1, "100")),
            "max_time": ((0.1, 10 ** 6), (0, 0.05, -1, 10 ** 6 + 1, "3")), "max_early_stop": ((1, 10 ** 5), (0, -2, 10 ** 5 + 1, "7"))}
    if set(names) != set(want):
        ctx.undec(f"{f.where}: criteria {names}")
        return
    from .c12 import paths_kw
    ps = paths_kw(ctx, core, f, {n: S(n) for n in names}, None)
    none = {S(n): None for n in names}
    q.case(f, ps, none, "raise", "a termination without any criterion")
    for n, (good, bad) in want.items():
        for v in good:
            q.case(f, ps, {**none, S(n): v}, "return", f"{n}={v}")
        for v in bad:
            q.case(f, ps, {**none, S(n): v}, "raise", f"{n}={v!r}")
            other = "max_epoch" if n != "max_epoch" else "max_fe"
            q.case(f, ps, {**none, S(n): v, S(other): 50}, "raise", f"{n}={v!r} beside {other}=50")


def starts(ctx, F):
    f = method(ctx, F.O, "before_initialization")
    if f is None:
        return
    q = Ask(ctx, F, "starting-solutions")
    names = params(f)
    core = F.core(opaque={("Optimizer", n) for n in ("generate_empty_agent", "generate_agent", "update_target_for_population", "correct_solution")}, types={"self": F.O})
    N, D = 3, 2
    row = lambda i: tuple(float(i + j) for j in range(D))
    good = [row(i) for i in range(N)]
    bad = [("2 positions for 3 candidates", good[:2]), ("4 positions for 3 candidates", good + [row(5)]), ("no position", []),
           ("positions with 1 of 2 coordinates", [(1.,)] * N), ("positions with 3 of 2 coordinates", [(1., 2., 3.)] * N), ("a flat list of numbers", [1., 2., 3.]),
           ("a list whose last position has 1 of 2 coordinates", good[:2] + [(1.,)]), ("a list whose second position has 3 of 2 coordinates", [row(0), (1., 2., 3.), row(2)]),
           ("a list whose last position is a number", good[:2] + [4.])]
    for mode in MODES:
        base = {attr(ME, "pop_size"): N, attr(attr(ME, "problem"), "n_dims"): D, attr(ME, "mode"): mode}
        sym = None
        for what, v, want in [("no starting positions", None, "return"), ("a text", "abc", "raise"), ("a number", 3, "raise"), ("a dictionary", {0: row(0), 1: row(1), 2: row(2)}, "raise")] + \
                [("a list of 3 positions", good, "return"), ("a tuple of 3 positions", tuple(good), "return"), ("an array of 3 positions", Rows(good), "return")] + \
                [(w, v, "raise") for w, v in bad] + [(w + " (as tuple)", tuple(v), "raise") for w, v in bad[:2]] + [(w + " (as array)", Rows(v), "raise") for w, v in bad[:5]]:
            if sym is None:
                sym = paths(ctx, core, f, [ME, S(names[0])])
                if sym is None:
                    return
            env = {**base, S(names[0]): v}
            ps = sym
            if verdict(ps, env, q.types)[0] is None and isinstance(v, (list, tuple)) and not isinstance(v, Rows):
                lit = ("list" if isinstance(v, list) else "tup",) + tuple((("tup",) + tuple(K(x) for x in r)) if isinstance(r, tuple) else K(r) for r in v)
                try:
                    ps = core.run(f, [ME, lit], setup=lambda st: [st.attrs.__setitem__((ME, "pop_size"), K(N)), st.attrs.__setitem__((ME, "mode"), K(mode))])
                except (GiveUp, RecursionError) as e:
                    ctx.undec(f"{f.where}: {e}")
                    continue
            q.case(f, ps, env, want, f"{what} given as starting positions (population of {N}, {D} dimensions, mode {mode})")


def order(ctx, F):
    """solve() makes every check, with the caller's arguments, before the population exists."""
    f = method(ctx, F.O, "solve")
    if f is None:
        return
    own = ("check_problem", "check_mode_and_workers", "check_termination", "before_initialization", "initialization", "initialize_variables", "after_initialization",
           "before_main_loop", "evolve", "update_global_best_agent", "track_optimize_step", "track_optimize_process", "generate_population", "get_special_agents")
    core = F.core(opaque={("Optimizer", n) for n in own}, types={"self": F.O})
    names = params(f)
    ps = paths(ctx, core, f, [ME] + [S(n) for n in names])
    want = (("check_problem", {"problem": "problem", "seed": "seed"}), ("check_mode_and_workers", {"mode": "mode", "n_workers": "n_workers"}),
            ("check_termination", {"termination": "termination"}), ("before_initialization", {"starting_solutions": "starting_solutions"}))
    for p in ps or ():
        seq = [(e[1].split(".")[-1], args_of(e), loops) for e, loops in flat(p.eff) if e[0] == "call" and e[1].startswith("Optimizer.")]
        first = next((i for i, (n, a, l) in enumerate(seq) if n in ("initialization", "generate_population", "evolve", "before_main_loop", "after_initialization")), len(seq))
        place = {}
        for n, need in want:
            ctx.count("obligations")
            at = [i for i, (m, a, l) in enumerate(seq[:first]) if m == n and (n != "check_termination" or a.get("mode", K("start")) == K("start"))]
            if not at:
                later = any(m == n for m, a, l in seq) and n != "check_termination"
                ctx.find("order", cname(f), f.where, f"{n} is {'called only after the search has started' if later else 'not called before the search starts'}"
                         + (" when " + " and ".join(("" if b else "not ") + show(c) for c, b in p.conds[:3]) if p.conds else ""))
                continue
            place[n] = at[0]
            a = seq[at[0]][1]
            for x, s in need.items():
                v = a.get(x, NONE)
                if v != S(s) and s in names:
                    from ..spec import undecidable
                    if undecidable(v):
                        ctx.undec(f"{f.where}: {n} is given {show(v)[:60]} as {x}")
                    else:
                        ctx.find("order", cname(f), f.where, f"{n} is given {show(v)} as {x}, not the caller's {s}")
        b = place.get("before_initialization")
        if b is not None and any(place.get(n, -1) > b for n in ("check_problem", "check_mode_and_workers", "check_termination")):
            ctx.find("order", cname(f), f.where, "the starting positions are evaluated before the other arguments are checked")


def names(ctx, F):
    """Unknown hyper-parameter names are refused whole."""
    f = method(ctx, F.O, "set_parameters")
    if f is None:
        return
    q = Ask(ctx, F, "parameter-names")
    core = F.core(types={"self": F.O}, pure={("Optimizer", "get_name")}, opaque={("Optimizer", "get_name")})
    n = params(f)
    ps = paths(ctx, core, f, [ME, S(n[0])])
    have = {attr(ME, "parameters"): {"epoch": 10, "pop_size": 20, "a": 3}}
    for v in ({"b": 1}, {"epoch": 5, "b": 1}, {"Epoch": 5}, {"": 1}):
        q.case(f, ps, {S(n[0]): v, **have}, "raise", f"set_parameters({v})")


# ---------------------------------------------------------------- problems and variables
def bounds(ctx, F):
    f = method(ctx, F.P, "set_bounds")
    base = ctx.prog.cls("mealpy.utils.space.BaseVar")
    if f is None or base is None:
        return
    q = Ask(ctx, F, "bounds")
    core = F.core(types={"self": F.P})
    n = params(f)
    ps = paths(ctx, core, f, [ME, S(n[0])])
    var = q.a(base)
    for v, want in ((var, "return"), ("abc", "raise"), (3, "raise"), (None, "raise"), ({"a": var}, "raise"), ({var}, "raise"), (q.a(F.Te), "raise")):
        q.case(f, ps, {S(n[0]): v}, want, f"{value_text(v)} given as bounds")
    three = [S("v0"), S("v1"), S("v2")]
    for tag in ("list", "tup"):
        try:
            qs = core.run(f, [ME, (tag,) + tuple(three)])
        except (GiveUp, RecursionError) as e:
            ctx.undec(f"{f.where}: {e}")
            continue
        for vals, want in (((var, q.a(base), q.a(base)), "return"), ((var, 3, var), "raise"), ((var, var, "x"), "raise"), ((None, var, var), "raise"),
                           (((0, 1), (0, 1), (0, 1)), "raise"), ((var, var, var), "return")):
            q.case(f, qs, dict(zip(three, vals)), want, f"a {'list' if tag == 'list' else 'tuple'} holding {', '.join(value_text(v) for v in vals)} given as bounds")


DECLARED = {
    "FloatVar": ([{"lb": 1, "ub": (2, 3)}, {"lb": (1, 2), "ub": 3}, {"lb": (1, 2), "ub": (3,)}, {"lb": (1,), "ub": (3, 4)}, {"lb": "1", "ub": "2"}, {"lb": None, "ub": 1},
                  {"lb": 1, "ub": None}, {"lb": {1: 2}, "ub": {1: 3}}]),
    "IntegerVar": ([{"lb": 1, "ub": (2, 3)}, {"lb": (1, 2), "ub": 3}, {"lb": (1, 2), "ub": (3,)}, {"lb": (1,), "ub": (3, 4)}, {"lb": "1", "ub": "2"}, {"lb": None, "ub": 1},
                    {"lb": 1, "ub": None}]),
    "StringVar": ([{"valid_sets": 3}, {"valid_sets": None}, {"valid_sets": "ab"}, {"valid_sets": (("a", "b"), ("c",))}, {"valid_sets": (("a", "b"), ())},
                   {"valid_sets": {"a": 1}}]),
    "CategoricalVar": ([{"valid_sets": 3}, {"valid_sets": None}, {"valid_sets": "ab"}, {"valid_sets": (("a", "b"), ("c",))}, {"valid_sets": {"a": 1}}]),
    "PermutationVar": ([{"valid_set": 3}, {"valid_set": None}, {"valid_set": "ab"}, {"valid_set": (1,)}, {"valid_set": ()}, {"valid_set": (1, 2, 1)}, {"valid_set": ("a", "a")},
                        {"valid_set": {1: 2, 2: 3}}]),
    "BinaryVar": ([{"n_vars": v} for v in (0, -1, 1.5, "2", None, (2,))]),
    "BoolVar": ([{"n_vars": v} for v in (0, -1, 1.5, "2", None, (2,))]),
    "TransferBinaryVar": ([{"n_vars": v} for v in (0, -1, "2", None)] + [{"n_vars": 2, "tf_func": v} for v in ("tanh", "vstf_05", "", None, "VSTF_01", 1)]),
    "TransferBoolVar": ([{"n_vars": v} for v in (0, -1, "2", None)] + [{"n_vars": 2, "tf_func": v} for v in ("tanh", "vstf_05", "", None, "VSTF_01", 1)]),
}


def variables(ctx, F):
    for name, cases in DECLARED.items():
        c = ctx.prog.cls("mealpy.utils.space." + name)
        if c is None:
            ctx.undec(f"{name} not found where the package keeps it")
            continue
        ctx.count("variable_types")
        ctx.part(f"variable {name}", variable, F, c, cases)


def variable(ctx, F, c, cases):
    q = Ask(ctx, F, "variable")
    var = Var(ctx, F, c)
    for m in cases:
        if not set(m) <= set(var.params):
            ctx.undec(f"{var.f.where}: no parameter {', '.join(set(m) - set(var.params))}")
            continue
        what = f"{c.name}({', '.join(f'{k}={v!r}' for k, v in m.items())})"
        q.case(var.f, var.ps, var.env(m), "raise", what)


# ---------------------------------------------------------------- the tuner and the multitask utility
def utilities(ctx, F):
    prog = ctx.prog
    tuner, multi = prog.cls("mealpy.tuner.Tuner"), prog.cls("mealpy.multitask.Multitask")
    checks = {("Validator", n) for n in F.V.methods}
    if tuner is None or multi is None:
        ctx.undec("Tuner or Multitask not found where the package keeps it")
        return
    for c, good in ((tuner, lambda q: {"algorithm": q.a(F.O), "param_grid": {"a": [1]}}), (multi, lambda q: {"algorithms": [q.a(F.O)], "problems": [q.a(F.P)]})):
        f = method(ctx, c, "__init__")
        q = Ask(ctx, F, "utility")
        core = F.core(opaque=checks, types={"self": c})
        ps = paths(ctx, core, f, [ME], {n: S(n) for n in params(f)})
        env = {S(n): None for n in params(f)}
        g = {S(k): v for k, v in good(q).items()}
        q.case(f, ps, {**env, **g}, "return", f"{c.name} with valid arguments")
        for k in g:
            for v in (None, 3, "abc"):
                q.case(f, ps, {**env, **g, k: v}, "raise", f"{c.name}({k[1]}={v!r})")
        if c is tuner:
            for v in ([q.a(F.O)], q.a(F.P)):
                q.case(f, ps, {**env, **g, S("algorithm"): v}, "raise", f"{value_text(v)} given to Tuner as algorithm")
        else:
            for k in g:
                q.case(f, ps, {**env, **g, k: []}, "raise", f"Multitask({k[1]}=[])")
    f = method(ctx, multi, "check_input")
    if f is not None:
        q = Ask(ctx, F, "utility")
        core = F.core(types={"self": multi})
        ps = paths(ctx, core, f, [ME, K("modes"), S("values"), K("str")])
        size = {attr(ME, "n_algorithms"): 2, attr(ME, "m_problems"): 3}
        for v, want in ((None, "return"), (["a"], "return"), (["a"] * 2, "return"), (["a"] * 3, "return"), (["a"] * 6, "return"), (["a"] * 4, "raise"), (["a"] * 5, "raise"),
                        (["a"] * 7, "raise"), ([], "raise"), ("single", "raise"), (3, "raise"), ({"a": 1}, "raise"), (("a", "b", "c", "d"), "raise")):
            q.case(f, ps, {S("values"): v, **size}, want, f"{v!r} for 2 algorithms and 3 problems")


# ---------------------------------------------------------------- the validator
def ranges(ctx, F):
    c08.validator(ctx, F)


def run(ctx):
    F = Fw(ctx.prog)
    for n, fn in (("validator", ranges), ("problem", problem), ("mode", mode_and_workers), ("termination", termination), ("starting solutions", starts),
                  ("order", order), ("parameter names", names), ("bounds", bounds), ("variables", variables), ("utilities", utilities)):
        ctx.part(n, fn, F)
    ctx.need("requests", 150)
