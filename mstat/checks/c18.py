"""Multitask: every trial of every algorithm on every problem runs with its own settings and is recorded where it belongs."""
import ast
import itertools
import math
from fractions import Fraction

from ..core import GiveUp
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, cname
from ..play import Obj, Player, Table, Series, UNKNOWN, NoValue, Rejected, arm, rank
from .prims import ME

SIZES = ((1, 1), (2, 3), (3, 2), (2, 2))
EXPORTS = {"csv": "to_csv", "json": "to_json", "dataframe": "to_pickle"}


class Loc:
    """Rows of a table by position; f is what an unfolded access reads."""

    def __init__(self, table):
        self.table = table

    def at(self, i):
        rows = self.table.rows()
        if isinstance(i, (list, tuple)):
            return Table({k: [c[int(j)] for j in i] for k, c in self.table.cols.items()})
        return rows[int(i)]


class Tool:
    """What the two utilities have in common: the optimizers they drive and the files they write."""

    def __init__(self, ctx, F, cls):
        self.ctx, self.F, self.cls = ctx, F, cls
        self.cache = {}
        self.solves, self.exports, self.pools, self.objects, self.log = [], [], [], [], []
        self.solve_params = [a.arg for a in F.O.lookup("solve").node.args.args]

    # ---- the analysed functions
    def paths(self, f, names, fixed=None):
        k = f.qual
        if k not in self.cache:
            core = arm(self.F.core(types={"self": self.cls}))
            core.opaque = lambda g: g.cls is None or not (g.cls is self.cls or g.cls in self.cls.mro)
            given = {n: S(n) for n in names}
            a = [] if f.kind == "static" else [ME]
            try:
                ps = core.run(f, a, {k: v for k, v in given.items()})
            except (GiveUp, RecursionError) as e:
                raise NoValue(f"{f.where}: {e}")
            if not ps:
                raise NoValue(f"{f.where}: no path")
            self.cache[k] = (core, ps)
            self.ctx.count("functions")
            self.ctx.count("paths", len(ps))
        return self.cache[k]

    def run(self, me, name, **args):
        """Unfolds one call of a method on the configuration."""
        f = self.cls.lookup(name)
        if f is None:
            raise NoValue(f"{name} not found")
        core, ps = self.paths(f, [a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.arg != "self"])
        env = {S(k): v for k, v in args.items()}
        for a, d in self.defaults(f):
            if a not in args:
                env[S(a)] = d
        if f.kind != "static":
            env[ME] = me
        p = Player(core, env, self)
        self.ctx.count("unfoldings")
        r = p.play(ps)
        self.ctx.count("events", p.steps)
        return r, p

    @staticmethod
    def defaults(f):
        import ast
        a = f.node.args
        for x, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            try:
                v = ast.literal_eval(d)
            except (ValueError, TypeError):
                continue
            yield x.arg, v

    # ---- the world
    def optimizer(self, name):
        """An optimizer that has been used before."""
        return self.obj("Optimizer", name=name, g_best=self.obj("Agent", target=self.obj("Target", fitness=Fraction(-999999))),
                        history=self.obj("History", list_global_best_fit=[Fraction(-999998)]), problem=self.obj("Problem", name="earlier"))

    def obj(self, cls, **f):
        o = Obj(cls, **f)
        self.objects.append(o)
        return o

    def snapshot(self):
        return [(o, dict(o.f)) for o in self.objects]

    def restore(self, state):
        for o, f in state:
            o.f = f

    def isinst(self, v, k):
        if k[0] == "ext":
            n = k[1].split(".")[-1]
            t = {"dict": dict, "list": list, "tuple": tuple, "str": str, "int": int, "float": float, "Mapping": dict, "MutableMapping": dict,
                 "Iterable": (list, tuple, dict, str), "Sequence": (list, tuple, str), "ndarray": (), "bool": bool,
                 "Number": (int, float), "Collection": (list, tuple, dict, str), "Sized": (list, tuple, dict, str)}.get(n)
            if t is None:
                raise NoValue(k)
            return isinstance(v, t)
        if k[0] == "cls":
            return isinstance(v, Obj) and v.cls == k[1].split(".")[-1]
        raise NoValue(k)

    def attr(self, v, name):
        if isinstance(v, Table):
            if name == "shape":
                return (len(v.rows()), len(v.cols))
            if name in ("loc", "iloc"):
                return Loc(v)
            if name == "columns":
                return list(v.cols)
            if name in v.cols:
                return Series(v.cols[name])
        if isinstance(v, list) and name in ("values", "iloc"):
            return v
        raise NoValue(name)

    def app(self, p, t, b):
        f = t[1]
        if f in ("deepcopy", "pycopy", "arrcopy", "copy.deepcopy", "copy.copy"):
            v = p.value(t[2], b)
            return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
        if f in ("float", "str") and len(t) == 3 and t[2][0] == "k" and isinstance(kv(t[2]), str):
            return float(kv(t[2])) if f == "float" else kv(t[2])
        if f == "getattr" and len(t) == 4:
            return ("method", p.value(t[2], b), p.value(t[3], b))
        a = t[2:]
        if f == "zip*":
            v = p.value(a[0], b)
            return list(zip(*v))
        if f == "product" and not any(x[0] == "kw" for x in a):
            l = []
            for x in a:
                l += p.value(x[1], b) if x[0] == "star" else [p.value(x, b)]
            return list(itertools.product(*l))
        if f == "reduce" and a[0] in (("ext", "operator.mul"), ("ext", "operator.add")):
            l = list(p.value(a[1], b)) + ([] if len(a) < 3 else [p.value(a[2], b)])
            if not l:
                raise Rejected
            return math.prod(l) if a[0][1].endswith("mul") else sum(l)
        if f == "divmod":
            return divmod(p.value(a[0], b), p.value(a[1], b))
        if f == "/" and len(t) == 4:
            x, y = p.value(a[0], b), p.value(a[1], b)
            if isinstance(x, str) and isinstance(y, str):
                return f"{x}/{y}"
        if f == "join":
            return p.value(t[2], b).join(p.value(t[3], b))
        if f in ("mean", "std", "median", "var", "numpy.mean", "numpy.std"):
            v = p.value(t[2], b)
            kw = {x[1]: p.value(x[2], b) for x in t[3:] if x[0] == "kw"}
            return spread(f.split(".")[-1], v, kw)
        if f == "mask":
            v, c = p.value(t[2], b), p.value(t[3], b)
            if isinstance(v, Table):
                return Table({k: [x for x, y in zip(col, c) if y] for k, col in v.cols.items()})
            if isinstance(v, list):
                return Series(x for x, y in zip(v, c) if y)
        if f == "*" and len(t) == 4:
            x, y = p.value(t[2], b), p.value(t[3], b)
            if isinstance(x, list) and isinstance(y, (int, Fraction)):
                return x * int(y)
        return None

    def call(self, p, name, args, kw):
        last = name.split(".")[-1]
        if last == "solve" and args and isinstance(args[0], Obj):
            a = dict(zip(self.solve_params, args))
            a.update(kw)
            return self.solve(args[0], a)
        if last == "get_name" and args and isinstance(args[0], Obj):
            return args[0].f.get("name", UNKNOWN)
        if last.startswith("check_"):
            return self.validate(last, args, kw)
        if last == "cpu_count":
            return 8
        if last == "as_completed" and args and isinstance(args[0], list):
            return args[0][::-1]        # any order is possible
        if name == ".result" and len(args) == 1:
            return args[0]
        if last == "pad" and len(args) > 1 and isinstance(args[0], list) and isinstance(args[1], tuple) and "constant_values" in kw:
            return [kw["constant_values"]] * int(args[1][0]) + args[0] + [kw["constant_values"]] * int(args[1][1])
        if name in ("pandas.DataFrame", "pandas.DataFrame.from_dict", "pandas.DataFrame.from_records"):
            d = args[0] if args else kw.get("data")
            if d is UNKNOWN:
                raise NoValue("table")
            return Table.of(d)
        if name == "pandas.Series" and len(args) == 1 and isinstance(args[0], list):
            return Series(args[0])
        if last in ("to_csv", "to_json", "to_pickle", "to_excel"):
            t, path = args[0], args[1] if len(args) > 1 else next(iter(kw.values()), None)
            if not isinstance(t, Table) or not isinstance(path, str):
                raise NoValue(name)
            self.exports.append((last, {k: list(v) for k, v in t.cols.items()}, path))
            return None
        r = self.series(last, args, kw)
        if r is not None:
            return r
        if name == "dyn":
            m = args[0]
            if isinstance(m, tuple) and m[:1] == ("method",) and isinstance(m[2], str) and isinstance(m[1], Obj):
                f = self.cls.lookup(m[2])
                if f is None:
                    raise Rejected
                names = [a.arg for a in f.node.args.args if a.arg != "self"]
                (_, v), _ = self.run(m[1], m[2], **{**dict(zip(names, args[1:])), **kw})
                return v
            raise NoValue(name)
        if last in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
            self.pools.append(last)
            return self.obj(last)
        if name.startswith("new "):
            return self.obj(name[4:])
        if name == "pathlib.Path" and len(args) == 1:
            return args[0]
        if name == "os.path.join":
            if any(not isinstance(a, str) for a in args):
                raise NoValue(name)
            return "/".join(args)
        return UNKNOWN

    def series(self, last, args, kw):
        """Operations on columns and tables."""
        v = args[0] if args else None
        if last in ("mean", "std", "median", "var") and isinstance(v, (Table, list)) and not args[1:]:
            return spread(last, v, kw)
        if last == "arange" and all(isinstance(a, (int, Fraction)) for a in args):
            return list(range(*map(int, args)))
        if last == "apply" and isinstance(v, list) and len(args) > 1 and args[1] in (tuple, "builtins.tuple") and kw.get("axis") == 1:
            return Series(zip(*v))
        if last == "apply" and isinstance(v, Table) and len(args) > 1 and args[1] in (tuple, "builtins.tuple") and kw.get("axis") == 1:
            return Series(tuple(r.values()) for r in v.rows())
        if not isinstance(v, list):
            if isinstance(v, Table) and last == "sort_values":
                by = args[1] if len(args) > 1 else kw.get("by")
                by = [by] if isinstance(by, str) else list(by)
                asc = kw.get("ascending", True)
                asc = list(asc) if isinstance(asc, (list, tuple)) else [asc] * len(by)
                rows = v.rows()
                for k, a in list(zip(by, asc))[::-1]:
                    rows = sorted(rows, key=lambda r: r[k], reverse=not a)
                return Table.of(rows)
            if isinstance(v, Table) and last == "head":
                return Table({k: c[:int(args[1])] for k, c in v.cols.items()})
            return None
        if any(x is UNKNOWN for x in v):
            raise NoValue(last)
        if last == "rank":
            return rank(v, kw.get("method", "average"), kw.get("ascending", True))
        have = [x for x in v if not nan(x)]
        if last in ("min", "max") and have:
            return (min if last == "min" else max)(have)
        if last in ("idxmin", "argmin", "idxmax", "argmax") and have:
            return v.index((min if last.endswith("min") else max)(have))
        if last in ("tolist", "to_list", "to_numpy"):
            return list(v)
        return None

    def validate(self, name, args, kw):
        a = dict(zip(("self", "name", "value", "bound"), args))
        a.update(kw)
        v, bound = a.get("value", UNKNOWN), a.get("bound", a.get("class_type"))
        if v is UNKNOWN:
            return UNKNOWN
        if name == "check_int":
            if not isinstance(v, (int, Fraction)) or isinstance(bound, list) and not bound[0] <= v <= bound[1]:
                raise Rejected
            return int(v)
        if name == "check_str":
            if not isinstance(v, str) or isinstance(bound, list) and v not in bound:
                raise Rejected
            return v
        if name == "check_list_tuple":
            if not isinstance(v, (list, tuple)) or not v:
                raise Rejected
            return list(v)
        if name in ("check_is_instance", "check_bool", "check_float"):
            return v
        return UNKNOWN

    def solve(self, alg, a):
        if any(v is UNKNOWN for v in a.values()):
            raise NoValue("arguments of solve")
        n = len(self.solves) + 1
        best = self.obj("Agent", target=self.obj("Target", fitness=self.fitness(n, a)), run=n)
        # a run replaces the history of the optimizer
        alg.f["history"] = self.obj("History", list_global_best_fit=[Fraction(1000 * n + 100 - i) for i in range(self.length(n, a))])
        alg.f["problem"] = self.installed(a.get("problem"))
        alg.f["g_best"] = best
        self.solves.append((alg, a, n, dict(alg.f.get("set", {})), best, alg.f["history"].f["list_global_best_fit"]))
        return best

    def fitness(self, n, a):
        return Fraction(n * 7 % 31) + Fraction(n, 100)

    def length(self, n, a):
        return 2 + n % 3

    def installed(self, p):
        if isinstance(p, Obj) and p.cls == "Problem":
            return p
        if isinstance(p, dict):
            return self.obj("Problem", name=p.get("name", "P"))
        raise NoValue("problem")


def spread(f, v, kw):
    """Mean or spread of a table given by its columns, row by row, or of one column."""
    if isinstance(v, Table):
        v = [Series(c) for c in v.cols.values()]
    if v and all(isinstance(c, Series) for c in v):
        if kw.get("axis") not in (0, 1):
            raise NoValue(f)
        rows = [list(r) for r in zip(*v)]
        return Series(spread(f, r, {}) for r in rows)
    if not v or any(not isinstance(x, (int, float, Fraction)) for x in v) or set(kw) - {"ddof"}:
        raise NoValue(f)
    m = sum(v) / Fraction(len(v))
    if f == "mean":
        return m
    if f == "median":
        s = sorted(v)
        return (s[(len(s) - 1) // 2] + s[len(s) // 2]) / Fraction(2)
    if len(v) == 1:
        return float("nan")
    r = sum((x - m) ** 2 for x in v) / Fraction(len(v) - 1)
    return r if f == "var" else math.sqrt(r)


class Case:
    def __init__(self, n, m, trials=2, terms=None, modes=None, jobs=None, save_as="csv", convergence=False, verbose=False, stranger=False, same=""):
        self.__dict__.update(locals())

    def __str__(self):
        s = f"{self.n} algorithms, {self.m} problems, {self.trials} trials"
        for k in ("terms", "modes"):
            if getattr(self, k):
                s += f", {'terminations' if k == 'terms' else k} given as a list of {getattr(self, k)}"
        if self.jobs is not None:
            s += f", n_jobs={self.jobs}"
        if self.save_as != "csv":
            s += f", save_as={self.save_as}"
        return s + (", save_convergence" if self.convergence else "") + (", one entry that is no optimizer" if self.stranger else "") \
            + (f", two {self.same} of one name" if self.same else "")


def cases(thorough):
    for n, m in SIZES:
        for t in (1, 3):
            yield Case(n, m, t, convergence=True)
        sizes = sorted({1, n, m, n * m})
        for k in sizes:
            yield Case(n, m, 2, terms=k)
            yield Case(n, m, 2, modes=k)
            yield Case(n, m, 2, terms=k, modes=sizes[-1], verbose=True)
    for j in (0, 1, 2, 5):
        yield Case(2, 2, 3, jobs=j, convergence=True)
        yield Case(2, 3, 2, jobs=j, terms=6, modes=3, verbose=True)
    for s in EXPORTS:
        for c in (False, True):
            yield Case(2, 2, 2, save_as=s, convergence=c)
    yield Case(3, 2, 2, stranger=True)
    yield Case(2, 2, 2, same="algorithms", convergence=True)
    yield Case(2, 3, 2, same="problems", convergence=True)


def given(k, n, m, make):
    """The list a user gives, and the setting of each pair it stands for."""
    if k is None:
        return None, None
    l = [make(i) for i in range(k)]
    if k == 1:
        return l, lambda a, p: l[0]
    if k == n:
        return l, lambda a, p: l[a]
    if k == m:
        return l, lambda a, p: l[p]
    return l, lambda a, p: l[a * m + p]


def nan(v):
    return isinstance(v, float) and v != v


def judge(ctx, F, cls, c, f, seen):
    W = Tool(ctx, F, cls) if seen is None else seen
    W.solves, W.exports, W.pools, W.objects = [], [], [], []
    algs = [W.optimizer("twin" if c.same == "algorithms" and a < 2 else f"alg{a}") for a in range(c.n)]
    if c.stranger:
        algs[1] = W.obj("Stranger", name="stranger")
    # a problem is known by the name the run gives it
    probs = [W.obj("Problem", name=f"prob{p}") if (p + c.trials) % 2 and c.same != "problems" else {"name": "twin" if c.same == "problems" and p < 2 else f"prob{p}"}
             for p in range(c.m)]
    names = [p["name"] if isinstance(p, dict) else p.f["name"] for p in probs]
    # distinct objects even when equal: a dictionary is told apart by its position
    terms, term_of = given(c.terms, c.n, c.m, lambda i: W.obj("Termination", name=f"term{i}"))
    modes, mode_of = given(c.modes, c.n, c.m, lambda i: ("thread", "process", "swarm", "single")[i % 4])
    me = W.obj("Multitask")
    bad = lambda rule, msg: ctx.find(rule, cname(f), f.where, f"with {c}: {msg}")
    try:
        W.run(me, "__init__", algorithms=list(algs), problems=list(probs), terminations=terms, modes=modes, n_workers=4)
    except Rejected:
        return bad("setting", "the constructor fails")
    try:
        (kind, _), pl = W.run(me, "execute", n_trials=c.trials, n_jobs=c.jobs, save_path="out", save_as=c.save_as, save_convergence=c.convergence, verbose=c.verbose)
    except Rejected:
        return bad("fails", "execute fails")
    if kind != "return":
        return bad("fails", "execute raises an error")
    ctx.count("configurations")
    runs = {}
    for alg, a, n, _, best, conv in W.solves:
        ctx.count("obligations")
        ai = [i for i, x in enumerate(algs) if x is alg]
        pi = [i for i, x in enumerate(probs) if x is a.get("problem")]
        if not ai or not pi:
            return bad("pairing", "a run solves something that was not given")
        ai, pi = ai[0], pi[0]
        runs.setdefault((ai, pi), []).append((best, conv))
        want = mode_of(ai, pi) if mode_of else "single"
        if a.get("mode", "single") not in ((want, None) if want == "single" else (want,)):
            return bad("setting", f"algorithm {ai + 1} runs on problem {pi + 1} in mode {a.get('mode')!r}, given was {want!r}")
        want = term_of(ai, pi) if term_of else None
        if a.get("termination") is not want:
            return bad("setting", f"algorithm {ai + 1} runs on problem {pi + 1} with termination {a.get('termination')}, given was {want}")
        if a.get("n_workers") != 4:
            return bad("setting", f"a run uses {a.get('n_workers')} workers, given were 4")
        if a.get("starting_solutions") is not None or a.get("seed") is not None:
            return bad("setting", "a run is given a seed or starting positions nobody asked for")
    good = [i for i, x in enumerate(algs) if x.cls == "Optimizer"]
    for ai in range(c.n):
        for pi in range(c.m):
            k, want = len(runs.get((ai, pi), ())), c.trials if ai in good else 0
            if k != want:
                return bad("trials", f"algorithm {ai + 1} runs {k} times on problem {pi + 1}, {want} trials were asked for")
    if "ThreadPoolExecutor" in W.pools:
        bad("shared", "the trials of an algorithm run at the same time on one optimizer object")
    if (c.jobs or 0) > 1 and not W.pools:
        pass        # a sequential run gives the same results
    # the tables
    how = EXPORTS[c.save_as]
    paths = [e[2] for e in W.exports]
    for e in W.exports:
        ctx.count("obligations")
        if e[0] != how:
            return bad("format", f"results are written by {e[0]}, asked for was {c.save_as}")
        if not e[2].startswith("out/"):
            return bad("place", f"results are written to {e[2]}, outside the folder asked for")
    for q in sorted(set(paths)):
        if paths.count(q) > 1:
            return bad("overwritten" + (f"-{c.same}" if c.same else ""), f"{paths.count(q)} results are written to the same file {q}")
    best, conv = [], []
    for _, t, q in W.exports:
        (conv if any(str(k).startswith("trial") for k in t) else best).append((t, q))
    for ai in good:
        mine = [t for t, q in best if all(x in [[b.f["target"].f["fitness"] for b, _ in runs[(ai, pi)]] for pi in range(c.m)] for x in t.values())]
        want = {names[pi]: [b.f["target"].f["fitness"] for b, _ in runs[(ai, pi)]] for pi in range(c.m)}
        cols = [[b.f["target"].f["fitness"] for b, _ in runs[(ai, pi)]] for pi in range(c.m)]
        ctx.count("obligations")
        found = [t for t in mine if list(t.values()) == cols or sorted(t.values()) == sorted(cols)]
        if len(found) != 1:
            return bad("best" + (f"-{c.same}" if c.same else ""), f"the best fitness of every trial of algorithm {ai + 1} is exported {len(found)} times; exported are {show_tables(best)}, found were {cols}")
        t = found[0]
        for pi in range(c.m):
            col = t.get(names[pi])
            if c.same != "problems" and col != cols[pi]:
                return bad("best", f"under {names[pi]} the table of algorithm {ai + 1} holds {col}, its trials found {cols[pi]}")
        q = [q for t2, q in best if t2 is t][0]
        if algs[ai].f["name"] not in q:
            return bad("place", f"the file {q} of algorithm {ai + 1} does not carry its name")
    if not c.convergence and conv:
        return bad("convergence", "convergence is exported though it was not asked for")
    if c.convergence:
        for ai in good:
            for pi in range(c.m):
                ctx.count("obligations")
                series = [s for _, s in runs[(ai, pi)]]
                top = max(map(len, series))
                found = []
                for t, q in conv:
                    rows = [t.get(f"trial_{k + 1}") for k in range(c.trials)]
                    if len(t) == c.trials and all(r is not None and len(r) == top and r[:len(s)] == s and all(nan(x) for x in r[len(s):])
                                                  for r, s in zip(rows, series)):
                        found.append(q)
                if len(found) != 1:
                    return bad("convergence" + (f"-{c.same}" if c.same else ""), f"the convergence of the trials of algorithm {ai + 1} on problem {pi + 1} is exported {len(found)} times")
                if names[pi] not in found[0] or algs[ai].f["name"] not in found[0]:
                    return bad("place", f"the file {found[0]} does not name algorithm {algs[ai].f['name']} and problem {names[pi]}")
    return None


def show_tables(l):
    return [{k: [str(x) for x in v] for k, v in t.items()} for t, _ in l][:3]


def multitask(ctx, F):
    cls = ctx.prog.cls("mealpy.multitask.Multitask")
    if cls is None:
        return ctx.undec("class Multitask not found")
    f = method(ctx, cls, "execute")
    if f is None:
        return None
    W = Tool(ctx, F, cls)
    for c in cases(ctx.tier == "thorough"):
        try:
            judge(ctx, F, cls, c, f, W)
        except (NoValue, TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
            ctx.undec(f"{f.where}: with {c}: {str(e)[:160]}")
    return None


def generators(ctx, F):
    """Settings are copied for every pair; a generator cannot be copied."""
    cls = ctx.prog.cls("mealpy.multitask.Multitask")
    for f in cls.methods.values() if cls is not None else ():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("deepcopy", "copy"):
                ctx.count("obligations")
                if n.args and isinstance(n.args[0], ast.GeneratorExp):
                    ctx.find("fails", cname(f), f"{f.where}:{n.lineno}", "copies a generator, which fails: " + ast.unparse(n)[:120])


def run(ctx):
    ctx.explanation = ("Multitask.execute and its constructor are summarised by abstract interpretation (every call, store and append, loops as one generic "
                       "iteration); the summary is unfolded over finite configurations (1-3 algorithms, 1-3 problems, 1-3 trials, every accepted size of the "
                       "settings lists, sequential and parallel jobs, every export format) and the runs, settings and exported tables it determines are "
                       "compared with the specified ones.  Work handed to worker processes leaves the objects of the caller unchanged.")
    ctx.assumptions += ["Optimizer.solve, the validator and pandas stand for their documented meaning.",
                        "Configurations larger than three algorithms and problems behave like the unfolded ones (the summaries have one generic iteration per loop)."]
    F = Fw(ctx.prog)
    ctx.part("multitask", multitask, F)
    ctx.part("generators", generators, F)
