"""Tuner: every point of the grid is tried the requested number of times, recorded with its parameters, ranked, and the best one reported."""
import itertools
from fractions import Fraction

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, cname
from ..play import Obj, Player, Table, UNKNOWN, NoValue, Rejected
from .c18 import Tool, nan, spread

GRIDS = ({"p": [1, 2, 3]}, {"p": [1, 2], "q": [5, 6]}, {"p": [1, 2], "q": [5, 6, 7], "r": [0, 1]}, {"q": [3, 4], "p": [True, False, None]}, {"p": [9]})
MODES = ("process", "thread", "swarm", "single")
LISTS = ([{"p": [1, 2]}, {"p": [3], "q": [1, 10]}], [{}, {"p": [1, 2]}], [{"p": [1, 2], "q": [5]}, {}, {"r": [3, 4, 5]}], [{}])


def points(grid):
    """The points of a grid in order: the last parameter changes fastest."""
    out = []
    for g in [grid] if isinstance(grid, dict) else grid:
        out += [dict(zip(g, v)) for v in itertools.product(*g.values())]
    return out


class Tuning(Tool):
    def __init__(self, ctx, F, cls):
        super().__init__(ctx, F, cls)
        self.table = None

    def call(self, p, name, args, kw):
        last = name.split(".")[-1]
        if name == "new ParameterGrid":
            g = args[0] if args else next(iter(kw.values()))
            if g is UNKNOWN:
                raise NoValue(name)
            return self.obj("ParameterGrid", **{"[]": points(g)})
        if last == "set_parameters" and isinstance(args[0], Obj):
            v = args[1] if len(args) > 1 else next(iter(kw.values()), UNKNOWN)
            if not isinstance(v, dict):
                raise NoValue(name)
            args[0].f["set"] = {**args[0].f.get("set", {}), **v}
            return None
        if last == "deepcopy" and isinstance(args[0], Obj):
            o = self.obj(args[0].cls, **args[0].f)
            return o
        return super().call(p, name, args, kw)

    def fitness(self, n, a):
        key = tuple(sorted((k, str(v)) for k, v in self.current.f.get("set", {}).items()))
        k = self.seen[key] = self.seen.get(key, -1) + 1
        row = self.order.get(key)
        if row is None:
            return Fraction(10 ** 6 + n)
        return self.values[row][k % len(self.values[row])]

    def solve(self, alg, a):
        self.current = alg
        if a.get("mode", "single") not in MODES:
            raise Rejected
        return super().solve(alg, a)

    def installed(self, p):
        if isinstance(p, dict):
            return self.obj("Problem", name=p.get("name", "P"), minmax=p.get("minmax", "min"), origin=p)
        return super().installed(p)


def values(points_, trials, plan, sign):
    """Fitness values of the trials of each point."""
    n = len(points_)
    base = {"distinct": lambda i: (i * 5 + 3) % (n + 2) * 10, "last": lambda i: (n - i) * 10, "first": lambda i: i * 10, "tie": lambda i: 10 if i % 2 else 10 + i * 0,
            "two": lambda i: 10 if i < 2 else 40 + i}[plan]
    wide = {"distinct": lambda i: n - i, "last": lambda i: i, "first": lambda i: n - i, "tie": lambda i: (i * 7 + 4) % (2 * n + 1), "two": lambda i: 5 if i == 0 else 2}[plan]
    out = []
    for i in range(n):
        w = [Fraction(wide(i) * (k * k - Fraction((trials - 1) * (2 * trials - 1), 6))) for k in range(trials)]
        out.append([sign * (Fraction(base(i)) + x) for x in w])
    return out


class Case:
    def __init__(self, grid, trials=2, plan="distinct", minmax="min", problem="dict", jobs=None, mode="single", verbose=False):
        self.__dict__.update(locals())

    def __str__(self):
        s = f"the grid {self.grid}, {self.trials} trials, {'direction not given' if self.minmax is None else self.minmax}"
        return s + (f", n_jobs={self.jobs}" if self.jobs is not None else "") + (", a Problem object" if self.problem == "Problem" else "") + f" ({self.plan} means)"


def cases():
    for g in GRIDS:
        for plan in ("distinct", "last", "first", "tie", "two"):
            for mm in ("min", "max"):
                yield Case(g, 2 if plan != "tie" else 3, plan, mm)
    g = GRIDS[1]
    for mm in ("min", "max", None):
        for pr in ("dict", "Problem"):
            for plan in ("last", "two"):
                if mm is not None or pr == "dict":
                    yield Case(g, 3, plan, mm, pr)
    for j in (0, 1, 2, 3):
        for mm in ("min", "max"):
            yield Case(g, 3, "distinct", mm, "dict" if j % 2 else "Problem", jobs=j, mode="swarm", verbose=True)
    for mode in ("process", "thread", "single", "swarm"):
        yield Case(g, 2, mode=mode, verbose=True)
    for t in (1, 4):
        yield Case(g, t, "last")


def judge(ctx, W, c, f):
    W.solves, W.exports, W.pools, W.objects, W.seen = [], [], [], [], {}
    alg = W.optimizer("alg")
    pts = points(c.grid)
    sign = -1 if c.minmax == "max" else 1
    W.values = values(pts, c.trials, c.plan, sign)
    W.order = {tuple(sorted((k, str(v)) for k, v in p.items())): i for i, p in enumerate(pts)}
    prob = {"name": "prob"} if c.problem == "dict" else W.obj("Problem", name="prob", minmax=c.minmax)
    if c.problem == "dict" and c.minmax is not None:
        prob["minmax"] = c.minmax
    term = W.obj("Termination", name="term")
    me = W.obj("Tuner")
    bad = lambda rule, msg: ctx.find(rule, cname(f), f.where, f"with {c}: {msg}")
    try:
        W.run(me, "__init__", algorithm=alg, param_grid=c.grid)
    except Rejected:
        return bad("fails", "the constructor fails")
    try:
        (kind, _), pl = W.run(me, "execute", problem=prob, termination=term, n_trials=c.trials, n_jobs=c.jobs, mode=c.mode, n_workers=3, verbose=c.verbose)
    except Rejected:
        return bad("fails", "execute fails")
    if kind != "return":
        return bad("fails", "execute raises an error")
    ctx.count("configurations")
    runs = {}
    for a, kw, n, params, best, conv in W.solves:
        ctx.count("obligations")
        row = W.order.get(tuple(sorted((k, str(v)) for k, v in params.items())))
        if row is None:
            return bad("point", f"a trial runs with the parameters {params}, which are no point of the grid")
        runs.setdefault(row, []).append((best.f["target"].f["fitness"], conv))
        p = kw.get("problem")
        if p is not prob and not (isinstance(p, Obj) and p.f.get("origin") is prob):
            return bad("setting", "a trial solves something else than the given problem")
        if kw.get("mode", "single") != c.mode:
            return bad("setting", f"a trial runs in mode {kw.get('mode')!r}, given was {c.mode!r}")
        if kw.get("termination") is not term:
            return bad("setting", f"a trial runs with termination {kw.get('termination')}, not the given one")
        if kw.get("n_workers") != 3:
            return bad("setting", f"a trial uses {kw.get('n_workers')} workers, given were 3")
        if kw.get("seed") is not None or kw.get("starting_solutions") is not None:
            return bad("setting", "a trial is given a seed or starting positions nobody asked for")
    for i, pt in enumerate(pts):
        if len(runs.get(i, ())) != c.trials:
            return bad("trials", f"{len(runs.get(i, ()))} trials run with {pt}, {c.trials} were asked for")
    if "ThreadPoolExecutor" in W.pools:
        bad("shared", "the trials of a setting run at the same time on one optimizer object")
    # the records
    fit, loss = me.f.get("df_fit"), me.f.get("df_loss")
    if not isinstance(fit, Table) or not isinstance(loss, Table):
        raise NoValue("recorded tables")
    ctx.count("obligations", 3)
    rows = fit.rows()
    if len(rows) != len(pts):
        return bad("record", f"the record has {len(rows)} rows, the grid has {len(pts)} points")
    means, stds = [], []
    for r in rows:
        row = W.order.get(tuple(sorted((k, str(v)) for k, v in r.get("params", {}).items())))
        if row is None:
            return bad("record", f"a row is recorded with the parameters {r.get('params')}")
        got = [r.get(f"trial_{k + 1}") for k in range(c.trials)]
        if got != [x for x, _ in runs[row]]:
            return bad("record", f"the row of {pts[row]} holds {list(map(str, got))}, its trials found {[str(x) for x, _ in runs[row]]}")
        means.append(spread("mean", got, {}))
        stds.append(spread("std", got, {}))
    lrows = loss.rows()
    want = []
    for i, pt in enumerate(pts):
        for k, (_, conv) in enumerate(runs[i]):
            want.append((pt, k, conv))
    if len(lrows) != len(want):
        return bad("record", f"{len(lrows)} convergence rows are recorded for {len(want)} trials")
    for r in lrows:
        pt = {k: r.get(k) for k in c.grid}
        series = [v for k, v in r.items() if k not in c.grid and k != "trial" and not nan(v)]
        if not any(p == pt and str(k) in (str(r.get("trial")), str(r.get("trial", -5) - 1)) and s == series for p, k, s in want):
            return bad("record", f"a convergence row holds {pt}, trial {r.get('trial')} with values no such trial had")
    # the ranking
    first = [i for i in range(len(rows)) if means[i] == (min if sign > 0 else max)(means)]
    sd = [stds[i] for i in first if not nan(stds[i])]
    top = [i for i in first if nan(stds[i]) or stds[i] == min(sd)]
    ctx.count("obligations", 2)
    bp, bs = me.f.get("_best_params"), me.f.get("_best_score")
    if bp is None:
        try:
            bp = W.run(me, "best_params")[0][1]
            bs = W.run(me, "best_score")[0][1]
        except Rejected:
            raise NoValue("best_params")
    if not isinstance(bp, dict):
        raise NoValue("best_params")
    if bp not in [rows[i]["params"] for i in top]:
        g = [i for i in range(len(rows)) if rows[i]["params"] == bp]
        of = f"mean {float(means[g[0]]):.6g}, spread {float(stds[g[0]]):.6g}" if g else "not in the grid"
        return bad("best", f"best_params is {bp} ({of}); the top-ranked setting is {rows[top[0]]['params']} "
                           f"(mean {float(means[top[0]]):.6g}, spread {float(stds[top[0]]):.6g})")
    if bs != means[top[0]]:
        return bad("best", f"best_score is {bs}, the mean of the top-ranked setting is {means[top[0]]}")
    # running again with the best
    n = len(W.solves)
    start = W.obj("Start")
    term2 = W.obj("Termination", name="term2")
    g = method(ctx, W.cls, "resolve")
    try:
        (kind, v), _ = W.run(me, "resolve", mode="thread", starting_solutions=start, n_workers=5, termination=term2)
    except Rejected:
        return bad("resolve", "resolve fails")
    ctx.count("obligations")
    bad = lambda rule, msg: ctx.find(rule, cname(g), g.where, f"with {c}: {msg}")
    if len(W.solves) != n + 1:
        return bad("resolve", f"resolve runs the algorithm {len(W.solves) - n} times")
    a, kw, _, params, best, _ = W.solves[-1]
    if params != bp:
        return bad("resolve", f"resolve runs with {params}, the best setting is {bp}")
    p = kw.get("problem")
    if p is not prob and not (isinstance(p, Obj) and p.f.get("origin") is prob):
        return bad("resolve", "resolve solves something else than the tuned problem")
    if (kw.get("mode"), kw.get("n_workers"), kw.get("termination"), kw.get("starting_solutions")) != ("thread", 5, term2, start):
        return bad("resolve", "resolve does not pass on the mode, workers, termination and starting positions it is given")
    if v is not best:
        return bad("resolve", "resolve does not return the best of its run")
    alg.f["set"] = dict(pts[0])
    try:
        (_, v), _ = W.run(me, "best_algorithm")
    except Rejected:
        return bad("best-algorithm", "best_algorithm fails")
    ctx.count("obligations")
    h = W.cls.lookup("best_algorithm")
    if not isinstance(v, Obj) or v.f.get("set") != bp:
        ctx.find("best-algorithm", cname(h), h.where, f"with {c}: best_algorithm carries {v.f.get('set') if isinstance(v, Obj) else v}, the best setting is {bp}")
    return None


def tuner(ctx, F):
    cls = ctx.prog.cls("mealpy.tuner.Tuner")
    f = method(ctx, cls, "execute") if cls is not None else ctx.undec("class Tuner not found")
    if f is None:
        return None
    W = Tuning(ctx, F, cls)
    for c in cases():
        try:
            judge(ctx, W, c, f)
        except (NoValue, TypeError, ValueError, KeyError, IndexError, AttributeError) as e:
            ctx.undec(f"{f.where}: with {c}: {str(e)[:160]}")
    ctx.part("mode", modes, W, f)
    return exports(ctx, W)


def modes(ctx, W, f):
    """A mode that does not exist is refused before anything runs."""
    for jobs in (None, 2):
        W.solves, W.exports, W.pools, W.objects, W.seen = [], [], [], [], {}
        W.values, W.order = [], {}
        me = W.obj("Tuner")
        ctx.count("obligations")
        try:
            W.run(me, "__init__", algorithm=W.optimizer("alg"), param_grid=GRIDS[1])
            (kind, _), _ = W.run(me, "execute", problem={"name": "prob"}, termination=None, n_trials=2, n_jobs=jobs, mode="bogus", n_workers=3, verbose=False)
        except Rejected:
            continue
        except NoValue as e:
            ctx.undec(f"{f.where}: an unknown mode: {str(e)[:160]}")
            continue
        if kind == "return":
            ctx.find("mode", cname(f), f.where, "a mode that does not exist is accepted and the trials run in another one")


def exports(ctx, W):
    """export_results writes the recorded table in the format the file name asks for."""
    f = method(ctx, W.cls, "export_results")
    if f is None:
        return
    fit = Table({"params": [{}], "trial_1": [Fraction(1)]})
    for name, how, file in (("a.csv", "to_csv", "a.csv"), ("a.json", "to_json", "a.json"), ("a.dataframe", "to_pickle", "a.pkl"), ("a.b.csv", "to_csv", "a-b.csv")):
        W.exports = []
        me = W.obj("Tuner", df_fit=fit, algorithm=W.obj("Optimizer", name="alg"), df_loss=Table({"trial": [Fraction(2)]}))
        try:
            W.run(me, "export_results", save_path="out", file_name=name)
        except NoValue as e:
            ctx.undec(f"{f.where}: {name}: {str(e)[:160]}")
            continue
        except Rejected:
            ctx.find("export", cname(f), f.where, f"export_results fails for {name}")
            continue
        ctx.count("obligations")
        if [(h, t, q) for h, t, q in W.exports] != [(how, fit.cols, f"out/{file}")]:
            ctx.find("export", cname(f), f.where, f"export_results with {name} writes {[(h, q) for h, _, q in W.exports]}, "
                                                  f"expected the table of best fitness by {how} to out/{file}")


def grid(ctx, F):
    """Iterating, indexing and measuring a grid agree with the points it stands for."""
    cls = ctx.prog.cls("mealpy.tuner.ParameterGrid")
    if cls is None:
        return ctx.undec("class ParameterGrid not found")
    W = Tool(ctx, F, cls)
    fs = {n: method(ctx, cls, n) for n in ("__iter__", "__len__", "__getitem__")}
    for g in GRIDS + LISTS:
        pts = points(g)
        me = W.obj("ParameterGrid")
        try:
            r, _ = W.run(me, "__init__", param_grid=g)
            if r[0] != "return":
                raise Rejected
        except NoValue as e:
            ctx.undec(f"ParameterGrid.__init__: {g}: {str(e)[:120]}")
            me.f["param_grid"] = [g] if isinstance(g, dict) else g
        except Rejected:
            f = cls.lookup("__init__")
            ctx.find("grid", cname(f), f.where, f"the grid {g} is rejected")
            continue
        for n, f in fs.items():
            if f is None:
                continue
            ctx.count("obligations")
            try:
                if n == "__iter__":
                    (_, v), p = W.run(me, n)
                    got = p.yields if v is None else list(v)
                    if got != pts:
                        ctx.find("grid", cname(f), f.where, f"iterating over {g} gives {got}, its points are {pts}")
                elif n == "__len__":
                    (_, v), _ = W.run(me, n)
                    if v != len(pts):
                        ctx.find("grid", cname(f), f.where, f"the length of {g} is given as {v}, it has {len(pts)} points")
                else:
                    for i, pt in enumerate(pts):
                        (k, v), _ = W.run(me, n, ind=i)
                        if k != "return" or v != pt:
                            ctx.find("grid", cname(f), f.where, f"element {i} of {g} is given as {v if k == 'return' else 'an error'}, in iteration it is {pt}")
                            break
                    else:
                        for i in (len(pts), len(pts) + 3):
                            (k, v), _ = W.run(me, n, ind=i)
                            if k == "return":
                                ctx.find("grid", cname(f), f.where, f"element {i} of {g} is given as {v}, it has {len(pts)} points")
                                break
            except NoValue as e:
                ctx.undec(f"{f.where}: {g}: {str(e)[:160]}")
            except Rejected:
                if n != "__getitem__":
                    ctx.find("grid", cname(f), f.where, f"{n} fails for {g}")


def run(ctx):
    ctx.explanation = ("Tuner and ParameterGrid are summarised by abstract interpretation (every call, store and append, loops as one generic iteration); the "
                       "summaries are unfolded over finite configurations (grids of one to three parameters, 1-4 trials, both directions, dictionaries and "
                       "Problem objects, ties in the mean, every mode, sequential and parallel jobs) and the trials, records, ranking and best setting "
                       "they determine are compared with the specified ones.")
    ctx.assumptions += ["Optimizer.solve, set_parameters, the validator and pandas (DataFrame, mean, std, rank, boolean selection) stand for their documented meaning.",
                        "Larger grids behave like the unfolded ones (the summaries have one generic iteration per loop)."]
    F = Fw(ctx.prog)
    ctx.part("tuner", tuner, F)
    ctx.part("grid", grid, F)
