"""Per-epoch history: entries added per call of the recording functions, per epoch of the run loop, and by search steps."""
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, fit, method, paths, check, cname, undecidable
from ..flow import run_all, report, events
from .. import terms as T
from .prims import flat, args_of, returns, ME
from .c03 import LISTS, is_current, norm_last, private_helper

SERIES = ("list_population", "list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity")
OTHERS = ("list_exploration", "list_exploitation")


def grown(t, cell):
    """Number of entries the value has more than the cell it replaces (None: not known)."""
    d = sub(length(t), length(cell))
    return kv(d) if isint(d) else None


def step(ctx, F):
    f = method(ctx, F.O, "track_optimize_step")
    if f is None:
        return
    h = attr(ME, "history")
    pop, epoch, runtime = S("pop"), S("epoch"), S("runtime")
    for save in (True, False):
        def setup(st):
            st.attrs[(ME, "problem")] = attr(ME, "problem")
            st.attrs[(attr(ME, "problem"), "save_population")] = K(save)
            st.truth[("app", "bool", attr(attr(ME, "problem"), "save_population"))] = save
        core = F.core(types={"self": F.O, "pop": ("list", F.A)})
        for p in returns(paths(ctx, core, f, [ME, pop, epoch, runtime], setup=setup)):
            want = {"list_epoch_time": runtime, "list_global_best_fit": fit(at(attr(h, "list_global_best"), K(-1))),
                    "list_current_best_fit": fit(at(attr(h, "list_current_best"), K(-1)))}
            if save:
                want["list_population"] = pop
            for n in SERIES:
                cell = attr(h, n)
                got = uncopy(p.held(h, n))
                k = 1 if n in want or n == "list_diversity" else 0
                ctx.count("obligations")
                g = grown(got, cell)
                if g is not None and g != k:
                    ctx.find("entries-per-epoch", cname(f), f.where, f"an epoch adds {g} entries to history.{n} (save_population={save}), should add {k}")
                elif n == "list_population" and save:
                    v = at(got, sub(length(got), K(1)))
                    check(ctx, "entries-per-epoch", f, length(v), length(pop), "number of members in the population snapshot")
                    check(ctx, "entries-per-epoch", f, uncopy(at(v, ("ix", "e"))), at(pop, ("ix", "e")), "member of the population snapshot")
                elif n in want:
                    check(ctx, "entries-per-epoch", f, got, cat(cell, ("list", want[n])), f"history.{n}")
                elif k == 0:
                    check(ctx, "entries-per-epoch", f, got, cell, f"history.{n} (save_population={save})")
                elif g is None:
                    ctx.undec(f"{f.where}: history.{n} {show(got)[:100]}")
                else:
                    v = at(got, K(-1))
                    if not undecidable(v) and not contains(v, pop):
                        ctx.find("entries-per-epoch", cname(f), f.where, f"the diversity of the epoch, {show(v)[:80]}, does not depend on the population")
            for n in LISTS:
                check(ctx, "entries-per-epoch", f, uncopy(p.held(h, n)), attr(h, n), f"history.{n}")


def process(ctx, F):
    f = method(ctx, F.O, "track_optimize_process")
    if f is None:
        return
    h = attr(ME, "history")
    core = F.core(types={"self": F.O})
    for p in returns(paths(ctx, core, f, [ME])):
        for n in LISTS:
            check(ctx, "initial-entries-dropped", f, uncopy(p.held(h, n)), slice_(attr(h, n), K(1), NONE, NONE), f"history.{n}")
        for n in SERIES:
            check(ctx, "initial-entries-dropped", f, uncopy(p.held(h, n)), attr(h, n), f"history.{n}")
        for n in OTHERS:
            v = p.attr(h, n)
            ctx.count("obligations")
            if not contains(v, attr(h, "list_diversity")) and not undecidable(v):
                ctx.find("initial-entries-dropped", cname(f), f.where, f"history.{n} is {show(v)[:100]}: not computed from the diversity of each epoch")


def init(ctx, F):
    f = method(ctx, F.H, "store_initial_best_worst")
    if f is None:
        return
    core = F.core(types={"self": F.H, "b": F.A, "w": F.A})

    def setup(st):      # every run starts with a new history
        for n in LISTS:
            st.cells[attr(ME, n)] = ("list",)
    for p in returns(paths(ctx, core, f, [ME, S("b"), S("w")], setup=setup)):
        for n in LISTS:
            v = ("list", S("b") if "best" in n else S("w"))
            check(ctx, "initial-entries", f, uncopy(p.held(ME, n)), v, f"history.{n}")
    c = method(ctx, F.H, "__init__")
    if c is None:
        return
    core = F.core(types={"self": F.H}, pure=())
    for p in returns(paths(ctx, core, c, [ME])):
        for n in LISTS + SERIES:
            ctx.count("obligations")
            v = p.held(ME, n)
            if isint(length(v)) and kv(length(v)) != 0:
                ctx.find("initial-entries", cname(c), c.where, f"a new history starts with history.{n} = {show(v)}")


def update(ctx, F):
    f = method(ctx, F.O, "update_global_best_agent")
    if f is None:
        return
    h = attr(ME, "history")
    for mm in ("min", "max"):
        for save in (True, False):
            def setup(st):
                st.attrs[(attr(ME, "problem"), "minmax")] = K(mm)
                st.attrs[(ME, "problem")] = attr(ME, "problem")
            core = F.core(types={"self": F.O, "pop": ("list", F.A)})
            for p in returns(paths(ctx, core, f, [ME, S("pop"), K(save)], setup=setup)):
                for n in LISTS:
                    ctx.count("obligations")
                    g = grown(uncopy(p.held(h, n)), attr(h, n))
                    if g is None:
                        ctx.undec(f"{f.where}: length of history.{n}")
                    elif g != int(save):
                        ctx.find("entries-per-epoch", cname(f), f.where, f"history.{n} grows by {g} entries with save={save}, should grow by {int(save)}"
                                 + " when " + " and ".join(("" if b else "not ") + show(c) for c, b in p.conds)[:200])
                for n in SERIES:
                    g = grown(uncopy(p.held(h, n)), attr(h, n))
                    if g:
                        ctx.find("entries-per-epoch", cname(f), f.where, f"history.{n} grows by {g} entries")


RECORDERS = ("update_global_best_agent", "track_optimize_step", "track_optimize_process", "after_initialization", "check_problem")


def loop(ctx, F):
    f = method(ctx, F.O, "solve")
    if f is None:
        return
    names = {k for c in F.O.mro if hasattr(c, "methods") for k in c.methods}
    core = F.core(opaque={("Optimizer", n) for n in names if n != "solve" and not private_helper(F, n)}, types={"self": F.O})
    ps = paths(ctx, core, f, [ME] + [S(x) for x in ("problem", "mode", "n_workers", "termination", "starting_solutions", "seed")])
    for p in returns(ps):
        ctx.count("obligations")
        top = [e[1].split(".")[-1] for e in p.eff if e[0] == "call" and e[1].startswith("Optimizer.")]
        for n, k in (("update_global_best_agent", 0), ("track_optimize_step", 0), ("track_optimize_process", 1), ("after_initialization", 1),
                     ("check_problem", 1)):
            if top.count(n) != k:
                ctx.find("run-records", cname(f), f.where, f"a run calls {n} {top.count(n)} times outside its epochs, should be {k}")
        loops = [e for e in p.eff if e[0] == "loop" and any(c[0] == "call" and c[1] == "Optimizer.evolve" for info in e[3] for c in info[2])]
        if len(loops) != 1:
            ctx.undec(f"{f.where}: {len(loops)} loops call evolve")
            continue
        # the drop of the initial entries follows the loop
        order = [("loop" if e is loops[0] else e[1].split(".")[-1]) for e in p.eff if e is loops[0] or e[0] == "call" and e[1].startswith("Optimizer.")]
        if "track_optimize_process" in order and order.index("track_optimize_process") < order.index("loop"):
            ctx.find("run-records", cname(f), f.where, "the initial records are dropped before the epochs")
        _, seq, ix, infos = loops[0]
        cur = at(seq, ix) if seq != ("while",) else None
        for o, conds, eff, upd, val in infos:
            if o == "raise":
                continue
            cs = [(e[1].split(".")[-1], args_of(e), e[3]) for e in eff if e[0] == "call" and e[1].startswith("Optimizer.")]
            order = [c[0] for c in cs]
            ctx.count("obligations")
            on = " and ".join(("" if b else "not ") + show(c) for c, b in conds)[:160]
            on = f" when {on}" if on else ""
            nested = any(e[0] == "loop" and any(c[0] == "call" and c[1].split(".")[-1] in RECORDERS for i in e[3] for c in i[2]) for e in eff)
            if nested:
                ctx.undec(f"{f.where}: records taken in an inner loop")
                continue
            bad = False
            for n, k in (("update_global_best_agent", 1), ("track_optimize_step", 1), ("track_optimize_process", 0), ("after_initialization", 0),
                         ("check_problem", 0)):
                if order.count(n) != k:
                    ctx.find("run-records", cname(f), f.where, f"an epoch calls {n} {order.count(n)} times{on}, should be {k}")
                    bad = True
            if bad:
                continue
            iu, it, ie = order.index("update_global_best_agent"), order.index("track_optimize_step"), order.index("evolve") if "evolve" in order else -1
            if not ie < iu < it:
                ctx.find("run-records", cname(f), f.where, f"an epoch calls {', '.join(order)}: the records must follow the search step, in that order")
                continue
            if cs[iu][1].get("save", TRUE) != TRUE:
                ctx.find("run-records", cname(f), f.where, "the best and worst of the epoch are not added to the history")
            a = cs[it][1]
            newpop = at(cs[iu][2], K(0))
            pp = a.get("pop")
            if pp is not None and pp != newpop and not is_current(pp, ME, "pop") and not (pp[0] == "ite" and newpop in pp[2:]):
                if undecidable(pp) and pp[0] != "res":
                    ctx.undec(f"{f.where}: population recorded {show(pp)[:80]}")
                else:
                    ctx.find("run-records", cname(f), f.where, f"the records of the epoch are taken from {show(pp)[:80]}, not from the current population")
            rt = a.get("runtime")
            if rt is not None and isk(rt):
                ctx.find("run-records", cname(f), f.where, f"the runtime recorded for the epoch is {show(rt)}")
            ep = a.get("epoch")
            if ep is not None and cur is not None and ep != cur and not undecidable(ep) and not undecidable(cur):
                ctx.find("run-records", cname(f), f.where, f"the epoch recorded is {show(ep)}")


def run(ctx):
    ctx.explanation = ("Canonical terms of the recording functions: entries added to every series for both settings of save_population, both directions and "
                       "every path; calls of the recording functions per epoch of the run loop; abstract interpretation of every search "
                       "step for direct or indirect changes of the history.")
    F = Fw(ctx.prog)
    ctx.part("step", step, F)
    ctx.part("process", process, F)
    ctx.part("init", init, F)
    ctx.part("update", update, F)
    ctx.part("loop", loop, F)
    res = run_all(ctx)
    report(ctx, res, {"extra-history", "history-use", "history-rewrite"}, by="class")
    ctx.need("obligations", 60)
    ctx.need("classes", 200)
