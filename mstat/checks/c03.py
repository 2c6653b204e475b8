"""Best/worst tracking: canonical terms of the tracking functions against their specification, for both directions and every ordering."""
import itertools

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, fit, method, paths, check, cname
from .. import terms as T

LISTS = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")


def extremes(pop, mm, tag="e"):
    """(sorted population, best, worst) as terms"""
    n = length(pop)
    keys = close(n, fit(at(pop, ("ix", tag))), ("ix", tag))
    p = sort_perm(keys, desc=mm == "max")
    s = gather(pop, p)
    return s, at(s, K(0)), at(s, sub(n, K(1))), p


def better(x, y, mm, rel, worse=False):
    """rel: ordering of fit(x) against fit(y)"""
    xwins = (rel == "<") == (mm == "min")
    return x if xwins != worse else y


def update_best(ctx, F):
    f = method(ctx, F.O, "update_global_best_agent")
    if f is None:
        return
    me, pop = S("self"), S("pop")
    h = attr(me, "history")
    for mm in ("min", "max"):
        srt, cb, cw, _ = extremes(pop, mm)
        cells = {n: attr(h, n) for n in LISTS}
        last = {n: at(cells[n], K(-1)) for n in LISTS}
        for save in (True, False):
            pairs = [(cb, last["list_global_best"]), (cw, last["list_global_worst"])]
            if not save:
                pairs += [(cb, last["list_current_best"]), (cw, last["list_current_worst"])]
            for rels in itertools.product("<>", repeat=len(pairs)):
                def setup(st):
                    st.attrs[(attr(me, "problem"), "minmax")] = K(mm)
                    st.attrs[(me, "problem")] = attr(me, "problem")
                    for (a, b), r in zip(pairs, rels):
                        st.rels[(fit(a), fit(b))] = frozenset([r])
                core = F.core(types={"self": F.O, "pop": ("list", F.A)})
                ps = paths(ctx, core, f, [me, pop, K(save)], setup=setup)
                if ps is None:
                    continue
                gb = better(cb, last["list_global_best"], mm, rels[0])
                gw = better(cw, last["list_global_worst"], mm, rels[1], worse=True)
                if save:
                    want = {n: cat(cells[n], ("list", v)) for n, v in
                            (("list_global_best", gb), ("list_current_best", cb), ("list_global_worst", gw), ("list_current_worst", cw))}
                else:
                    lb = better(cb, last["list_current_best"], mm, rels[2])
                    lw = better(cw, last["list_current_worst"], mm, rels[3], worse=True)
                    want = {n: (cells[n], v) for n, v in (("list_global_best", gb), ("list_current_best", lb),
                                                          ("list_global_worst", gw), ("list_current_worst", lw))}
                for p in ps:
                    if p.kind != "return":
                        ctx.find("tracking", cname(f), f.where, f"raises {show(p.val)} ({mm}, save={save})")
                        continue
                    for n in LISTS:
                        got = norm_last(uncopy(p.held(h, n)), cells[n])
                        w = want[n] if save else norm_last(("setat", want[n][0], sub(length(cells[n]), K(1)), want[n][1]), cells[n])
                        check(ctx, "tracking", f, got, w, f"history.{n} ({mm}, save={save}, ordering {''.join(rels)})")
                    v = uncopy(p.value)
                    check(ctx, "tracking", f, at(v, K(0)), srt, f"first result ({mm}, save={save})")
                    check(ctx, "tracking", f, at(v, K(1)), gb, f"second result ({mm}, save={save}, ordering {''.join(rels)})")


def norm_last(t, cell):
    """Replacing the last element, however it is written."""
    n = length(cell)
    if t[0] == "cat" and t[2][0] == "list" and len(t[2]) == 2:
        front = t[1]
        if front == slice_(cell, NONE, K(-1), NONE):
            return ("setat", cell, sub(n, K(1)), t[2][1])
    # overwriting the last element with itself
    if t[0] == "setat" and t[1] == cell and t[3] == at(cell, t[2]):
        return cell
    return t


def after_init(ctx, F):
    f = method(ctx, F.O, "after_initialization")
    if f is None:
        return
    me = S("self")
    pop = attr(me, "pop")
    for mm in ("min", "max"):
        for flag in (True, False):
            def setup(st):
                st.attrs[(attr(me, "problem"), "minmax")] = K(mm)
                st.attrs[(me, "sort_flag")] = K(flag)
                for n in LISTS:         # every run starts with a new history
                    st.cells[attr(attr(me, "history"), n)] = ("list",)
            core = F.core(types={"self": F.O})
            ps = paths(ctx, core, f, [me], setup=setup)
            srt, b, w, _ = extremes(pop, mm)
            for p in ps or ():
                if p.kind != "return":
                    ctx.find("initial-records", cname(f), f.where, f"raises {show(p.val)}")
                    continue
                check(ctx, "initial-records", f, uncopy(p.attr(me, "g_best")), b, f"g_best ({mm})")
                check(ctx, "initial-records", f, uncopy(p.attr(me, "g_worst")), w, f"g_worst ({mm})")
                check(ctx, "initial-records", f, uncopy(p.attr(me, "pop")), srt if flag else pop, f"pop ({mm}, sort_flag={flag})")
                h = attr(me, "history")
                for n, v in (("list_global_best", b), ("list_current_best", b), ("list_global_worst", w), ("list_current_worst", w)):
                    check(ctx, "initial-records", f, uncopy(p.held(h, n)), ("list", v), f"history.{n} ({mm})")


def calls(eff):
    return [e for e in eff if e[0] == "call"]


def solve(ctx, F):
    """The run loop: per epoch evolve, then one update of the records with the current population, then the records of the epoch."""
    f = method(ctx, F.O, "solve")
    if f is None:
        return
    names = {k for c in F.O.mro if hasattr(c, "methods") for k in c.methods}
    core = F.core(opaque={("Optimizer", n) for n in names if n not in ("solve",) and not private_helper(F, n)}, types={"self": F.O})
    me = S("self")
    ps = paths(ctx, core, f, [me, S("problem"), S("mode"), S("n_workers"), S("termination"), S("starting_solutions"), S("seed")])
    for p in ps or ():
        if p.kind != "return":
            continue
        loops = [e for e in p.eff if e[0] == "loop" and any(c[1] == "Optimizer.evolve" for info in e[3] for c in calls(info[2]))]
        if len(loops) != 1:
            ctx.undec(f"{f.where}: {len(loops)} loops call evolve")
            continue
        _, seq, ix, infos = loops[0]
        for o, conds, eff, upd, val in infos:
            cs = [c for c in calls(eff) if c[1].startswith("Optimizer.")]
            order = [c[1].split(".")[1] for c in cs]
            ctx.count("obligations")
            ev = [i for i, c in enumerate(order) if c == "evolve"]
            ug = [i for i, c in enumerate(order) if c == "update_global_best_agent"]
            if len(ev) != 1 or len(ug) != 1 or ug[0] < ev[0]:
                ctx.find("solve-order", cname(f), f.where, f"an epoch calls {', '.join(order)}: the records must be updated exactly once "
                         f"after the search step")
                continue
            call = cs[ug[0]]
            args = {a[1]: a[2] for a in call[2] if a[0] == "kw"}
            cur = args.get("pop")
            if cur is not None and not is_current(cur, me, "pop"):
                ctx.find("solve-order", cname(f), f.where, f"the records are updated from {show(cur)}, not from the current population")
            if args.get("save") != TRUE:
                ctx.find("solve-order", cname(f), f.where, "the records of the epoch are not saved")
            r = call[3]
            gb = upd.get(("a", (me, "g_best")))
            if gb is None or gb != at(r, K(1)):
                if gb is None or not undecidable(gb):
                    ctx.find("solve-order", cname(f), f.where, "the global best returned by the update does not become self.g_best")
                else:
                    ctx.undec(f"{f.where}: g_best {show(gb)}")
            np_ = upd.get(("a", (me, "pop")))
            if np_ is not None and np_ != at(r, K(0)) and not (np_[0] == "ite"):
                ctx.undec(f"{f.where}: pop {show(np_)}")
            sf = [b for c, b in conds if contains(c, attr(me, "sort_flag"))]
            if sf and (np_ == at(r, K(0))) != sf[0]:
                ctx.find("solve-order", cname(f), f.where, f"sort_flag={sf[0]} but the population is "
                         f"{'not ' if sf[0] else ''}replaced by the sorted one")
        v = p.value
        ctx.count("obligations")
        want = p.attr(me, "g_best")
        if v != want:
            ctx.find("solve-result", cname(f), f.where, f"returns {show(v)[:120]}, not the last global best")


def is_current(t, me, name):
    """Value of self.<name> at this point: the attribute itself or its loop-carried value."""
    if t == attr(me, name):
        return True
    return t[0] == "lv" and t[2] == "a:" + name


def private_helper(F, n):
    """Methods that a refactoring may have extracted from solve: not part of the documented life cycle."""
    from ..program import Class
    base = {"check_problem", "check_mode_and_workers", "check_termination", "initialize_variables", "before_initialization", "initialization",
            "after_initialization", "before_main_loop", "evolve", "update_global_best_agent", "track_optimize_step", "track_optimize_process",
            "get_name", "get_parameters", "generate_population", "generate_agent", "get_target", "update_target_for_population"}
    return n not in base


def accessors(ctx, F):
    """get_best_agent, get_worst_agent, get_special_agents hand out the extreme members."""
    pop = S("pop")
    for mm in ("min", "max"):
        srt, b, w, perm = extremes(pop, mm)
        n = length(pop)
        for name, wa, wi in (("get_best_agent", b, K(0)), ("get_worst_agent", w, sub(n, K(1)))):
            f = method(ctx, F.O, name)
            if f is None:
                continue
            core = F.core(types={"pop": ("list", F.A)})
            for p in paths(ctx, core, f, [pop, K(mm)]) or ():
                v = uncopy(p.value)
                check(ctx, "extremes", f, at(v, K(0)), wa, f"agent ({mm})")
                check(ctx, "extremes", f, at(v, K(1)), at(perm, wi), f"index ({mm})")


def run(ctx):
    ctx.explanation = ("Canonical terms of update_global_best_agent, after_initialization, History.store_initial_best_worst, the accessors and "
                       "the run loop, computed by path-sensitive abstract interpretation for both directions and every ordering of the "
                       "compared fitness values, compared with the specified records.")
    F = Fw(ctx.prog)
    ctx.part("update_best", update_best, F)
    ctx.part("after_init", after_init, F)
    ctx.part("accessors", accessors, F)
    ctx.part("solve", solve, F)
