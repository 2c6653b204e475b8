"""Stopping criteria: truth table of should_terminate, the quantities it is given, the early-stopping count, and the run loop."""
import itertools

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, fit, method, paths, check, cname, undecidable
from .. import terms as T
from ..core import absterm
from .prims import flat, call_of, args_of, calls_to, returns, ME

CRIT = (("max_epoch", "current_epoch", "start_epoch"), ("max_fe", "current_fe", "start_fe"), ("max_time", "current_time", "start_time"),
        ("max_early_stop", "current_threshold", "start_threshold"))


def truth_table(ctx, F):
    f = method(ctx, F.Te, "should_terminate")
    if f is None:
        return
    params = f.params()[1:5] if hasattr(f, "params") else [a.arg for a in f.node.args.args][1:5]
    lim = {c: S("LIMIT_" + c) for c, _, _ in CRIT}
    cur = {c: S(params[i]) for i, (c, _, _) in enumerate(CRIT)}
    start = S("START_time")
    quantity = {c: sub(cur[c], start) if c == "max_time" else cur[c] for c, _, _ in CRIT}
    for conf in itertools.product((False, True), repeat=4):
        on = {c: b for (c, _, _), b in zip(CRIT, conf)}

        def setup(st):
            for c, _, s in CRIT:
                st.attrs[(ME, c)] = lim[c] if on[c] else NONE
                st.attrs[(ME, s)] = start if c == "max_time" else K(0)
                st.truth[cmp_("is", lim[c], NONE)] = False
                st.truth[("app", "bool", lim[c])] = True
        core = F.core(types={"self": F.Te})
        for p in paths(ctx, core, f, [ME] + [cur[c] for c, _, _ in CRIT], setup=setup) or ():
            ctx.count("obligations")
            desc = ", ".join(c for c in on if on[c]) or "none"
            if p.kind != "return":
                ctx.find("criteria", cname(f), f.where, f"raises {show(p.val)} with criteria {desc}")
                continue
            # orderings of quantity and limit possible on this path
            rel = {c: {"<", "=", ">"} for c in on}
            known = True
            for c, b in p.conds:
                if not (c[0] == "cmp" and c[1] in ("<", "==")):
                    known = False
                    continue
                d = sub(c[2], c[3])
                hit = False
                for k in on:
                    dk = sub(quantity[k], lim[k])
                    for dd, low, high in ((dk, "<", ">"), (sub(lim[k], quantity[k]), ">", "<")):
                        if d == dd:
                            w = {low} if c[1] == "<" else {"="}
                            rel[k] &= w if b else {"<", "=", ">"} - w
                            hit = True
                            break
                    if hit:
                        break
                known &= hit
            v = p.value
            val = core.decide(core.truthy(v, p.st), p.st)
            if not known and val is not None:
                w = witness(p.conds, on, cur, lim, start, quantity, val)
                if w:
                    ctx.find("criteria", cname(f), f.where, f"{'stops' if val else 'does not stop'} (configured: {desc}) on the path "
                             + "; ".join(("" if b else "not ") + show(c) for c, b in p.conds) + f", e.g. with {w}")
                    continue
            if val is None:
                ctx.undec(f"{f.where}: result {show(v)[:80]}")
                continue
            active = [c for c in on if on[c]]
            must = [c for c in active if rel[c] <= {"=", ">"}]
            may = [c for c in active if rel[c] & {"=", ">"}]
            if not val and may:
                c = (must or may)[0]
                if must or known:
                    ctx.find("criteria", cname(f), f.where, f"does not stop although {c} may be reached ({quantity_name(c)} {'/'.join(sorted(rel[c]))} "
                             f"limit; configured: {desc})")
                else:
                    ctx.undec(f"{f.where}: {[show(c2) for c2, _ in p.conds]}")
            elif val and not must:
                if known:
                    ctx.find("criteria", cname(f), f.where, f"stops although no configured criterion need be reached (configured: {desc}; "
                             + "; ".join(("" if b else "not ") + show(c) for c, b in p.conds) + ")")
                else:
                    ctx.undec(f"{f.where}: {[show(c2) for c2, _ in p.conds]}")


def witness(conds, on, cur, lim, start, quantity, val):
    """A small assignment that satisfies the path's conditions and contradicts its outcome (None when a condition is not
    arithmetic over the quantities and limits, or no such assignment exists)."""
    syms = [t for t in list(cur.values()) + [lim[c] for c in on if on[c]] + [start]
            if any(contains(c, t) for c, _ in conds) or t in (start,) or any(t in (cur[c], lim[c]) for c in on if on[c])]
    for vals in itertools.product((0, 2, 5), repeat=len(syms)):
        env = dict(zip(syms, vals))
        try:
            if not all(value_of(c, env) == b for c, b in conds):
                continue
            reached = any(value_of(quantity[c], env) >= value_of(lim[c], env) for c in on if on[c])
        except ValueError:
            return None
        if reached != val:
            return ", ".join(f"{show(s)} = {x}" for s, x in env.items())
    return None


def value_of(t, env):
    if t in env:
        return env[t]
    if isk(t):
        return kv(t)
    if t[0] == "cmp" and t[1] in ("<", "=="):
        a, b = value_of(t[2], env), value_of(t[3], env)
        return a < b if t[1] == "<" else a == b
    if t[0] == "lin":
        return t[1] + sum(k * value_of(x, env) for x, k in t[2])
    raise ValueError


def quantity_name(c):
    return {"max_epoch": "epoch", "max_fe": "number of evaluations", "max_time": "elapsed time", "max_early_stop": "epochs without improvement"}[c]


def settings(ctx, F):
    """Each limit is stored under its own name."""
    f = method(ctx, F.Te, "__init__")
    if f is None:
        return
    params = [a.arg for a in f.node.args.args]
    vals = {c: S("V_" + c) for c, _, _ in CRIT}
    checks = {n for n in F.V.methods if n.startswith("check_")}
    for conf in itertools.product((False, True), repeat=4):
        on = {c: b for (c, _, _), b in zip(CRIT, conf)}
        if not any(conf):
            continue

        def setup(st):
            for c in on:
                st.truth[cmp_("is", vals[c], NONE)] = False
                st.truth[("app", "bool", vals[c])] = True
        core = F.core(opaque={("Validator", n) for n in checks} | {("Logger", "create_logger"), ("Logger", "__init__"), ("Validator", "__init__")},
                      types={"self": F.Te})
        ps = paths_kw(ctx, core, f, {c: (vals[c] if on[c] else NONE) for c in on}, setup)
        for p in returns(ps):
            for c in on:
                v = p.attr(ME, c)
                k = call_of(p, v)
                if k and k[0].startswith("Validator.check_"):
                    v = k[1].get("value", v)
                elif k and k[0] in ("int", "float"):
                    v = k[1].get(0, v)
                check(ctx, "limits", f, v, vals[c] if on[c] else NONE, f"limit {c} (given: {', '.join(x for x in on if on[x])})")


def paths_kw(ctx, core, f, kw, setup):
    from ..core import GiveUp
    try:
        ps = core.run(f, [ME], kw, setup=setup)
    except (GiveUp, RecursionError) as e:
        ctx.undec(f"{f.where}: {e}")
        return None
    ctx.count("functions")
    ctx.count("paths", len(ps))
    return ps


def quantities(ctx, F):
    """check_termination hands each criterion the quantity it is about."""
    f = method(ctx, F.O, "check_termination")
    if f is None:
        return
    te = attr(ME, "termination")
    core = F.core(opaque={("Termination", "should_terminate"), ("History", "get_global_repeated_times")}, types={"self": F.O})
    sh = method(ctx, F.Te, "should_terminate")
    names = [a.arg for a in sh.node.args.args][1:5] if sh else ["current_epoch", "current_fe", "current_time", "current_threshold"]
    for p in returns(paths(ctx, core, f, [ME, K("end"), NONE, S("epoch")])):
        ctx.count("obligations")
        without = any(c == cmp_("is", te, NONE) and b for c, b in p.conds) or any(c == ("app", "bool", te) and not b for c, b in p.conds)
        v = p.value
        cs = calls_to(p, "Termination.should_terminate")
        if without:
            if core.decide(core.truthy(v, p.st), p.st) is True:
                ctx.find("criteria", cname(f), f.where, "stops a run that has no termination")
            elif core.decide(core.truthy(v, p.st), p.st) is None:
                ctx.undec(f"{f.where}: without termination returns {show(v)[:80]}")
            continue
        if len(cs) != 1:
            if not cs and core.decide(core.truthy(v, p.st), p.st) is False:
                ctx.find("criteria", cname(f), f.where, "a configured termination is not consulted when "
                         + " and ".join(("" if b else "not ") + show(c) for c, b in p.conds))
            else:
                ctx.undec(f"{f.where}: {len(cs)} calls of should_terminate")
            continue
        a, r, _ = cs[0]
        if v != r:
            dv = core.decide(core.truthy(v, p.st), p.st)
            dr = next((b for c, b in p.conds if c == ("app", "bool", r) or c == r), None)
            if dv is None or dr is None:
                ctx.undec(f"{f.where}: returns {show(v)[:80]}")
            elif dv != dr:
                ctx.find("criteria", cname(f), f.where, f"returns {show(v)} when should_terminate says {dr}")
        check(ctx, "criteria", f, a.get(names[0], NONE), S("epoch"), "epoch given to the criteria")
        check(ctx, "criteria", f, a.get(names[1], NONE), attr(ME, "nfe_counter"), "number of evaluations given to the criteria")
        t = a.get(names[2], NONE)
        if t[0] != "time":
            (ctx.undec if undecidable(t) else lambda s: ctx.find("criteria", cname(f), f.where, s))(f"time given to the criteria is {show(t)}")
        else:
            clock = t[2]
            ctx.clock_end = clock
        es = a.get(names[3], NONE)
        c = call_of(p, es)
        if c and c[0] == "History.get_global_repeated_times":
            check(ctx, "criteria", f, c[1].get("epsilon", NONE), attr(te, "epsilon"), "tolerance of early stopping")
        elif undecidable(es) and not c:
            ctx.undec(f"{f.where}: early stopping count {show(es)[:80]}")
        else:
            ctx.find("criteria", cname(f), f.where, f"early stopping is given {c[0] if c else show(es)}, not the number of epochs without improvement")
    # start of a run
    core = F.core(opaque={("Termination", "set_start_values"), ("Termination", "__init__")}, types={"self": F.O, "term": F.Te})
    st = method(ctx, F.Te, "set_start_values")
    sn = [a.arg for a in st.node.args.args][1:5] if st else []
    for p in returns(paths(ctx, core, f, [ME, K("start"), S("term"), NONE])):
        ctx.count("obligations")
        without = any(c == cmp_("is", S("term"), NONE) and b for c, b in p.conds)
        t = p.attr(ME, "termination")
        if without:
            check(ctx, "criteria", f, t if t != S("term") else NONE, NONE, "termination of a run without criteria")
            continue
        cs = calls_to(p, "Termination.set_start_values")
        n = p.attr(ME, "nfe_counter")
        check(ctx, "fresh-counters", f, n, K(0), "evaluation counter at the start of a limited run")
        if not cs:
            ctx.find("fresh-counters", cname(f), f.where, "the start values of the criteria are not set")
            continue
        a = cs[-1][0]
        for nm, want in zip(sn, (K(0), K(0), None, K(0))):
            v = a.get(nm, NONE)
            if want is None:
                if v[0] == "time" and getattr(ctx, "clock_end", v[2]) != v[2]:
                    ctx.find("fresh-counters", cname(f), f.where, f"the start time is read from {v[2]} but compared with {ctx.clock_end}")
                elif v[0] != "time":
                    (ctx.undec if undecidable(v) else lambda s: ctx.find("fresh-counters", cname(f), f.where, s))(f"start time is {show(v)}")
            else:
                check(ctx, "fresh-counters", f, v, want, nm)
        recv = a.get("self", a.get(0))
        if recv is not None and recv != t and not undecidable(recv) and not undecidable(t):
            ctx.find("fresh-counters", cname(f), f.where, f"start values are set on {show(recv)} but the run uses {show(t)}")
    if st is not None:
        core = F.core(types={"self": F.Te})
        vs = [S("v%d" % i) for i in range(4)]
        for p in returns(paths(ctx, core, st, [ME] + vs)):
            for (_, _, s), v in zip(CRIT, vs):
                check(ctx, "fresh-counters", st, p.attr(ME, s), v, s)


def early_stop_count(ctx, F):
    """Number of epochs at the end of the record during which the global best changed by at most epsilon."""
    f = method(ctx, F.H, "get_global_repeated_times")
    if f is None:
        return
    core = F.core(types={"self": F.H})
    lst = attr(ME, "list_global_best")
    for p in returns(paths(ctx, core, f, [ME, S("epsilon")])):
        ctx.count("obligations")
        v = p.value
        want = fold_spec(lst)
        if v == want:
            continue
        if v[0] == "fold" and not any(x[0] in ("unk", "lv", "after", "res") for x in T.walk(v)) and fold_shape(v):
            ctx.find("early-stop-count", cname(f), f.where, f"counts {show(v)}, should be {show(want)}")
        elif not undecidable(v):
            ctx.find("early-stop-count", cname(f), f.where, f"counts {show(v)}, should be {show(want)}")
        else:
            ctx.undec(f"{f.where}: {show(v)[:120]}")


def fold_spec(lst):
    i = ("bv", 0)
    d = absterm(sub(fit(at(lst, add(i, K(1)))), fit(at(lst, i))))
    body = ite(cmp_("<", S("epsilon"), d), K(0), add(("acc",), K(1)))
    return ("fold", sub(length(lst), K(1)), K(0), body, 0)


def fold_shape(v):
    """count = 0 or count + 1 depending on one comparison"""
    b = v[3]
    return b[0] == "ite" and {b[2], b[3]} <= {K(0), ("acc",), add(("acc",), K(1))} or b == add(("acc",), K(1))


def run_loop(ctx, F):
    f = method(ctx, F.O, "solve")
    if f is None:
        return
    from .c03 import private_helper
    names = {k for c in F.O.mro if hasattr(c, "methods") for k in c.methods}
    core = F.core(opaque={("Optimizer", n) for n in names if n != "solve" and not private_helper(F, n)}, types={"self": F.O})
    ps = paths(ctx, core, f, [ME] + [S(x) for x in ("problem", "mode", "n_workers", "termination", "starting_solutions", "seed")])
    for p in returns(ps):
        ctx.count("obligations")
        top = [e[1].split(".")[-1] for e in p.eff if e[0] == "call" and e[1].startswith("Optimizer.")]
        starts = [(i, args_of(e)) for i, e in enumerate([e for e in p.eff if e[0] == "call" and e[1].startswith("Optimizer.")])
                  if e[1] == "Optimizer.check_termination"]
        begin = [(i, a) for i, a in starts if a.get("mode") == K("start")]
        evals = [i for i, n in enumerate(top) if n in ("before_initialization", "initialization", "after_initialization", "before_main_loop")]
        if len(begin) != 1 or begin[0][1].get("termination") != S("termination"):
            ctx.find("run-loop", cname(f), f.where, "the run does not install the requested termination exactly once")
        elif evals and begin[0][0] > min(evals):
            ctx.find("run-loop", cname(f), f.where, "the criteria are started after the search already evaluated candidates")
        loops = [e for e in p.eff if e[0] == "loop" and any(c[0] == "call" and c[1] == "Optimizer.evolve" for info in e[3] for c in info[2])]
        if len(loops) != 1:
            ctx.undec(f"{f.where}: {len(loops)} loops call evolve")
            continue
        _, seq, ix, infos = loops[0]
        n = length(seq) if seq != ("while",) else None
        if n is None or undecidable(n):
            ctx.undec(f"{f.where}: number of epochs of the run loop")
        elif n != attr(ME, "epoch"):
            ctx.find("run-loop", cname(f), f.where, f"the run executes {show(n)} epochs, not the configured number")
        for o, conds, eff, upd, val in infos:
            if o == "raise":
                continue
            cs = [(e[1].split(".")[-1], args_of(e), e[3]) for e in eff if e[0] == "call" and e[1].startswith("Optimizer.")]
            order = [c[0] for c in cs]
            ends = [(i, c) for i, c in enumerate(cs) if c[0] == "check_termination"]
            if len(ends) != 1:
                if not ends and undecided_calls(eff):
                    ctx.undec(f"{f.where}: termination test not found")
                else:
                    ctx.find("run-loop", cname(f), f.where, f"an epoch consults the criteria {len(ends)} times")
                continue
            i, (nm, a, r) = ends[0]
            if a.get("mode") != K("end"):
                ctx.find("run-loop", cname(f), f.where, f"the criteria are consulted with mode {show(a.get('mode', NONE))}")
            for need in ("evolve", "update_global_best_agent"):
                if need not in order[:i]:
                    ctx.find("run-loop", cname(f), f.where, f"the criteria are consulted before {need} of the epoch")
            ev = [c for c in cs if c[0] == "evolve"]
            if n is not None and not undecidable(n):
                for c in ev:
                    if c[1].get("epoch") is not None:
                        check(ctx, "run-loop", f, c[1]["epoch"], add(ix, K(1)), "epoch given to the search step")
                if a.get("epoch") is not None:
                    check(ctx, "run-loop", f, a["epoch"], add(ix, K(1)), "epoch given to the criteria")
            said = next((b for c, b in conds if c in (("app", "bool", r), r)), None)
            stops = o in ("break", "return")
            if said is None:
                if stops:
                    ctx.find("run-loop", cname(f), f.where, "the run stops without any criterion being reached")
                else:
                    ctx.find("run-loop", cname(f), f.where, "the answer of the criteria is ignored")
            elif said != stops:
                ctx.find("run-loop", cname(f), f.where, f"the criteria say {'stop' if said else 'go on'} but the run {'stops' if stops else 'goes on'}")


def undecided_calls(eff):
    return any(e[0] == "call" and e[1].startswith(".") for e in eff)


def run(ctx):
    ctx.explanation = ("Truth table of Termination.should_terminate over all sets of configured criteria and all orderings of quantity and limit; "
                       "canonical terms of the quantities passed by check_termination, of the start values, of the early-stopping count; "
                       "the run loop's length, the place of the test and its effect on every path of an epoch.")
    F = Fw(ctx.prog)
    ctx.part("truth_table", truth_table, F)
    ctx.part("settings", settings, F)
    ctx.part("quantities", quantities, F)
    ctx.part("early_stop_count", early_stop_count, F)
    ctx.part("run_loop", run_loop, F)
    ctx.need("obligations", 60)
