"""Specifications of the framework primitives whose meaning the candidate-flow interpreter assumes."""
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, fit, method, paths, check, cname, undecidable
from .. import terms as T

ME = S("self")
MODES = ("single", "swarm", "thread", "process")
POOL = ("swarm", "thread", "process")


def flat(eff, loops=()):
    """(event, enclosing loops) of an effect list; a loop is (sequence, index, conditions)."""
    for e in eff:
        if e[0] == "loop":
            for info in e[3]:
                yield from flat(info[2], loops + ((e[1], e[2], tuple(info[1])),))
        else:
            yield e, loops


def call_of(p, t):
    """The recorded call a result term stands for: (name, {argument: term}, loops)."""
    if t[0] != "res":
        return None
    for e, loops in flat(p.eff):
        if e[0] == "call" and e[3][:2] == t[:2]:
            a = args_of(e)
            for x, y in zip(e[3][2:], t[2:]):
                a = {k: T.subst(v, x, y) for k, v in a.items()}
            return e[1], a, loops
    return None


def args_of(e):
    d = {}
    for i, a in enumerate(e[2]):
        if a[0] == "kw":
            d[a[1]] = a[2]
        else:
            d[i] = a
    return d


def calls_to(p, name):
    return [(args_of(e), e[3], loops) for e, loops in flat(p.eff) if e[0] == "call" and (e[1] == name or e[1].endswith("." + name))]


def returns(ps):
    return [p for p in ps or () if p.kind == "return"]


def mode_setup(m):
    def su(st):
        st.attrs[(ME, "mode")] = K(m)
    return su


# ---------------------------------------------------------------- C01
def correction(ctx, F):
    f = method(ctx, F.O, "correct_solution")
    if f is not None:
        core = F.core(opaque={("Optimizer", "amend_solution"), ("Problem", "correct_solution")}, types={"self": F.O})
        for p in returns(paths(ctx, core, f, [ME, S("solution")])):
            ctx.count("obligations")
            v = p.value
            c = call_of(p, v)
            if c and c[0] == "Problem.correct_solution":
                x = c[1].get("x", c[1].get(0))
                ok = x is not None and T.contains(x, S("solution")) or call_of(p, x or K(None)) is not None
                if x is not None and not ok and not undecidable(x):
                    ctx.find("correction", cname(f), f.where, f"corrects {show(x)}, not the given solution")
            elif v[0] != "res" and undecidable(v):
                ctx.undec(f"{f.where}: {show(v)[:120]}")
            else:
                ctx.find("correction", cname(f), f.where, f"returns {c[0] + '(..)' if c else show(v)}, not the result of the problem's correction")
    f = method(ctx, F.O, "generate_opposition_solution")
    if f is not None:
        core = F.core(opaque={("Optimizer", "correct_solution")}, types={"self": F.O, "agent": F.A, "g_best": F.A})
        for p in returns(paths(ctx, core, f, [ME, S("agent"), S("g_best")])):
            ctx.count("obligations")
            c = call_of(p, p.value)
            if not (c and c[0] == "Optimizer.correct_solution"):
                ctx.find("correction", cname(f), f.where, f"returns {show(p.value)[:100]} without correcting it")
    f = method(ctx, F.O, "generate_empty_agent")
    if f is not None:
        core = F.core(opaque={("Problem", "generate_solution")}, types={"self": F.O})
        for p in returns(paths(ctx, core, f, [ME])):
            ctx.count("obligations")
            s = p.attr(p.val, "solution")
            c = call_of(p, s)
            if c and c[0] == "Problem.generate_solution":
                if c[1].get("encoded", TRUE) != TRUE:
                    ctx.find("generation", cname(f), f.where, "the generated solution is not encoded")
            elif not undecidable(s) or c:
                ctx.find("generation", cname(f), f.where, f"the new candidate's solution is {c[0] if c else show(s)}, not generated by the problem")
            else:
                ctx.undec(f"{f.where}: solution {show(s)[:100]}")
        for p in returns(paths(ctx, core, f, [ME, S("solution")])):
            if (cmp_("is", S("solution"), NONE), True) in p.conds or (cmp_("==", S("solution"), NONE), True) in p.conds:
                continue
            check(ctx, "generation", f, p.attr(p.val, "solution"), S("solution"), "solution of the candidate")


# ---------------------------------------------------------------- C02
def evaluation(ctx, F):
    # Problem.get_target: a target made of the objective at the given solution
    f = method(ctx, F.P, "get_target")
    if f is not None:
        core = F.core(opaque={("Problem", "obj_func"), ("Target", "__init__")}, types={"self": F.P})
        for p in returns(paths(ctx, core, f, [ME, S("solution")])):
            ctx.count("obligations")
            ks = [e for e, _ in flat(p.eff) if e[0] == "construct" and e[1] == "Target" and e[3] == p.val]
            if not ks:
                ctx.undec(f"{f.where}: result {show(p.val)[:80]}")
                continue
            a = args_of(ks[-1])
            o = a.get("objectives", a.get(0))
            c = call_of(p, o) if o is not None else None
            if not (c and c[0].endswith("obj_func")):
                ctx.find("evaluation", cname(f), f.where, f"the target's objectives are {show(o) if o else 'missing'}, not the objective's value")
            else:
                x = c[1].get("x", c[1].get(1, c[1].get(0)))
                xs = [t for t in c[1].values()]
                if S("solution") not in xs:
                    ctx.find("evaluation", cname(f), f.where, f"the objective is called with {', '.join(show(t) for t in xs)}")
            w = a.get("weights", a.get(1))
            if w is not None:
                check(ctx, "evaluation", f, w, attr(ME, "obj_weights"), "weights of the target")
            else:
                ctx.find("evaluation", cname(f), f.where, "the problem's objective weights are not used")
    f = method(ctx, F.O, "get_target")
    if f is not None:
        core = F.core(opaque={("Problem", "get_target")}, types={"self": F.O})
        for flag in (True, False):
            for p in returns(paths(ctx, core, f, [ME, S("solution"), K(flag)])):
                ctx.count("obligations")
                c = call_of(p, p.value)
                if not (c and c[0] == "Problem.get_target" and c[1].get("solution", c[1].get(0)) == S("solution")):
                    if not undecidable(p.value) or c:
                        ctx.find("evaluation", cname(f), f.where, f"returns {c[0] + str([show(v) for v in c[1].values()]) if c else show(p.value)}, "
                                 "not the problem's target of the given solution")
                    else:
                        ctx.undec(f"{f.where}: {show(p.value)[:100]}")
    f = method(ctx, F.O, "generate_agent")
    if f is not None:
        core = F.core(opaque={("Optimizer", "get_target"), ("Problem", "generate_solution")}, types={"self": F.O})
        for a in ([ME], [ME, S("solution")]):
            for p in returns(paths(ctx, core, f, a)):
                ctx.count("obligations")
                s, t = p.attr(p.val, "solution"), p.attr(p.val, "target")
                c = call_of(p, t)
                if not (c and c[0] == "Optimizer.get_target"):
                    ctx.find("evaluation", cname(f), f.where, f"the new candidate's target is {show(t)[:80]}")
                elif c[1].get("solution") != s:
                    ctx.find("evaluation", cname(f), f.where, f"the candidate holds {show(s)[:80]} but is evaluated at {show(c[1].get('solution', NONE))[:80]}")
    batch(ctx, F, "evaluation")
    # copies carry the same solution and an equal target
    f = method(ctx, F.A, "copy")
    if f is not None:
        core = F.core(opaque={("Target", "copy")}, types={"self": F.A}, special={}, pure={("Target", "copy")})
        for p in returns(paths(ctx, core, f, [ME])):
            ctx.count("obligations")
            if p.val == ME:
                continue
            s, t = p.attr(p.val, "solution"), p.attr(p.val, "target")
            check(ctx, "copying", f, bare(s), attr(ME, "solution"), "solution of the copy")
            c = call_of(p, t)
            if c and c[0] == "Target.copy" or t[0] == "app" and T.contains(t, attr(ME, "target")) or t == attr(ME, "target") \
                    or t[0] == "copy" and t[1] == attr(ME, "target"):
                continue
            if not undecidable(t):
                ctx.find("copying", cname(f), f.where, f"target of the copy is {show(t)[:100]}")
            else:
                ctx.undec(f"{f.where}: target of the copy is {show(t)[:100]}")
    f = method(ctx, F.T, "copy")
    if f is not None:
        core = F.core(opaque={("Target", "__init__")}, types={"self": F.T})
        for p in returns(paths(ctx, core, f, [ME])):
            ctx.count("obligations")
            ks = [e for e, _ in flat(p.eff) if e[0] == "construct" and e[3] == p.val]
            if not ks:
                ctx.undec(f"{f.where}: {show(p.val)[:80]}")
                continue
            a = args_of(ks[-1])
            for n, i in (("objectives", 0), ("weights", 1)):
                v = a.get(n, a.get(i, NONE))
                v = bare(v)
                if v == attr(ME, "_" + n):
                    continue
                check(ctx, "copying", f, v, attr(ME, n), f"{n} of the copy")
    f = method(ctx, F.A, "update_agent")
    if f is not None:
        core = F.core(types={"self": F.A})
        for p in returns(paths(ctx, core, f, [ME, S("solution"), S("target")])):
            check(ctx, "copying", f, p.attr(ME, "solution"), S("solution"), "solution")
            check(ctx, "copying", f, p.attr(ME, "target"), S("target"), "target")
    for n in ("objectives", "fitness", "weights"):
        f = method(ctx, F.T, n)
        if f is not None:
            core = Core_plain(F)
            for p in returns(paths(ctx, core, f, [ME])):
                check(ctx, "copying", f, bare(p.value), attr(ME, "_" + n), f"Target.{n}")
    fitness_value(ctx, F)


def Core_plain(F):
    from ..core import Core
    return Core(F.prog, lambda f: False, F.types, {ME: F.T})


def bare(t):
    """Copies of arrays are as good as the array."""
    while t[0] == "copy" or t[0] == "app" and t[1] in ("array", "asarray", "copy", "list", "tuple", "deepcopy") and len(t) >= 3:
        t = t[1] if t[0] == "copy" else t[2]
    return t


def fitness_value(ctx, F):
    """The fitness is the weighted sum of the objectives."""
    f = method(ctx, F.T, "calculate_fitness")
    if f is None:
        return
    w = S("weights")
    core = Core_plain(F)
    for p in returns(paths(ctx, core, f, [ME, w])):
        v = p.attr(ME, "_fitness")
        ctx.count("obligations")
        if undecidable(v):
            ctx.undec(f"{f.where}: fitness {show(v)[:100]}")
        elif not (T.contains(v, attr(ME, "objectives")) or T.contains(v, attr(ME, "_objectives"))):
            ctx.find("evaluation", cname(f), f.where, f"the fitness is {show(v)}, which does not depend on the objectives")
        elif v[0] == "app" and v[1] == "dot" and len(v) == 4:
            ws = [x for x in v[2:] if bare(x) not in (attr(ME, "objectives"), attr(ME, "_objectives"))]
            if len(ws) == 1 and bare(ws[0]) != w and T.contains(ws[0], w):
                ctx.find("evaluation", cname(f), f.where, f"the objectives are weighted with {show(ws[0])}")


def batch(ctx, F, rule):
    """update_target_for_population: each member gets the value of its own solution; nothing in single mode; counted once each."""
    f = method(ctx, F.O, "update_target_for_population")
    if f is None:
        return
    pop = S("pop")
    for m in MODES:
        core = F.core(opaque={("Optimizer", "get_target")}, types={"self": F.O, "pop": ("list", F.A)})
        for p in returns(paths(ctx, core, f, [ME, pop], setup=mode_setup(m))):
            ctx.count("obligations")
            n = length(pop)
            cs = calls_to(p, "Optimizer.get_target")
            sets = [(e, loops) for e, loops in flat(p.eff) if e[0] == "setattr" and e[2] == "target"]
            empty = any(c == cmp_("==", n, K(0)) and b for c, b in p.conds)
            cnt = p.attr(ME, "nfe_counter")
            inner = [a.get("counted", TRUE) for a, _, _ in cs]
            if rule == "counting":
                if m == "single" and not cs:
                    check(ctx, rule, f, cnt, attr(ME, "nfe_counter"), f"evaluation counter (mode {m})")
                elif all(x == FALSE for x in inner):
                    check(ctx, rule, f, cnt, attr(ME, "nfe_counter") if empty else T.add(attr(ME, "nfe_counter"), n), f"evaluation counter (mode {m})")
                elif all(x == TRUE for x in inner):
                    if m == "process":
                        ctx.find(rule, cname(f), f.where, "evaluations are counted inside worker processes, where the count is lost")
                    elif m == "thread":
                        ctx.find(rule, cname(f), f.where, "evaluations are counted inside worker threads without a lock")
                    elif cnt != attr(ME, "nfe_counter") and not undecidable(cnt):
                        ctx.find(rule, cname(f), f.where, f"every evaluation is counted by get_target and again: {show(cnt)} (mode {m})")
                else:
                    ctx.undec(f"{f.where}: counting per call {[show(x) for x in inner]}")
                if m != "single" and not empty:
                    if len(cs) != 1:
                        ctx.undec(f"{f.where}: {len(cs)} evaluation sites in mode {m}")
                    elif len(cs[0][2]) != 1 or norm_len(cs[0][2][0][0]) != n:
                        ln = norm_len(cs[0][2][0][0]) if len(cs[0][2]) == 1 else None
                        if ln is not None and not undecidable(ln):
                            ctx.find(rule, cname(f), f.where, f"{show(ln)} candidates are evaluated in mode {m} but {show(n)} are counted")
                continue
            # values
            v = p.value
            check(ctx, rule, f, v, pop, f"result (mode {m})")
            if m == "single" or empty:
                continue
            if not cs or not sets:
                ctx.find(rule, cname(f), f.where, f"no candidate is evaluated in mode {m}")
                continue
            for e, loops in sets:
                # setattr(at(pop, ix), target, res)
                obj, val = e[1], e[3]
                if len(loops) != 1 or obj[0] != "at" or obj[1] != pop:
                    ctx.undec(f"{f.where}: target stored on {show(obj)[:80]} (mode {m})")
                    continue
                c = call_of(p, val)
                if c and c[0] == ".result" and unordered(p, c[1].get(0)) and not unordered(p, obj[2]):
                    ctx.find(rule, cname(f), f.where, f"candidate {show(obj)} receives the result of whichever worker finishes at that "
                             f"position (mode {m})")
                    continue
                if c and unordered(p, obj[2]):
                    ctx.undec(f"{f.where}: pairing of workers and candidates (mode {m})")
                    continue
                ln = norm_len(loops[0][0])
                if ln != n and undecidable(ln):
                    ctx.undec(f"{f.where}: {show(ln)[:80]} candidates receive a value (mode {m})")
                elif ln != n:
                    ctx.find(rule, cname(f), f.where, f"only {show(norm_len(loops[0][0]))} of {show(n)} candidates receive a value (mode {m})")
                if not c:
                    (ctx.undec if undecidable(val) else lambda s: ctx.find(rule, cname(f), f.where, s))(
                        f"{f.where}: candidate {show(obj)} receives {show(val)[:100]} (mode {m})")
                    continue
                if c[0] != "Optimizer.get_target":
                    ctx.find(rule, cname(f), f.where, f"candidate {show(obj)} receives the result of {c[0]} (mode {m})")
                    continue
                s, want = c[1].get("solution"), attr(obj, "solution")
                if s is not None and s != want:
                    if undecidable(s):
                        ctx.undec(f"{f.where}: evaluated solution {show(s)[:100]}")
                    else:
                        ctx.find(rule, cname(f), f.where, f"candidate {show(obj)} receives the value of {show(s)} (mode {m})")


def unordered(p, t):
    """Does the term depend on the completion order of workers?"""
    return t is not None and any(x[0] == "res" and (call_of(p, x) or ("",))[0].endswith(("as_completed", "futures.wait", "imap_unordered"))
                                 for x in T.walk(t))


def norm_len(seq):
    return length(seq)


# ---------------------------------------------------------------- C10
def counting(ctx, F):
    f = method(ctx, F.O, "get_target")
    if f is not None:
        core = F.core(opaque={("Problem", "get_target")}, types={"self": F.O})
        for a, inc in (([ME, S("x")], 1), ([ME, S("x"), K(True)], 1), ([ME, S("x"), K(False)], 0)):
            for p in returns(paths(ctx, core, f, a)):
                check(ctx, "counting", f, p.attr(ME, "nfe_counter"), T.add(attr(ME, "nfe_counter"), K(inc)),
                      f"evaluation counter after get_target(counted={show(a[2]) if len(a) > 2 else 'default'})")
                n = calls_to(p, "Problem.get_target")
                ctx.count("obligations")
                if len(n) != 1:
                    ctx.find("counting", cname(f), f.where, f"evaluates {len(n)} times per call")
    f = method(ctx, F.P, "get_target")
    if f is not None:
        core = F.core(opaque={("Problem", "obj_func"), ("Target", "__init__")}, types={"self": F.P})
        for p in returns(paths(ctx, core, f, [ME, S("x")])):
            n = [e for e, _ in flat(p.eff) if e[0] == "call" and e[1].endswith("obj_func")]
            ctx.count("obligations")
            if len(n) != 1:
                ctx.find("counting", cname(f), f.where, f"calls the objective {len(n)} times per evaluation")
    f = method(ctx, F.O, "generate_agent")
    if f is not None:
        core = F.core(opaque={("Optimizer", "get_target"), ("Problem", "generate_solution")}, types={"self": F.O})
        for p in returns(paths(ctx, core, f, [ME])):
            cs = calls_to(p, "Optimizer.get_target")
            ctx.count("obligations")
            if len(cs) != 1:
                ctx.find("counting", cname(f), f.where, f"evaluates the new candidate {len(cs)} times")
            elif cs[0][0].get("counted", TRUE) != TRUE:
                ctx.find("counting", cname(f), f.where, "the evaluation of a new candidate is not counted")
            check(ctx, "counting", f, p.attr(ME, "nfe_counter"), attr(ME, "nfe_counter"), "evaluation counter besides get_target")
    batch(ctx, F, "counting")


# ---------------------------------------------------------------- C05
def copies(ctx, F):
    pop = S("pop")
    A = ("list", F.A)

    def is_copy(t):
        return t[0] == "copy"

    def report(f, what, t):
        ctx.count("obligations")
        if is_copy(t):
            return
        if t[0] == "ite":
            report(f, what, t[2])
            report(f, what, t[3])
        elif undecidable(t):
            ctx.undec(f"{f.where}: {what} is {show(t)[:100]}")
        else:
            ctx.find("shared-record", cname(f), f.where, f"{what} is {show(t)}, the population member itself and not a copy")

    for mm in ("min", "max"):
        for n in ("get_best_agent", "get_worst_agent"):
            f = method(ctx, F.O, n)
            if f is not None:
                for p in returns(paths(ctx, F.core(types={"pop": A}), f, [pop, K(mm)])):
                    report(f, "the agent handed out", at(p.value, K(0)))
        f = method(ctx, F.O, "get_special_agents")
        if f is not None:
            for p in returns(paths(ctx, F.core(types={"pop": A}), f, [pop, S("nb"), S("nw"), K(mm)])):
                for i, w in ((1, "best"), (2, "worst")):
                    v = at(p.value, K(i))
                    if v == NONE:
                        continue
                    report(f, f"each {w} agent handed out", at(v, ("ix", "e")))
        f = method(ctx, F.O, "get_better_agent")
        if f is not None:
            for rev in (True, False):
                for p in returns(paths(ctx, F.core(types={"x": F.A, "y": F.A}), f, [S("x"), S("y"), K(mm), K(rev)])):
                    report(f, "the better agent", p.value)
    f = method(ctx, F.O, "duplicate_pop")
    if f is not None:
        for p in returns(paths(ctx, F.core(types={"pop": A}), f, [pop])):
            report(f, "each member of the duplicate", at(p.value, ("ix", "e")))
    f = method(ctx, F.O, "generate_group_population")
    if f is not None:
        for p in returns(paths(ctx, F.core(types={"pop": A, "self": F.O}), f, [ME, pop, S("n"), S("m")])):
            report(f, "each member of a group", at(at(p.value, ("ix", "e")), ("ix", "g")))
    h = attr(ME, "history")
    L = ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")
    f = method(ctx, F.O, "update_global_best_agent")
    if f is not None:
        for mm in ("min", "max"):
            for save in (True, False):
                def su(st):
                    st.attrs[(attr(ME, "problem"), "minmax")] = K(mm)
                    st.attrs[(ME, "problem")] = attr(ME, "problem")
                for p in returns(paths(ctx, F.core(types={"self": F.O, "pop": A}), f, [ME, pop, K(save)], setup=su)):
                    for n in L:
                        t = p.held(h, n)
                        new = t[2] if t[0] == "cat" and t[2][0] == "list" else None
                        if new is not None:
                            for x in new[1:]:
                                report(f, f"the agent added to history.{n}", x)
                        elif t[0] == "setat":
                            report(f, f"the agent stored in history.{n}", t[3])
                        elif t != attr(h, n):
                            ctx.undec(f"{f.where}: history.{n} is {show(t)[:100]}")
                    report(f, "the global best handed out", at(p.value, K(1)))
    f = method(ctx, F.H, "store_initial_best_worst")
    if f is not None:
        for p in returns(paths(ctx, F.core(types={"self": F.H, "b": F.A, "w": F.A}), f, [ME, S("b"), S("w")])):
            for n in L:
                t = p.held(ME, n)
                if t[0] == "list":
                    for x in t[1:]:
                        report(f, f"the agent stored in {n}", x)
                else:
                    ctx.undec(f"{f.where}: {n} is {show(t)[:100]}")
    f = method(ctx, F.O, "track_optimize_step")
    if f is not None:
        def su(st):
            st.attrs[(attr(ME, "problem"), "save_population")] = TRUE
            st.attrs[(ME, "problem")] = attr(ME, "problem")
        for p in returns(paths(ctx, F.core(types={"self": F.O, "pop": A}), f, [ME, pop, S("epoch"), S("runtime")], setup=su)):
            t = p.held(h, "list_population")
            if t[0] == "cat" and t[2][0] == "list" and len(t[2]) == 2:
                report(f, "each member of the stored population", at(t[2][1], ("ix", "e")))
            else:
                ctx.undec(f"{f.where}: list_population {show(t)[:100]}")
    # Agent.copy and Target.copy make new objects
    for cls, n in ((F.A, "copy"), (F.T, "copy")):
        f = method(ctx, cls, n)
        if f is None:
            continue
        core = F.core(opaque={("Target", "copy"), ("Target", "__init__")} if cls is F.A else {("Target", "__init__")}, types={"self": cls}, special={})
        for p in returns(paths(ctx, core, f, [ME])):
            ctx.count("obligations")
            if p.val == ME:
                ctx.find("shared-record", cname(f), f.where, "the copy is the object itself")
            elif cls is F.A and p.val[0] == "new":
                if p.attr(p.val, "target") == attr(ME, "target"):
                    # a target is never modified after it was computed, sharing is harmless unless set_* is called
                    pass
