"""Direction of comparisons: framework helpers against their specification (both directions, every strict ordering; ties are free), and
every place of an algorithm that orders raw fitness values."""
import ast
import re

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, fit, method, paths, check, cname, differs
from .c03 import extremes
from ..flow import run_all, report, construct


# ------------------------------------------------------------------ helpers of the framework
def truth_of(core, p):
    v = p.val
    c = core.truthy(v, p.st)
    return core.decide(c, p.st)


def comparators(ctx, F):
    x, y = S("x"), S("y")
    for name, cls, vals, ty in (("compare_target", F.O, (fa(x), fa(y)), F.T), ("compare_fitness", F.O, (x, y), None)):
        f = method(ctx, cls, name)
        if f is None:
            continue
        for mm in ("min", "max"):
            for r in "<>":
                core = F.core(types={"x": ty, "y": ty} if ty else {})
                for p in paths(ctx, core, f, [x, y, K(mm)], setup=lambda st: st.rels.__setitem__(vals, frozenset([r]))) or ():
                    verdict(ctx, core, f, p, (r == "<") == (mm == "min"), f"{name}(x, y, '{mm}') with x {r} y")
    # candidates
    for mm in ("min", "max"):
        for r in "<>":
            xwins = (r == "<") == (mm == "min")
            su = lambda st: st.rels.__setitem__((fit(x), fit(y)), frozenset([r]))
            ty = {"x": F.A, "y": F.A}
            f = method(ctx, F.O, "get_better_agent")
            if f:
                for rev in (False, True):
                    for p in paths(ctx, F.core(types=ty), f, [x, y, K(mm), K(rev)], setup=su) or ():
                        agent(ctx, f, p, x if xwins != rev else y, f"get_better_agent('{mm}', reverse={rev}) with x {r} y")
            f = method(ctx, F.A, "get_better_solution")
            if f:
                for p in paths(ctx, F.core(types=ty), f, [x, y, K(mm)], setup=su) or ():
                    agent(ctx, f, p, x if xwins else y, f"get_better_solution('{mm}') with self {r} other")
            f = method(ctx, F.A, "is_better_than")
            if f:
                core = F.core(types=ty)
                for p in paths(ctx, core, f, [x, y, K(mm)], setup=su) or ():
                    verdict(ctx, core, f, p, xwins, f"is_better_than('{mm}') with self {r} other")
            f = F.A.lookup("_compare_fitness")
            if f:
                core = F.core(types=ty)
                for p in paths(ctx, core, f, [x, y, K(mm)], setup=su) or ():
                    check(ctx, "comparison", f, p.value, K(-1 if xwins else 1), f"_compare_fitness('{mm}') with self {r} other")


def fa(x):
    return attr(x, "fitness")


def verdict(ctx, core, f, p, want, what):
    ctx.count("obligations")
    if p.kind != "return":
        ctx.find("comparison", cname(f), f.where, f"{what} raises {show(p.val)}")
        return
    got = truth_of(core, p)
    if got is None:
        ctx.undec(f"{f.where}: {what}: {show(p.value)}")
    elif got != want:
        ctx.find("comparison", cname(f), f.where, f"{what} is {got}")


def agent(ctx, f, p, want, what):
    if p.kind != "return":
        ctx.find("comparison", cname(f), f.where, f"{what} raises {show(p.val)}")
        return
    check(ctx, "comparison", f, uncopy(p.value), want, what)


def populations(ctx, F):
    pop, n_b, n_w = S("pop"), S("n_best"), S("n_worst")
    ty = {"pop": ("list", F.A), "pop_old": ("list", F.A), "pop_new": ("list", F.A)}
    for mm in ("min", "max"):
        srt, b, w, perm = extremes(pop, mm)
        n = length(pop)
        rs, rp = reverse(srt), reverse(perm)
        f = method(ctx, F.O, "get_sorted_population")
        for p in (f and paths(ctx, F.core(types=ty), f, [pop, K(mm)])) or ():
            check(ctx, "ranking", f, uncopy(at(p.value, K(0))), srt, f"sorted population ('{mm}')")
            check(ctx, "ranking", f, at(p.value, K(1)), perm, f"sorted indices ('{mm}')")
        f = method(ctx, F.O, "get_sorted_and_trimmed_population")
        for p in (f and paths(ctx, F.core(types=ty), f, [pop, S("m"), K(mm)])) or ():
            check(ctx, "ranking", f, uncopy(p.value), slice_(srt, NONE, S("m"), NONE), f"trimmed population ('{mm}')")
        for name, wa, wi in (("get_best_agent", b, K(0)), ("get_worst_agent", w, sub(n, K(1)))):
            f = method(ctx, F.O, name)
            for p in (f and paths(ctx, F.core(types=ty), f, [pop, K(mm)])) or ():
                check(ctx, "ranking", f, uncopy(at(p.value, K(0))), wa, f"agent ('{mm}')")
                check(ctx, "ranking", f, at(p.value, K(1)), at(perm, wi), f"index ('{mm}')")
        f = method(ctx, F.O, "get_special_agents")
        for ri in (False, True) if f else ():
            for p in paths(ctx, F.core(types=ty), f, [pop, n_b, n_w, K(mm), K(ri)]) or ():
                if p.kind != "return" or (cmp_("is", n_b, NONE), True) in p.conds or (cmp_("is", n_w, NONE), True) in p.conds:
                    continue
                v = p.value
                check(ctx, "ranking", f, uncopy(at(v, K(0))), srt, f"sorted population ('{mm}')")
                check(ctx, "ranking", f, uncopy(at(v, K(1))), slice_(perm if ri else srt, NONE, n_b, NONE), f"best group ('{mm}', indices={ri})")
                got = uncopy(at(v, K(2)))
                alt = slice_(perm if ri else srt, sub(n, n_w), NONE, NONE)
                if got != alt:
                    check(ctx, "ranking", f, got, slice_(rp if ri else rs, NONE, n_w, NONE), f"worst group ('{mm}', indices={ri})")
        f = method(ctx, F.O, "get_special_fitness")
        for p in (f and paths(ctx, F.core(types=ty), f, [pop, K(mm)])) or ():
            check(ctx, "ranking", f, at(p.value, K(1)), fit(b), f"best fitness ('{mm}')")
            check(ctx, "ranking", f, at(p.value, K(2)), fit(w), f"worst fitness ('{mm}')")
        # greedy selection
        f = method(ctx, F.O, "greedy_selection_population")
        old, new = S("pop_old"), S("pop_new")
        ix = ("ix", "greedy")
        for p in (f and paths(ctx, F.core(types=ty), f, [old, new, K(mm)])) or ():
            if p.kind != "return":
                continue
            ctx.count("obligations")
            v = uncopy(p.value)
            fo, fn = fit(at(old, ix)), fit(at(new, ix))
            for r in "<>":
                core = F.core(types=ty)
                st = p.st.clone()
                st.rels[(fn, fo)] = frozenset([r])
                e = pick(core, at(v, ix), st)
                want = at(new, ix) if (r == "<") == (mm == "min") else at(old, ix)
                d = differs(ctx, e, want)
                if d and (e[0] == "ite" or length(v) not in (length(old), length(new))):
                    d = None
                if d:
                    ctx.find("ranking", cname(f), f.where, f"greedy selection ('{mm}') keeps {show(e)} when the new value is {r} the old")
                elif d is None:
                    ctx.undec(f"{f.where}: greedy {show(e)[:160]}")
        # tournament
        f = method(ctx, F.O, "get_index_kway_tournament_selection")
        me = S("self")
        su = lambda st: st.attrs.__setitem__((attr(me, "problem"), "minmax"), K(mm))
        for rev in (False, True) if f else ():
            for p in paths(ctx, F.core(types={**ty, "self": F.O}), f, [me, pop, S("k_way"), S("output"), K(rev)], setup=su) or ():
                draws = [e[3] for e in p.eff if e[0] == "call" and e[1] == ".choice"]
                if p.kind != "return" or len(draws) != 1:
                    ctx.undec(f"{f.where}: draws")
                    continue
                ids = draws[0]
                nn = length(ids)
                keys = close(nn, fit(at(pop, at(ids, ("ix", "t")))), ("ix", "t"))
                order = gather(ids, sort_perm(keys, desc=mm == "max"))
                got, out = p.value, S("output")
                w1 = slice_(order, sub(nn, out), NONE, NONE) if rev else slice_(order, NONE, out, NONE)
                w2 = slice_(reverse(order), NONE, out, NONE) if rev else w1
                ctx.count("obligations")
                if got not in (w1, w2):
                    if any(x[0] in ("unk", "fold", "flat", "lv", "after") for x in T.walk(got)):
                        ctx.undec(f"{f.where}: tournament {show(got)[:160]}")
                    else:
                        ctx.find("ranking", cname(f), f.where, f"tournament ('{mm}', reverse={rev}) selects {show(got)}, expected {show(w1)}")
        # roulette wheel: probability falls (min) or rises (max) with the fitness value
        f = method(ctx, F.O, "get_index_roulette_wheel_selection")
        L = S("list_fitness")
        for p in (f and paths(ctx, F.core(types={"self": F.O}), f, [me, L], setup=su)) or ():
            ps = [a[2] for e in p.eff if e[0] == "call" and e[1] == ".choice" for a in e[2] if a[0] == "kw" and a[1] == "p"]
            for q in ps:
                ctx.count("obligations")
                s = sign_in(q, L)
                if s is None:
                    ctx.undec(f"{f.where}: roulette {show(q)[:160]}")
                elif (s < 0) != (mm == "min"):
                    ctx.find("ranking", cname(f), f.where, f"selection probability {'falls' if s < 0 else 'rises'} with the fitness value in '{mm}' problems")


def pick(core, t, st):
    if t[0] == "ite":
        d = core.decide(t[1], st)
        if d is not None:
            return pick(core, t[2] if d else t[3], st)
    return t


def sign_in(q, L):
    """Direction in which w[i]/sum(w) moves with L[i]."""
    if q[0] == "app" and q[1] == "/":
        q = q[2]
    if q == L:
        return 1
    if q[0] == "lin":
        for t, k in q[2]:
            if t == L:
                return k
    return None


# ------------------------------------------------------------------ algorithms
def function_ast(prog, where):
    rel, _, fn = where.partition(":")
    for m in prog.modules.values():
        if m.rel == rel:
            c, _, n = fn.rpartition(".")
            if c:
                k = m.classes.get(c)
                return k.methods.get(n).node if k and n in k.methods else None
            return m.functions[n].node if n in m.functions else None
    return None


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def mentions(n, words):
    return any(isinstance(x, ast.Attribute) and x.attr in words or isinstance(x, ast.Name) and x.id in words or
               isinstance(x, ast.arg) and x.arg in words for x in ast.walk(n))


def direction_aware(fn, line, col):
    """Is the ordering at this place adjusted to the direction by the code around it?"""
    words = {"minmax"}
    for _ in range(3):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and mentions(n.value, words) and any(isinstance(x, (ast.Compare, ast.IfExp, ast.Name)) for x in ast.walk(n.value)) \
                    and not any(isinstance(x, ast.Call) and mentions(x, words) for x in ast.walk(n.value)):
                words |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                words |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    stmt = None
    for n in ast.walk(fn):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With, ast.Try)):
            if n.lineno <= line <= (n.end_lineno or n.lineno):
                stmt = n
        elif isinstance(n, (ast.If, ast.While)) and n.test.lineno <= line <= (n.test.end_lineno or 0):
            if mentions(n.test, words):
                return True
    if stmt is None:
        return False
    # inside one expression: the direction is used outside of nested calls that merely receive it
    if isinstance(stmt, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr, ast.AnnAssign)):
        own = stmt.value
        for x in ast.walk(own) if own is not None else ():
            if isinstance(x, ast.IfExp) and mentions(x.test, words) or isinstance(x, ast.Compare) and mentions(x, words) or \
                    isinstance(x, ast.keyword) and x.arg == "reverse" and mentions(x.value, words):
                return True
            if isinstance(x, ast.Name) and x.id in words - {"minmax"}:
                return True
    tg = set()
    if isinstance(stmt, ast.Assign):
        for t in stmt.targets:
            tg |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)}
    tg -= {"self"}
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and mentions(n.test, words) and any(mentions(b, tg) for b in n.body + n.orelse):
            return True
        if isinstance(n, ast.IfExp) and mentions(n.test, words) and (mentions(n.body, tg) or mentions(n.orelse, tg)):
            return True
    return False


def statement(fn, line, col):
    """Text of the simple statement (or the arm of a conditional expression) at a place."""
    arms = [a for n in ast.walk(fn) if isinstance(n, ast.IfExp) for a in (n.body, n.orelse)
            if (a.lineno, a.col_offset) <= (line, col) < (a.end_lineno, a.end_col_offset)]
    if arms:
        return ast.unparse(max(arms, key=lambda a: (a.lineno, a.col_offset)))
    for n in ast.walk(fn):
        if choice(n) and (n.test.lineno, n.test.col_offset) <= (line, col) < (n.test.end_lineno, n.test.end_col_offset):
            return ast.unparse(n)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr, ast.AnnAssign)) and n.lineno <= line <= (n.end_lineno or n.lineno):
            return ast.unparse(n)
    return None


def choice(n):
    """An if statement that only selects the value of one name."""
    if not isinstance(n, ast.If) or len(n.body) != 1 or len(n.orelse) != 1:
        return False
    a, b = n.body[0], n.orelse[0]
    if isinstance(a, ast.Return) and isinstance(b, ast.Return):
        return True
    return isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and [ast.unparse(t) for t in a.targets] == [ast.unparse(t) for t in b.targets]


def selects(fn, line, col):
    """Is the place the test of an expression that selects between two values?"""
    for n in ast.walk(fn):
        t = n.test if isinstance(n, ast.IfExp) or choice(n) else n.args[0] if isinstance(n, ast.Call) and len(n.args) == 3 and ast.unparse(n.func).endswith("where") else None
        if t is not None and (t.lineno, t.col_offset) <= (line, col) < (t.end_lineno, t.end_col_offset):
            return True
    return False


MIRROR = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "argmin": "argmax", "argmax": "argmin", "min": "max", "max": "min",
          "nanargmin": "nanargmax", "nanargmax": "nanargmin"}


def operands(what):
    return re.sub(r"\b(argmin|argmax|min|max|amin|amax)\b", "ext", re.sub(r"[<>]=?", "<>", what)).replace("[::-1]", "")


def algorithms(ctx):
    res = run_all(ctx)
    report(ctx, res, {"wrong-direction"})
    sites = {}
    for r in res:
        for k, v in r["cmps"].items():
            for (mm, line, col) in v:
                sites.setdefault(k, {}).setdefault((line, col), {}).setdefault(mm, set()).add(r["cls"])
    ctx.count("ordering_sites", sum(len(v) for v in sites.values()))
    groups, stmts, tests = {}, {}, {}
    for (where, kind, what, op), places in sites.items():
        if where.startswith("mealpy/optimizer.py") or where.startswith("mealpy/utils/"):
            continue                    # decided by the specification of the helpers
        fn = function_ast(ctx.prog, where)
        for (line, col), mms in places.items():
            both = sorted(set(mms.get("min", ())) & set(mms.get("max", ())))
            if both:
                if fn is not None and direction_aware(fn, line, col):
                    ctx.undec(f"{where}: `{what}` is used with the direction")
                    continue
                ctx.find("directionless", construct(where), where,
                         f"`{what}` orders raw fitness values the same way for minimisation and maximisation [{', '.join(both[:3])}]")
            else:
                for mm in mms:
                    groups.setdefault((where, kind, operands(what)), {}).setdefault(mm, {}).setdefault(op, set()).add(what)
                    if fn is not None:
                        t = selects(fn, line, col)
                        tests[(where, kind, operands(what))] = tests.get((where, kind, operands(what)), True) and t
                        stmts.setdefault((where, kind, operands(what)), {}).setdefault(mm, set()).add(statement(fn, line, col))
    for (where, kind, what), by in groups.items():
        lo, hi = set(by.get("min", ())), set(by.get("max", ()))
        ctx.count("mirrored_groups")
        if lo and hi and lo == hi and not any(MIRROR.get(o) in lo for o in lo):
            ss = stmts.get((where, kind, what), {})
            if all(o.startswith(("argsort", "sort")) or o in MIRROR and kind == "compare" and tests.get((where, kind, what)) for o in lo) and not (ss.get("min", set()) & ss.get("max", set()) - {None}):
                ctx.undec(f"{where}: `{what}` in separate branches")
                continue
            ctx.find("directionless", construct(where), where,
                     f"`{sorted(by['min'][next(iter(lo))])[0]}` orders raw fitness values the same way in the branches for minimisation and maximisation")


def run(ctx):
    ctx.explanation = ("Comparison helpers: canonical terms for both directions and every strict ordering against the specification. "
                       "Algorithms: abstract interpretation of every class in both directions; a place that orders raw fitness must be reached in "
                       "one direction only or be adjusted to the direction, and helper calls must receive the problem's own direction.")
    F = Fw(ctx.prog)
    ctx.part("comparators", comparators, F)
    ctx.part("populations", populations, F)
    ctx.part("algorithms", algorithms)
    ctx.need("classes", 150)
