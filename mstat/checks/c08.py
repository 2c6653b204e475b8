"""Hyper-parameters: what the validator accepts, what every constructor checks, stores and reports, and the accepted ranges."""
import ast
import itertools
import json
import math
import numbers
import os

from ..core import GiveUp
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, check, cname, undecidable
from .. import terms as T
from .prims import flat, args_of, returns, ME

RANGES = os.path.join(os.path.dirname(os.path.dirname(__file__)), "data", "ranges.json")
INF = float("inf")
KINDS = {"check_int": "int", "check_float": "float", "check_str": "str", "check_bool": "bool"}


class NoValue(Exception):
    """The term has no value in the model."""


class Rejected(Exception):
    """Evaluating the term raises in the model (comparing a string with a number, say)."""


EXT = {"builtins.int": int, "builtins.float": float, "builtins.str": str, "builtins.bool": bool, "builtins.list": list, "builtins.tuple": tuple,
       "builtins.dict": dict, "numbers.Number": numbers.Number, "numbers.Integral": numbers.Integral, "numbers.Real": numbers.Real,
       "builtins.NoneType": type(None), "builtins.set": set}
OUTSIDE = ("numpy.",)


def ev(t, env, bv=()):
    """Value of a term under an assignment of model values to its parameters."""
    o = t[0]
    if t in env:
        return env[t]
    if o == "k":
        return t[2]
    if o == "ext":
        if t[1] in EXT:
            return EXT[t[1]]
        if t[1] in ("numpy.pi", "math.pi"):
            return math.pi
        if t[1].startswith(OUTSIDE):
            return t
        raise NoValue(t)
    if o == "bv":
        return env.get(("ix", t[1])) if ("ix", t[1]) in env else bv[t[1]]
    if o in ("tup", "list"):
        r = [ev(x, env, bv) for x in t[1:]]
        return tuple(r) if o == "tup" else r
    if o == "dict":
        return {ev(x[1], env, bv): ev(x[2], env, bv) for x in t[1:]}
    if o == "not":
        return not ev(t[1], env, bv)
    if o == "or":
        return any(ev(x, env, bv) for x in t[1:])
    if o == "and":
        return all(ev(x, env, bv) for x in t[1:])
    if o == "ite":
        return ev(t[2] if ev(t[1], env, bv) else t[3], env, bv)
    if o == "len":
        v = ev(t[1], env, bv)
        if not hasattr(v, "__len__"):
            raise Rejected
        return len(v)
    if o == "at":
        v, i = ev(t[1], env, bv), ev(t[2], env, bv)
        try:
            return v[i]
        except (TypeError, IndexError, KeyError):
            raise Rejected
    if o == "lin":
        parts = [(ev(x, env, bv), k) for x, k in t[2]]
        if any(isinstance(v, (set, frozenset)) for v, _ in parts):      # set difference
            plus, minus = [v for v, k in parts if k == 1], [v for v, k in parts if k == -1]
            if t[1] or len(plus) != 1 or len(plus) + len(minus) != len(parts):
                raise NoValue(t)
            return set(plus[0]).difference(*minus)
        return t[1] + sum(k * v for v, k in parts)
    if o == "*":
        r = 1
        for x in t[1:]:
            r *= ev(x, env, bv)
        return r
    if o == "/":
        return ev(t[1], env, bv) / ev(t[2], env, bv)
    if o == "//":
        return ev(t[1], env, bv) // ev(t[2], env, bv)
    if o == "cmp":
        a, b = ev(t[2], env, bv), ev(t[3], env, bv)
        try:
            if t[1] == "<":
                return a < b
            if t[1] == "==":
                return a == b
            if t[1] == "is":
                return a is b if not isinstance(a, (int, float, str)) else a == b and type(a) is type(b)
            if t[1] == "in":
                return a in b
        except TypeError:
            raise Rejected
    if o == "map":
        n = ev(t[1], env, bv)
        if not isinstance(n, int) or n > 16:
            raise NoValue(t)
        h = t[3] if len(t) > 3 else 0
        return [ev(t[2], {**env, ("ix", h): i}, bv) for i in range(n)]
    if o == "app":
        f, a = t[1], [ev(x[2] if x[0] == "kw" else x, env, bv) for x in t[2:]]
        if f == "type":
            return type(a[0])
        if f == "isinstance":
            if len(a) != 2:
                raise NoValue(t)
            ks = a[1] if isinstance(a[1], (tuple, list)) and not (a[1] and a[1][0] == "ext") else (a[1],)
            return any(isinstance(k, type) and isinstance(a[0], k) for k in ks)
        if f.split(".")[-1] in ("floor", "ceil", "sqrt") and len(a) == 1:
            return getattr(math, f.split(".")[-1])(a[0])
        if f in ("//", "/", "-", "**", "%") and len(a) == 2:
            return {"//": lambda x, y: x // y, "/": lambda x, y: x / y, "-": lambda x, y: x - y, "**": lambda x, y: x ** y, "%": lambda x, y: x % y}[f](*a)
        if f in ("minimum", "maximum"):
            return (min if f == "minimum" else max)(a)
        if f in ("set", "frozenset", "keys") and len(a) == 1:
            return set(a[0])
        if f in ("issubset", "issuperset", "difference", "intersection", "union", "isdisjoint", "symmetric_difference") and len(a) == 2:
            return getattr(set(a[0]), f)(a[1])
        if f in ("-", "&", "|", "<=") and len(a) == 2 and isinstance(a[0], set):
            return {"-": set.difference, "&": set.intersection, "|": set.union, "<=": set.issubset}[f](a[0], a[1])
        if f in ("all", "any", "bool", "int", "float", "str", "list", "tuple", "min", "max", "sorted", "abs", "round"):
            try:
                return {"all": all, "any": any, "bool": bool, "int": int, "float": float, "str": str, "list": list, "tuple": tuple, "min": min,
                        "max": max, "sorted": sorted, "abs": abs, "round": round}[f](*a)
            except (TypeError, ValueError, OverflowError):
                raise Rejected
        if f.endswith("is_in_bound") and len(a) == 2:
            return in_bound(*a)
        if f.endswith("is_str_in_list") and len(a) == 2:
            return type(a[0]) is str and a[1] is not None and a[0] in a[1]
    raise NoValue(t)


def in_bound(v, b):
    """Specification: a list bound includes its ends, a tuple bound excludes them, an infinite end does not limit."""
    lo, hi = b
    if isinstance(b, list):
        return (lo == -INF or lo <= v) and (hi == INF or v <= hi)
    return (lo == -INF or lo < v) and (hi == INF or v < hi)


NUM = [0, 1, 3, 5, 9, -1, 0.5, 1.0, 2.5, 5.0, 9.5]
BAD = ["3", None, [3], (1, 2)]
BOUNDS = [(1, 5), [1, 5], (-INF, 5), [-INF, 5], (1, INF), [1, INF], (-INF, INF), [-INF, INF]]


def same_value(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return a == b and type(a) is type(b)


def outcome(ps, env):
    """(kind, value) of the path taken in the model; None when no single path is determined."""
    hits = []
    for p in ps:
        try:
            if all(bool(ev(c, env)) == b for c, b in p.conds):
                hits.append(p)
        except Rejected:
            return ("raise", None)
        except (NoValue, IndexError, TypeError, ValueError, ZeroDivisionError):
            return None
    if len(hits) != 1:
        return None
    p = hits[0]
    if p.kind == "raise":
        return ("raise", None)
    try:
        return ("return", ev(p.value, env))
    except Rejected:
        return ("raise", None)
    except NoValue:
        return ("return", NoValue)


def models():
    """(function, {parameter: value}, specified outcome); the last is 'raise', or the value returned."""
    for n, conv in (("check_int", int), ("check_float", float)):
        for v in NUM:
            if conv is int and v != int(v):
                continue
            for b in [None] + BOUNDS:
                ok = b is None or in_bound(v, b)
                yield n, {"name": "x", "value": v, "bound": b}, (conv(v) if ok else "raise")
        for v in BAD:
            for b in (None, (1, 5), [1, 5]):
                yield n, {"name": "x", "value": v, "bound": b}, "raise"
    for v in ("a", "b", "", 3, None, 1.5, ["a"]):
        for b in (None, ["a", "c"], ("a",)):
            ok = isinstance(v, str) and (b is None or v in b)
            yield "check_str", {"name": "x", "value": v, "bound": b}, (v if ok else "raise")
    for v in (True, False, "True", None, 2, 0.5, 1, 0, ""):
        yield "check_bool", {"name": "x", "value": v, "bound": (True, False)}, (v if isinstance(v, bool) else "raise")
    for v in (True, False):
        yield "check_bool", {"name": "x", "value": v, "bound": (True,)}, (v if v else "raise")
    for n in ("check_tuple_int", "check_tuple_float"):
        for v in ((1, 2), [3, 5], (0, 3), (1, 9), (2, 3, 4), (2,), 3, None, "ab", (1, "a"), (1.5, 2.0), (2, None)):
            for b in (None, [[1, 5], [1, 5]], [(1, 5), (1, 5)], ([1, 5], (2, 4)), [[1, 5]]):
                ok = isinstance(v, (list, tuple)) and len(v) > 1
                ok = ok and all(isinstance(x, int if n.endswith("int") else numbers.Number) for x in v)
                ok = ok and (b is None or len(b) == len(v) and all(in_bound(x, y) for x, y in zip(v, b)))
                yield n, {"name": "x", "values": v, "bounds": b}, (v if ok else "raise")
    for v in ([], (), [1], (1, 2), None, 3, "ab"):
        ok = isinstance(v, (list, tuple)) and len(v) >= 1
        yield "check_list_tuple", {"name": "x", "value": v, "data_type": "d"}, (list(v) if ok else "raise")
    for v, k, ok in ((3, int, True), (3, str, False), ("a", str, True), (None, int, False)):
        yield "check_is_instance", {"name": "x", "value": v, "class_type": k}, (v if ok else "raise")
    for v in (0, 1, 3, 5, 9, 0.0, 0.1, 0.5, 3.0, "a", None, [1]):
        for bi, bf in itertools.product((None, [1, 5], (1, 5)), (None, (0, 0.5), [0, 0.5])):
            ok = type(v) is int and (bi is None or in_bound(v, bi)) or type(v) is float and (bf is None or in_bound(v, bf))
            yield "check_is_int_and_float", {"name": "x", "value": v, "bound_int": bi, "bound_float": bf}, (v if ok else "raise")


def validator(ctx, F):
    m = ctx.prog.modules.get("mealpy.utils.validator")
    f = m.functions.get("is_in_bound") if m else None
    cache = {}

    def run_of(f, inline):
        if f not in cache:
            core = F.core()
            if not inline:
                core.opaque = lambda g: g.cls is None and g.name in ("is_in_bound", "is_str_in_list")
                core.pure = core.opaque
            cache[f] = paths(ctx, core, f, [ME if a.arg == "self" else S(a.arg) for a in f.node.args.args])
        return cache[f]
    bad, und = set(), set()
    if f is not None:
        names = [a.arg for a in f.node.args.args]
        ps = run_of(f, True)
        for v, b in itertools.product(NUM, BOUNDS):
            if ps is None or len(names) != 2:
                break
            ctx.count("obligations")
            o = outcome(ps, {S(names[0]): v, S(names[1]): b})
            if o is None or o[1] is NoValue:
                und.add("is_in_bound")
            elif o[0] == "raise" or bool(o[1]) != in_bound(v, b):
                if "is_in_bound" not in bad:
                    bad.add("is_in_bound")
                    ctx.find("validator", cname(f), f.where, f"is_in_bound({v}, {b}) is {o[1] if o[0] == 'return' else 'an error'}")
    h = m.functions.get("is_str_in_list") if m else None
    if h is not None and len(h.node.args.args) == 2:
        names = [a.arg for a in h.node.args.args]
        ps = run_of(h, True)
        for v, b in itertools.product(("a", "b", "", "A", "a ", 3, None), (["a", "c"], ("a", "c"), ["b"], None, [])):
            if ps is None:
                break
            ctx.count("obligations")
            o = outcome(ps, {S(names[0]): v, S(names[1]): b})
            ok = isinstance(v, str) and b is not None and v in b
            if o is None or o[1] is NoValue:
                und.add("is_str_in_list")
            elif (o[0] == "raise" or bool(o[1]) != ok) and "is_str_in_list" not in bad:
                bad.add("is_str_in_list")
                ctx.find("validator", cname(h), h.where, f"is_str_in_list({v!r}, {b}) is {o[1] if o[0] == 'return' else 'an error'}")
    for n, env, want in models():
        g = F.V.lookup(n)
        if g is None:
            continue
        ps = run_of(g, False)
        if ps is None:
            continue
        params = {a.arg for a in g.node.args.args}
        if not set(env) <= params:
            und.add(n)
            continue
        ctx.count("obligations")
        o = outcome(ps, {S(k): v for k, v in env.items()})
        if o is None:
            und.add(n)
            continue
        call = f"{n}({', '.join(f'{k}={v!r}' for k, v in env.items() if k != 'name')})"
        rejects = isinstance(want, str) and want == "raise"
        if rejects and o[0] != "raise":
            msg = f"{call} is accepted"
        elif not rejects and o[0] == "raise":
            msg = f"{call} is rejected"
        elif not rejects and o[1] is NoValue:
            und.add(n)
            continue
        elif not rejects and not same_value(o[1], want):
            msg = f"{call} gives {o[1]!r}, not {want!r}"
        else:
            continue
        if n not in bad:
            bad.add(n)
            ctx.find("validator", cname(g), g.where, msg)
    for n in sorted(und - bad):
        ctx.undec(f"validator {n}: outcome not determined in every model")


# ---------------------------------------------------------------- constructors
def constructors(ctx, F):
    """{class: (function, parameters, [(path, {param: check event})])} with obligations on the way."""
    out = {}
    for c in ctx.prog.optimizers():
        f = c.lookup("__init__")
        if f is None or f.cls is F.O:
            continue
        core = F.core(types={"self": c})
        core.opaque = lambda g: g.cls is F.V or g.cls is F.O and g.name in ("__init__", "set_parameters")
        a = f.node.args
        params = [x.arg for x in a.args[1:] + a.kwonlyargs]
        ps = paths(ctx, core, f, [ME] + [S(x) for x in params])
        if ps is None:
            continue
        ctx.count("classes")
        if not returns(ps):
            ctx.find("constructor", cname(f), f.where, "constructing the algorithm always raises")
            continue
        out[c] = (f, params, returns(ps))
    return out


def doc_kind(f, x):
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == x and isinstance(a.annotation, ast.Name):
            return a.annotation.id
    return None


def default_of(f, x):
    a = f.node.args
    for p, d in list(zip(a.args[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == x and d is not None:
            try:
                return True, ast.literal_eval(d)
            except ValueError:
                return False, None
    return False, None


def param_checks(p, params):
    """{parameter: [check events whose value is that parameter]}"""
    out = {x: [] for x in params}
    for e, loops in flat(p.eff):
        if e[0] == "call" and e[1].startswith("Validator.check_"):
            a = args_of(e)
            v = a.get("value", a.get("values"))
            if v is not None and v[0] == "s" and v[1] in out:
                out[v[1]].append((e, a))
    return out


def named(t, names):
    """The term with results of checks replaced by the parameters they check."""
    for r, x in names.items():
        t = T.subst(t, r, S(x))
    return t


def classes(ctx, F, table=None):
    ref = {}
    if table is None and os.path.exists(RANGES):
        ref = json.load(open(RANGES, encoding="utf-8"))
    made = {}
    for c, (f, params, ps) in constructors(ctx, F).items():
        ctx.part(f"constructor of {c.short}", one_class, c, f, params, ps, ref, made)
    return made


def one_class(ctx, c, f, params, ps, ref, made):
    who = c.short
    for p in ps:
        checks = param_checks(p, params)
        names = {e[3]: x for x, l in checks.items() for e, _ in l}
        for x in params:
            ctx.count("obligations")
            got = p.attr(ME, x)
            key = f"{who}.{x}"
            kind = None
            hit = [(e, a) for e, a in checks[x] if e[3] == got]
            if not hit:
                if got == S(x):
                    ctx.find("unchecked", key, f.where, f"{who} stores {x} without checking it")
                elif got == attr(ME, x):
                    ctx.find("unstored", key, f.where, f"{who} does not keep {x} under its own name")
                elif undecidable(named(got, names)):
                    ctx.undec(f"{f.where}: {x} is {show(named(got, names))[:100]}")
                else:
                    ctx.find("stored-value", key, f.where, f"{who} stores {show(named(got, names))[:100]} as {x}, not the value given")
                continue
            e, a = hit[0]
            fn = e[1].split(".")[-1]
            if isk(a.get("name", NONE)) and kv(a["name"]) != x:
                ctx.find("wrong-name", key, f.where, f"{who} reports an invalid {x} as {kv(a['name'])!r}")
            kind = KINDS.get(fn)
            dk = doc_kind(f, x)
            if kind == "int" and dk == "float":
                ctx.find("truncated", key, f.where, f"{who} declares {x} a float but stores only its integer part")
            if kind in ("bool", "str") and dk in ("bool", "str", "int", "float") and dk != kind:
                ctx.find("kind", key, f.where, f"{who} declares {x} as {dk} but accepts only {kind}")
            b = {k: named(p.res(v), names) for k, v in a.items() if k in ("bound", "bounds", "bound_int", "bound_float")}
            alt = made.setdefault(who, {}).setdefault(x, [])
            if described(fn, b) not in alt:
                alt.append(described(fn, b))
            want = ref.get(who, {}).get(x)
            if want is not None and not undecidable(("tup",) + tuple(b.values())):
                ctx.count("ranges")
                compare_ranges(ctx, key, f, x, fn, b, want)
            defaults(ctx, c, f, params, x, key, fn, b)
        # use before check
        seen = set()
        for e, loops in flat(p.eff):
            if e[0] != "call":
                continue
            a = args_of(e)
            own = a.get("value", a.get("values"))
            for k, v in a.items():
                if k == "self":
                    continue
                for t in T.walk(p.res(v)):
                    if t[0] == "s" and t[1] in params and t[1] not in seen and not (v is own and v == t) and checks[t[1]]:
                        ctx.find("early-use", f"{who}.{t[1]}", f.where, f"{who} uses {t[1]} before checking it")
            if own is not None and own[0] == "s" and e[1].startswith("Validator.check_"):
                seen.add(own[1])
        # reported
        sp = [args_of(e) for e, loops in flat(p.eff) if e[0] == "call" and e[1] == "Optimizer.set_parameters"]
        ctx.count("obligations")
        if not sp:
            ctx.find("reported", who, f.where, f"{who} never declares its parameters")
            continue
        t = p.res(sp[-1].get("parameters", sp[-1].get(1, NONE)))
        if t[0] in ("list", "tup") and all(isk(x) for x in t[1:]):
            got = [kv(x) for x in t[1:]]
        elif isk(t) and isinstance(kv(t), (list, tuple)):
            got = list(kv(t))
        else:
            ctx.undec(f"{f.where}: reported parameters {show(t)[:80]}")
            continue
        miss, extra = [x for x in params if x not in got], [x for x in got if x not in params]
        twice = sorted({x for x in got if got.count(x) > 1})
        if miss or extra or twice:
            ctx.find("reported", who, f.where, f"{who}: " + "; ".join(
                s for s in (f"{', '.join(miss)} not reported" if miss else "", f"{', '.join(map(str, extra))} reported but not an argument" if extra else "",
                            f"{', '.join(twice)} reported twice" if twice else "") if s))
        late(ctx, p, f, who, params)


def late(ctx, p, f, who, params):
    """A parameter stored again after it was last reported."""
    evs = [e for e, loops in flat(p.eff)]
    last = max(i for i, e in enumerate(evs) if e[0] == "call" and e[1] == "Optimizer.set_parameters")
    for e in evs[last + 1:]:
        if e[0] == "setattr" and e[1] == ME and e[2] in params:
            ctx.find("reported", f"{who}.{e[2]}", f.where, f"{who} changes {e[2]} after reporting it")


def bound_value(b, env):
    if isk(b):
        return kv(b)
    try:
        v = ev(b, env)
    except (NoValue, Rejected, IndexError, TypeError, ValueError, ZeroDivisionError):
        return NoValue
    return v


def text(t):
    """A bound as it is kept in the table: 1 and 1.0 are the same limit."""
    def num(x):
        if x[0] == "k" and x[1] in ("int", "float") and math.isfinite(x[2]) and x[2] == int(x[2]):
            return K(int(x[2]))
        if x[0] == "k" and isinstance(x[2], (tuple, list)):
            return (("tup",) if isinstance(x[2], tuple) else ("list",)) + tuple(num(K(y)) for y in x[2])
        return None
    return show(T.substf(t, num))


SAMPLES = (5, 12, 50, 101, 1000)


def described(fn, b):
    """[check, {bound: text, or the values it takes for a few population sizes when it depends on other parameters}]"""
    out = {}
    for k, v in sorted(b.items()):
        if any(x[0] == "s" for x in T.walk(v)):
            vals = []
            for n in SAMPLES:
                r = bound_value(v, {x: n for x in T.walk(v) if x[0] == "s"})
                vals.append("?" if r is NoValue else str([int(y) if isinstance(y, float) and y == int(y) else y for y in r]) if isinstance(r, (list, tuple)) else str(r))
            kind = "[" if v[0] == "list" else "("
            out[k] = f"{kind} for {', '.join(sorted(x[1] for x in T.walk(v) if x[0] == 's'))} = {SAMPLES}: " + " ".join(vals)
        else:
            out[k] = text(v)
    return [fn, out]


def compare_ranges(ctx, key, f, x, fn, b, want):
    got = described(fn, b)
    if "?" in str(got):
        ctx.undec(f"{f.where}: range of {x}")
        return
    if all(got[1] != w[1] or got[0] != w[0] and {got[0], w[0]} != {"check_int", "check_float"} for w in want):
        want = want[0]
        ctx.find("range", key, f.where, f"{key.rsplit('.', 1)[0]} accepts {x} in {', '.join(got[1].values()) or 'any range'} ({fn}); the documented "
                 f"range is {', '.join(want[1].values()) or 'unlimited'} ({want[0]})")


def defaults(ctx, c, f, params, x, key, fn, b):
    has, d = default_of(f, x)
    if not has:
        return
    ctx.count("defaults")
    env = {}
    for y in params:
        h, v = default_of(f, y)
        if h:
            env[S(y)] = v
    vals = {k: bound_value(v, env) for k, v in b.items()}
    if any(v is NoValue for v in vals.values()):
        ctx.undec(f"{f.where}: bound of {x}: {', '.join(show(v) for v in b.values())[:100]}")
        return
    bad = None
    bnd = vals.get("bound")
    if fn in ("check_int", "check_float") and bnd is not None and not (len(bnd) == 2 and all(isinstance(v, numbers.Number) for v in bnd)):
        ctx.undec(f"{f.where}: bound of {x}: {bnd}")
        return
    if fn in ("check_int", "check_float"):
        bad = not isinstance(d, numbers.Number) or bnd is not None and not in_bound(d, bnd)
    elif fn == "check_str":
        bad = not isinstance(d, str) or bnd is not None and d not in bnd
    elif fn == "check_bool":
        bad = not isinstance(d, bool)
    elif fn == "check_is_int_and_float":
        bi, bf = vals.get("bound_int"), vals.get("bound_float")
        bad = not (type(d) is int and (bi is None or in_bound(d, bi)) or type(d) is float and (bf is None or in_bound(d, bf)))
    if bad:
        ctx.find("default", key, f.where, f"the default {x}={d!r} is rejected by its own check ({fn} {', '.join(map(str, vals.values()))})")


# ---------------------------------------------------------------- reporting
def feasible(p, env):
    """False when a condition of the path is decided the other way."""
    for c, b in p.conds:
        try:
            if bool(ev(c, env)) != b:
                return False
        except (NoValue, Rejected, IndexError, TypeError, ValueError):
            pass
    return True


def reporting(ctx, F):
    A, B, V, W = S("A"), S("B"), S("V"), S("W")
    f = method(ctx, F.O, "set_parameters")
    env = {A: "1", B: "2", V: "3", W: "4"}

    def held(st):
        st.attrs[(ME, "a")], st.attrs[(ME, "b")] = A, B

    def go(f, arg, setup):
        core = F.core()

        def su(st):
            held(st)
            setup(core, st)
        ps = paths(ctx, core, f, [ME] + ([arg] if arg is not None else []), setup=su)
        return [p for p in ps or () if feasible(p, env)]

    def own(t):
        """self.__dict__[name] is the attribute."""
        def r(x):
            if x[0] == "at" and x[1] == attr(ME, "__dict__") and isk(x[2]):
                return {"a": A, "b": B}.get(kv(x[2]))
            if x[0] == "app" and x[1] == "getattr" and x[2] == ME and isk(x[3]):
                return {"a": A, "b": B}.get(kv(x[3]))
            return None
        return T.substf(t, r)
    D = lambda **k: ("dict",) + tuple(("kv", K(n), v) for n, v in k.items())
    if f is not None:
        for arg in (("list", K("a"), K("b")), ("tup", K("a"), K("b"))):
            ps = go(f, arg, lambda core, st: None)
            if len(ps) != 1 or ps[0].kind != "return":
                ctx.undec(f"{f.where}: {len(ps)} ways to declare parameters")
                continue
            p = ps[0]
            same_dict(ctx, "reporting", f, own(p.held(ME, "parameters")), D(a=A, b=B), "the parameters declared as ['a', 'b']")
            o = p.held(ME, "params_name_ordered")
            check(ctx, "reporting", f, ("tup",) + o[1:] if o[0] == "list" else o, ("tup", K("a"), K("b")), "the names declared as ['a', 'b']")
        for given, a, b in ((D(a=V), V, B), (D(b=V, a=W), W, V), (D(), A, B)):
            def su(core, st):
                st.attrs[(ME, "parameters")] = core.fresh(st, "dict", D(a=A, b=B))
                st.attrs[(ME, "params_name_ordered")] = ("tup", K("a"), K("b"))
                st.cells[("new", 900)], st.kinds[("new", 900)] = given, "dict"
            ps = go(f, ("new", 900), su)
            if not ps:
                ctx.undec(f"{f.where}: assigning {show(given)}")
            for p in ps:
                if p.kind != "return":
                    if not undecidable(("tup",) + tuple(c for c, _ in p.conds)):
                        ctx.find("reporting", cname(f), f.where, f"assigning {show(given)} to parameters a and b raises")
                    continue
                check(ctx, "reporting", f, own(p.attr(ME, "a")), a, f"a after assigning {show(given)}")
                check(ctx, "reporting", f, own(p.attr(ME, "b")), b, f"b after assigning {show(given)}")
                same_dict(ctx, "reporting", f, own(p.held(ME, "parameters")), D(a=a, b=b), f"the parameters after assigning {show(given)}")
        for given in (D(z=V), D(a=V, z=W), D(z=V, a=W)):
            def su(core, st):
                st.attrs[(ME, "parameters")] = core.fresh(st, "dict", D(a=A, b=B))
                st.attrs[(ME, "params_name_ordered")] = ("tup", K("a"), K("b"))
                st.cells[("new", 900)], st.kinds[("new", 900)] = given, "dict"
            ctx.count("obligations")
            for p in go(f, ("new", 900), su):
                if p.kind == "return":
                    open_ = [c for c, b in p.conds if not decided(c, env)]
                    if open_:
                        ctx.undec(f"{f.where}: unknown parameter name when {show(open_[0])[:80]}")
                    else:
                        ctx.find("unknown-name", cname(f), f.where, f"assigning {show(given)} to an optimizer with parameters a and b is accepted")
    g = method(ctx, F.O, "get_parameters")
    if g is not None:
        cell = {}

        def su(core, st):
            cell["d"] = st.attrs[(ME, "parameters")] = core.fresh(st, "dict", D(a=A, b=B))
        for p in go(g, None, su):
            if p.kind == "return":
                same_dict(ctx, "reporting", g, own(p.res(p.val)), D(a=A, b=B), "the reported parameters")
    h = method(ctx, F.O, "__str__")
    if h is not None:
        def su(core, st):
            st.attrs[(ME, "parameters")] = core.fresh(st, "dict", D(b=B, a=A))
            st.attrs[(ME, "params_name_ordered")] = ("tup", K("a"), K("b"))
            st.attrs[(ME, "name")] = S("NAME")
        for p in go(h, None, su):
            ctx.count("obligations")
            if p.kind != "return":
                ctx.find("reporting", cname(h), h.where, "printing an optimizer raises")
                continue
            try:
                s = string(own(p.value), env)
            except (NoValue, Rejected, IndexError, TypeError, ValueError):
                ctx.undec(f"{h.where}: {show(p.value)[:100]}")
                continue
            s = s.replace(" ", "")
            if not s.endswith("(a=1,b=2)"):
                ctx.find("reporting", cname(h), h.where, f"an optimizer with parameters a=1, b=2 prints as {s}")


def string(t, env):
    """Text of a string-valued term; the class name is irrelevant."""
    if t[0] == "app" and t[1] == "fmt":
        return "".join(string(x, env) for x in t[2:])
    if t[0] == "fmt":
        return "".join(string(x, env) for x in t[1:])
    if t[0] == "attr" and t[2] in ("__name__", "__class__", "name") or t == S("NAME"):
        return "Class"
    if t[0] == "at" and t[1][0] in ("fmt", "app"):
        return string(t[1], env)[ev(t[2], env)]
    if t[0] == "len":
        return len(string(t[1], env))
    if t[0] == "map":
        n = num(t[1], env)
        return "".join(string(T.subst(t[2], ("bv", t[3]), K(i)), env) for i in range(n))
    if t[0] == "app" and t[1] == "join" and len(t) == 4:
        sep, items = string(t[2], env), t[3]
        if items[0] in ("list", "tup"):
            return sep.join(string(x, env) for x in items[1:])
        if items[0] == "map":
            return sep.join(string(T.subst(items[2], ("bv", items[3]), K(i)), env) for i in range(num(items[1], env)))
    v = ev(t, env)
    return str(v)


def num(t, env):
    if t[0] == "lin":
        return t[1] + sum(k * num(x, env) for x, k in t[2])
    if t[0] == "len":
        try:
            return len(string(t[1], env))
        except NoValue:
            return ev(t, env)
    return ev(t, env)


def decided(c, env):
    try:
        ev(c, env)
        return True
    except (NoValue, Rejected, IndexError, TypeError, ValueError):
        return False


def same_dict(ctx, rule, f, got, want, what):
    if got[0] == "app" and got[1] == "dict" and len(got) == 3 and got[2][0] in ("list", "tup"):
        got = ("dict",) + tuple(("kv", x[1], x[2]) for x in got[2][1:] if x[0] in ("tup", "list") and len(x) == 3)
    if got[0] == "dict" and all(x[0] == "kv" for x in got[1:]):
        got = ("dict",) + tuple(sorted(got[1:], key=repr))
        want = ("dict",) + tuple(sorted(want[1:], key=repr))
    check(ctx, rule, f, got, want, what)


def run(ctx):
    ctx.explanation = ("Canonical terms of the validator evaluated over order types (below, at, inside, at, above each limit; inclusive, exclusive and infinite "
                       "limits; wrong kinds); every constructor path: which check produced the value kept under each argument's name, the declared "
                       "range against the reviewed table, the default inside it, and the reported parameters; the reporting functions.")
    F = Fw(ctx.prog)
    ctx.part("validator", validator, F)
    ctx.part("reporting", reporting, F)
    ctx.part("classes", classes, F)
    ctx.need("classes", 200)
    ctx.need("obligations", 1000)
