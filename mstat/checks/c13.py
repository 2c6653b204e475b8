"""C13: decision variables stay inside their domain; a mixed problem applies each variable to its own slice."""
from fractions import Fraction

from ..core import GiveUp
from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, check, cname, undecidable
from .. import terms as T
from ..model import Model, path, each, vec
from .c08 import NoValue, Rejected
from .prims import flat, args_of, returns, ME

SPACE = "mealpy.utils.space"
HALF = Fraction(1, 2)
WORDS = ("pear", "apple", "fig", "kiwi", "plum")
INTS = [(-7, -7), (-2, 3), (0, 1), (3, 8), (-10, -4)]
FLOATS = [(Fraction(-5, 2), Fraction(7, 3)), (0, 1), (2, 2), (-10, -3)]


def both(rows):
    """Scalar and array declarations of the same limits."""
    out = [dict(lb=l, ub=u) for l, u in rows]
    out += [dict(lb=[l for l, u in rows[:k]], ub=[u for l, u in rows[:k]]) for k in (1, 2, 3)]
    out += [dict(lb=tuple(l for l, u in rows[:2]), ub=tuple(u for l, u in rows[:2]))]
    return out


def limits(m, i):
    return tuple(v[i] if isinstance(v, (list, tuple)) else v for v in (m["lb"], m["ub"]))


def own(sets, i):
    return sets[i] if isinstance(sets[0], (list, tuple)) else sets


SETS = [dict(valid_sets=WORDS[:k]) for k in (2, 3, 5)] + [dict(valid_sets=(WORDS[:2], WORDS[2:])), dict(valid_sets=[list(WORDS), list(WORDS[1:3]), list(WORDS[:4])])]
REPEAT = [dict(valid_sets=("b", "a", "b")), dict(valid_sets=(("x", "x", "y"), ("p", "q", "p", "q")))]
MIXED = [dict(valid_sets=(3, "b", "a", Fraction(1, 2))), dict(valid_sets=((2, 1), ("x", 7, "y")))]
SEQS = [dict(valid_sets=((1,), (1, 2), (2, 3, 1))), dict(valid_sets=[[1], [2, 4]])]
PERMS = [dict(valid_set=(1, 2)), dict(valid_set=[5, 3, 9, 4]), dict(valid_set=("c", "a", "b")), dict(valid_set=(4, 1, 4))]
BITS = [dict(n_vars=n) for n in (1, 2, 5)]
ALL = "all"


def is_int(v):
    return not isinstance(v, bool) and isinstance(v, (int, Fraction)) and v == int(v)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def bits(m, i, v):
    return v in (0, 1)


# class: (models, what a decoded element may be, (lb, ub) promised for element i or None)
VARS = {
    "FloatVar": (both(FLOATS), lambda m, i, v: is_num(v) and limits(m, i)[0] <= v <= limits(m, i)[1], limits),
    "IntegerVar": (both(INTS), lambda m, i, v: is_int(v) and limits(m, i)[0] <= v <= limits(m, i)[1], None),
    "StringVar": (SETS + REPEAT, lambda m, i, v: v in own(m["valid_sets"], i), None),
    "CategoricalVar": (SETS + REPEAT + MIXED, lambda m, i, v: v in own(m["valid_sets"], i), None),
    "SequenceVar": ([dict(s, return_type=k) for s in SEQS for k in (tuple, list)],
                    lambda m, i, v: type(v) is m["return_type"] and tuple(v) in [tuple(x) for x in m["valid_sets"]], None),
    "PermutationVar": (PERMS, ALL, None),
    "BinaryVar": (BITS, bits, None),
    "BoolVar": (BITS, lambda m, i, v: isinstance(v, bool), None),
    "TransferBinaryVar": ([dict(b, tf_func=t, lb=l, ub=u, all_zeros=z) for b in BITS for t, l, u in (("vstf_01", -8, 8), ("sstf_04", -4, 6)) for z in (True, False)],
                          bits, lambda m, i: (m["lb"], m["ub"])),
    "TransferBoolVar": ([dict(b, tf_func=t, lb=l, ub=u) for b in BITS for t, l, u in (("vstf_01", -8, 8), ("sstf_04", -4, 6))],
                        lambda m, i, v: isinstance(v, bool), lambda m, i: (m["lb"], m["ub"])),
}
POLICIES = ("lo", "hi", "mid", "mix")
RANDOM = {"uniform", "integers", "choice", "permutation", "random", "permuted", "normal", "standard_normal", "shuffle"}


def draws(policy):
    """Result of a draw: its least, greatest or some value."""
    def pick(i, lo, hi, step=None):
        q = {"lo": "lo", "hi": "hi", "mid": "mid", "mix": ("lo", "hi", "mid")[i % 3]}[policy]
        return lo if q == "lo" else hi if q == "hi" else (lo + hi) / Fraction(2) if step is None else lo + (hi - lo) // 2

    def size(m, v):
        return None if v is None else int(v)

    def go(m, name, pos, kw, b, idx):
        E = lambda t: m.value(t, b)
        k = name.split(".")[-1]
        at = sum(int(i) for i in idx) if idx else 0
        if k in ("fit", "transform", "inverse_transform", "fit_transform"):
            ts = pos + [kw[x] for x in ("self", "y") if x in kw]
            if k in ("fit", "fit_transform"):
                y = E(ts[-1])
                return Enc(y) if k == "fit" else Enc(y).transform(y)
            a = [E(x) for x in ts]
            if not isinstance(a[0], Enc):
                raise NoValue(name)
            return getattr(a[0], k)(a[1])
        if name.startswith("dyn:"):
            base = name[4:]
            if base == "return_type":
                return m.env[S("return_type")](E(pos[0]))
            if "transfer" in base or "tf_func" in base:
                x = E(pos[0])
                return each(lambda v, c=[0]: pick(c.__setitem__(0, c[0] + 1) or c[0], Fraction(0), Fraction(1)), x)
            raise NoValue(name)
        if not name.startswith(".") or k not in RANDOM:
            raise NoValue(name)
        a = [E(x) for x in pos[1:]]
        opt = {x: E(y) for x, y in kw.items() if x != "dtype"}
        if k == "uniform":
            lo, hi = (a + [opt.get("low", 0), opt.get("high", 1)][len(a[:2]):])[:2]
            n = size(m, a[2] if len(a) > 2 else opt.get("size"))
            if n is not None:
                lo = [lo] * n if not vec(lo) else lo
            c = [at]
            return each(lambda x, y: pick(c.__setitem__(0, c[0] + 1) or c[0], x, y), lo, hi)
        if k == "integers":
            lo, hi = a[0] if a else opt["low"], a[1] if len(a) > 1 else opt.get("high")
            if hi is None:
                lo, hi = 0, lo
            n = size(m, a[2] if len(a) > 2 else opt.get("size"))
            if n is not None and not vec(lo):
                lo = [lo] * n
            c = [at]
            end = 0 if opt.get("endpoint") else 1

            def one(x, y):
                import math
                p, q = math.ceil(x), math.ceil(y) - end
                if q < p:
                    raise Rejected
                return pick(c.__setitem__(0, c[0] + 1) or c[0], p, q, 1)
            return each(one, lo, hi)
        if k == "choice":
            s = a[0]
            s = list(range(int(s))) if is_int(s) else list(s)
            n = size(m, a[1] if len(a) > 1 else opt.get("size"))
            if not s:
                raise Rejected
            f = lambda i: s[pick(i, 0, len(s) - 1, 1)]
            return f(at) if n is None else [f(at + i) for i in range(n)]
        if k in ("permutation", "permuted"):
            s = a[0]
            s = list(range(int(s))) if is_int(s) else list(s)
            return {"lo": s, "hi": s[::-1], "mid": s[1:] + s[:1], "mix": s[1::2] + s[::2]}[policy]
        if k == "random":
            n = size(m, a[0] if a else opt.get("size"))
            hi = Fraction(999, 1000)
            return pick(at, Fraction(0), hi) if n is None else [pick(at + i, Fraction(0), hi) for i in range(n)]
        raise NoValue(name)
    return go


def grid(lo, hi):
    """Critical values around and between two limits."""
    import math
    e = Fraction(1, 100000)
    out = {lo - 7, lo - 1, lo - e, lo, lo + e, hi - e, hi, hi + e, hi + 1, hi + 9, lo - HALF, hi + HALF, (lo + hi) / Fraction(2)}
    for n in range(math.floor(lo) - 1, math.ceil(hi) + 2):
        out |= {Fraction(n), n + HALF, n + HALF - e, n + HALF + e, n + e, n - e}
    return sorted(out)


def encoder(g):
    """The label encoder is decided on its own and stands here for its specification."""
    return g.cls is not None and any(getattr(k, "name", "") == "LabelEncoder" for k in g.cls.mro) and g.name != "__init__"


class Enc:
    """Specification of the label encoder: position in the ordered distinct labels, and back."""

    def __init__(self, labels):
        kind = lambda v: (0, "") if v is None else (1, v) if is_num(v) else (2, v) if isinstance(v, str) else (3, str(v))
        self.labels = sorted(dict.fromkeys(labels), key=kind)

    def fields(self, name):
        if name == "unique_labels":
            return list(self.labels)
        if name == "label_to_index":
            return {v: i for i, v in enumerate(self.labels)}
        raise NoValue(name)

    @staticmethod
    def many(y):
        return y if isinstance(y, (list, tuple)) else (y,)

    def transform(self, y):
        for v in self.many(y):
            if v not in self.labels:
                raise Rejected
        return [self.labels.index(v) for v in self.many(y)]

    def inverse_transform(self, y):
        return [self.labels[int(i)] if 0 <= i < len(self.labels) and is_int(i) else "unknown" for i in self.many(y)]


class Var:
    """The constructor paths of one variable class and its methods interpreted after each of them."""

    def __init__(self, ctx, F, c):
        self.ctx, self.c = ctx, c
        self.f = c.lookup("__init__")
        a = self.f.node.args
        self.params = [x.arg for x in a.args[1:] + a.kwonlyargs]
        self.defaults = {}
        for x, d in list(zip(a.args[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            import ast
            try:
                self.defaults[x.arg] = ast.literal_eval(d)
            except ValueError:
                pass
        self.core = F.core(types={"self": c})
        self.core.opaque = encoder
        self.ps = paths(ctx, self.core, self.f, [ME] + [S(x) for x in self.params]) or []
        self.after = {}

    def env(self, m):
        e = {}
        for x in self.params:
            v = m.get(x, self.defaults.get(x))
            e[S(x)] = Fraction(repr(v)) if isinstance(v, float) else v
        return e

    def method(self, p, name, args):
        k = (id(p), name, tuple(args))
        if k not in self.after:
            g = self.c.lookup(name)
            if g is None:
                raise NoValue(name)
            st = p.st.clone()
            n = len(st.eff)
            qs = self.core.run(g, [ME] + list(args), st=st)
            self.ctx.count("paths", len(qs))
            self.after[k] = (g, qs, n)
        return self.after[k]


def outcome(var, p, name, args, env, policy):
    """(function, 'return'/'raise', value, model, path, events before) of a method after constructor path p."""
    g, qs, n = var.method(p, name, args)
    r = path(qs, lambda q: Model(env, [e for e, loops in flat(q.eff)], draws(policy), q.res))
    if r is None:
        raise NoValue(name)
    q, m = r
    if q.kind == "raise":
        return g, "raise", None, m, q, n
    return g, "return", m.ev(q.value), m, q, n


def variables(ctx, F):
    base = ctx.prog.cls(SPACE + ".BaseVar")
    if base is None:
        ctx.undec("BaseVar not found where the package keeps it")
        return
    for c in sorted((c for m in ctx.prog.modules.values() for c in m.classes.values()), key=lambda c: c.qual):
        if base in c.mro and c is not base:
            if c.name not in VARS:
                ctx.undec(f"{c.qual}: no declared domain known for this variable type")
                continue
            ctx.count("variable_types")
            ctx.part(f"variable {c.name}", variable, F, c)


def tell(v):
    if isinstance(v, Fraction):
        return str(int(v)) if v.denominator == 1 else f"{float(v):.6g}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(tell, v)) + "]"
    return repr(v)


def variable(ctx, F, c):
    models, domain, promised = VARS[c.name]
    var = Var(ctx, F, c)
    open_ = {}

    def say(rule, f, msg):
        ctx.find(rule, f"{c.name}.{f.name}", f.where, f"{c.name}: {msg}")

    def guarded(what, fn, f=None, case=""):
        """Runs one obligation; False when undecided."""
        ctx.count("obligations")
        try:
            return fn()
        except NoValue as e:
            open_[what] = str(e)[:80]
        except GiveUp as e:
            open_[what] = str(e)[:80]
        except Rejected:
            say("domain", f or var.f, f"{what} fails for {case}")
        return None

    scanned = set()

    def own_generator(p, name, args):
        """Every draw of every path comes from the variable's generator."""
        if (id(p), name) in scanned:
            return
        scanned.add((id(p), name))
        g, qs, n = var.method(p, name, args)
        gen = p.attr(ME, "generator")
        for q in qs:
            for e in [e for e, loops in flat(q.eff[n:])]:
                if e[0] != "call":
                    continue
                ctx.count("draws", e[1][1:] in RANDOM)
                if e[1].startswith(("numpy.random.", "random.")):
                    say("generator", g, f"values are drawn from {e[1]}, not from the variable's own generator")
                elif e[1].startswith(".") and e[1][1:] in RANDOM and e[2] and q.res(e[2][0]) not in (gen, q.attr(ME, "generator")):
                    say("generator", g, f"values are drawn from {show(e[2][0])[:60]}, not from the variable's own generator")

    for m in models:
        env = var.env(m)
        case = ", ".join(f"{k}={tell(v) if not isinstance(v, type) else v.__name__}" for k, v in m.items())
        r = guarded("constructing", lambda: path(var.ps, lambda p: Model(env, [e for e, _ in flat(p.eff)], draws("mid"), p.res)), case=case)
        if not r:
            if r is None and "constructing" not in open_:
                open_["constructing"] = case
            continue
        p, mod = r
        if p.kind == "raise" and domain == ALL and len(set(m["valid_set"])) < len(m["valid_set"]):
            continue        # repeated members may be refused
        if p.kind == "raise":
            say("domain", var.f, f"a valid declaration is rejected ({case})")
            continue
        for name, args in (("generate", []), ("correct", [S("x")]), ("decode", [S("x")]), ("encode", [S("x")])):
            guarded(f"the generator of {name}", lambda: own_generator(p, name, args), case=case)
        got = {}
        for a in ("lb", "ub", "n_vars"):
            v = guarded(a, lambda: mod.ev(p.res(p.held(ME, a))), case=case)
            if v is not None:
                got[a] = v
        if len(got) < 3:
            continue
        lb, ub, n = got["lb"], got["ub"], got["n_vars"]
        ctx.count("declarations")
        if not vec(lb) and not isinstance(lb, tuple) or not vec(ub) and not isinstance(ub, tuple) or len(lb) != n or len(ub) != n:
            say("dimension", var.f, f"declares {tell(n)} dimension(s) but bounds {tell(lb)} and {tell(ub)} ({case})")
            continue
        want = {"valid_sets": len(m["valid_sets"]) if "valid_sets" in m and isinstance(m["valid_sets"][0], (list, tuple)) and c.name != "SequenceVar" else 1,
                "valid_set": len(m.get("valid_set", ()))}
        dims = m.get("n_vars") or want["valid_set"] or ("valid_sets" in m and want["valid_sets"]) or (len(m["lb"]) if isinstance(m["lb"], (list, tuple)) else 1)
        if n != dims:
            say("dimension", var.f, f"declares {tell(n)} dimension(s) instead of {dims} ({case})")
            continue
        if promised is not None:
            for i in range(n):
                if (lb[i], ub[i]) != promised(m, i):
                    say("bounds", var.f, f"keeps the range [{tell(lb[i])}, {tell(ub[i])}] instead of the declared {tell(promised(m, i))} ({case})")
                    break
        lo, hi = [min(a, b) for a, b in zip(lb, ub)], list(ub)
        cols = [grid(a, b) for a, b in zip(lo, hi)]
        k = max(map(len, cols))
        xs = [[cols[i][(j + 5 * i) % len(cols[i])] for i in range(n)] for j in range(k)]

        def inside(what, f, x, v, strict):
            v = v if isinstance(v, (list, tuple)) else None
            if v is None or len(v) != n:
                say("length", f, f"{what} of a vector of length {n} is {tell(v)} ({case})")
                return
            for i, y in enumerate(v):
                if not is_num(y):
                    raise NoValue
                if not (y in (0, 1) if strict == "bits" else lb[i] <= y <= ub[i]):
                    say("bounds", f, f"{what} of {tell(x)} is {tell(v)}, outside [{tell(lb)}, {tell(ub)}] ({case})")
                    return

        def member(what, f, x, v):
            if not isinstance(v, (list, tuple)) or len(v) != n:
                say("length", f, f"{what} of {tell(x)} is {tell(v)}, not {n} value(s) ({case})")
                return
            bad = None
            if domain == ALL:
                s = m["valid_set"]
                if len(v) != len(s) or sorted(map(str, v)) != sorted(map(str, s)):
                    bad = v
            else:
                for i, y in enumerate(v):
                    if not domain(m, i, y):
                        bad = y
                        break
            if bad is not None:
                say("domain", f, f"{what} of {tell(x)} is {tell(v)}, outside the declared domain ({case})")

        strict = "bits" if c.name.startswith("Transfer") else None
        for pol in POLICIES if c.name.startswith("Transfer") else ("mid",):
            for x in xs:
                e2 = {**env, S("x"): x}

                def go():
                    g, kind, v, *_ = outcome(var, p, "correct", [S("x")], e2, pol)
                    if kind == "raise":
                        say("domain", g, f"correcting {tell(x)} raises ({case})")
                    else:
                        inside("the correction", g, x, v, strict)
                guarded("correct", go, c.lookup("correct"), f"{tell(x)} ({case})")

                def go():
                    g, kind, v, *_ = outcome(var, p, "decode", [S("x")], e2, pol)
                    if kind == "raise":
                        say("domain", g, f"decoding {tell(x)} raises ({case})")
                    else:
                        member("the decoded value", g, x, v)
                guarded("decode", go, c.lookup("decode"), f"{tell(x)} ({case})")
        for pol in POLICIES:
            def go():
                g, kind, v, mm, q, before = outcome(var, p, "generate", [], env, pol)
                if kind == "raise":
                    return say("domain", g, f"generating a value raises ({case})")
                w = list(v) if isinstance(v, (list, tuple)) else v
                if c.name == "SequenceVar":
                    if not isinstance(v, (list, tuple)) or tuple(v) not in [tuple(s) for s in m["valid_sets"]]:
                        say("domain", g, f"a generated value is {tell(v)}, outside the declared domain ({case})")
                elif c.name in ("StringVar", "CategoricalVar") or c.name != "BoolVar" and c.name != "TransferBoolVar":
                    if c.name == "StringVar" and any(not isinstance(y, str) for y in w):
                        raise NoValue
                    member("a generated value", g, (), w)
                elif not isinstance(w, list) or len(w) != n or any(y not in (0, 1, True, False) for y in w):
                    say("domain", g, f"a generated value is {tell(w)}, outside the declared domain ({case})")
                e2 = {**env, S("x"): v}
                g, kind, y, *_ = outcome(var, p, "encode", [S("x")], e2, pol)
                if kind == "raise":
                    return say("domain", g, f"encoding a generated value {tell(v)} raises ({case})")
                y = [int(b) if isinstance(b, bool) else b for b in y] if isinstance(y, (list, tuple)) else y
                inside("the encoding", g, v, y, strict)
            guarded("generate", go, c.lookup("generate"), case)
    for what, why in sorted(open_.items()):
        ctx.undec(f"{c.name}: {what} not determined ({why})")


def labels(ctx, F):
    """The label encoder: positions in the ordered distinct labels, and back."""
    c = ctx.prog.cls(SPACE + ".LabelEncoder")
    if c is None:
        ctx.undec("LabelEncoder not found where the package keeps it")
        return
    core = F.core(types={"self": c})
    f, g, h = (method(ctx, c, n) for n in ("fit", "transform", "inverse_transform"))
    if not (f and g and h):
        return
    ps = [p for p in paths(ctx, core, f, [ME, S("y")]) or () if p.kind == "return"]
    after = [(p, [(fn, core.run(fn, [ME, S("q")], st=p.st.clone())) for fn in (g, h)]) for p in ps]
    for y in (("b", "a"), ("b", "a", "b", "c"), (3, 1, 2), (2, "x", None, 1, "a", 2), ["one"]):
        want = Enc(y)
        for fn in (g, h):
            for q in (list(want.labels) + [want.labels[-1]] if fn is g else list(range(len(want.labels))) + [0]):
                for arg in ([q], q):
                    if arg is None or fn is g and isinstance(arg, str) and False:
                        continue
                    ctx.count("obligations")
                    env = {S("y"): y, S("q"): arg}
                    try:
                        hit = []
                        for p, rs in after:
                            for fn2, qs in rs:
                                if fn2 is fn:
                                    hit += [(r, Model(env, [e for e, _ in flat(r.eff)], None, r.res)) for r in qs]
                        r = [(r, m) for r, m in hit if all(bool(m.ev(c_)) == b for c_, b in r.conds)]
                        if len(r) != 1:
                            raise NoValue("path")
                        r, m = r[0]
                        got = "an error" if r.kind == "raise" else m.ev(r.value)
                    except NoValue as e:
                        ctx.undec(f"{fn.where}: not determined ({str(e)[:60]})")
                        continue
                    except Rejected:
                        got = "an error"
                    exp = (want.transform if fn is g else want.inverse_transform)(arg)
                    if got != exp:
                        ctx.find("labels", cname(fn), fn.where, f"an encoder of {tell(y)} maps {tell(arg)} to {tell(got)} instead of {tell(exp)}")


# ---------------------------------------------------------------- mixed problems
def parts(t):
    """The pieces a joined sequence consists of."""
    if t[0] == "cat":
        return parts(t[1]) + parts(t[2])
    if t[0] == "app" and t[1] in ("concatenate", "hstack", "numpy.hstack", "numpy.concatenate") and t[2][0] in ("list", "tup"):
        return [y for x in t[2][1:] for y in parts(x)]
    if t in (("list",), ("tup",)):
        return []
    return [t]


def mixed(ctx, F):
    base = ctx.prog.cls(SPACE + ".BaseVar")
    V = [S("v0"), S("v1"), S("v2")]
    X = S("x")
    core = F.core(types={"v0": base, "v1": base, "v2": base, "self": F.P})
    core.opaque = lambda g: g.cls is not None and base in g.cls.mro and g.kind not in ("setter", "property")
    dims = [attr(v, "n_vars") for v in V]

    def piece(i):
        off = K(0)
        for d in dims[:i]:
            off = T.add(off, d)
        return T.slice_(X, off, T.add(off, dims[i]), NONE)

    def calls(p, name):
        return {e[3]: args_of(e) for e, loops in flat(p.eff) if e[0] == "call" and e[1].split(".")[-1] == name}

    def given(a):
        return a.get("x", a.get(1, NONE))

    def same(t, u):
        return T.substf(t, lambda x: ("map", x[1], x[2], 0) if x[0] == "map" else None) == T.substf(u, lambda x: ("map", x[1], x[2], 0) if x[0] == "map" else None)

    def by_slices(f, p, got, name, pick, what):
        """Each piece is the call on its own variable and its own slice."""
        cs = calls(p, name)
        for i, g in enumerate(got):
            ctx.count("obligations")
            if g not in cs:
                if undecidable(g) and g[0] != "res":
                    ctx.undec(f"{f.where}: piece {i} of {what}: {show(g)[:80]}")
                else:
                    ctx.find("slices", cname(f), f.where, f"piece {i} of {what} is {show(g)[:80]}, not the result of variable {i}'s {name}")
                continue
            a = cs[g]
            x = a.get("x", a.get(1))
            if a.get("self", a.get(0)) != V[i]:
                ctx.find("slices", cname(f), f.where, f"piece {i} of {what} comes from {show(a.get('self', a.get(0)))[:40]} instead of variable {i}")
            elif x is not None and not same(p.res(x), pick(i)):
                if undecidable(p.res(x)) and p.res(x)[0] != "res":
                    ctx.undec(f"{f.where}: variable {i} receives {show(p.res(x))[:80]}")
                else:
                    ctx.find("slices", cname(f), f.where, f"variable {i} receives {show(p.res(x))[:100]} instead of {show(pick(i))[:60]} in {what}")

    f = method(ctx, F.P, "correct_solution_with_bounds")
    for p in (paths(ctx, core, f, [X, ("list",) + tuple(V)]) or ()) if f else ():
        if p.kind != "return":
            continue
        got = parts(p.value)
        if len(got) != 3:
            ctx.undec(f"{f.where}: {len(got)} pieces: {show(p.value)[:100]}")
            continue
        by_slices(f, p, got, "correct", piece, "the corrected vector")
    f = method(ctx, F.P, "encode_solution_with_bounds")
    for p in (paths(ctx, core, f, [X, ("list",) + tuple(V)]) or ()) if f else ():
        if p.kind != "return":
            continue
        got = parts(p.value)
        if len(got) != 3:
            ctx.undec(f"{f.where}: {len(got)} pieces: {show(p.value)[:100]}")
            continue
        by_slices(f, p, got, "encode", lambda i: T.at(X, K(i)), "the encoded vector")
    f = method(ctx, F.P, "decode_solution_with_bounds")
    for p in (paths(ctx, core, f, [X, ("list",) + tuple(V)]) or ()) if f else ():
        if p.kind != "return":
            continue
        d = p.value
        if d[0] != "dict" or any(x[0] != "kv" for x in d[1:]):
            ctx.undec(f"{f.where}: decoded solution {show(d)[:100]}")
            continue
        got = {x[1]: x[2] for x in d[1:]}
        vals = []
        for i, v in enumerate(V):
            ctx.count("obligations")
            g = got.get(attr(v, "name"))
            if g is None or len(got) != 3:
                ctx.find("slices", cname(f), f.where, f"the decoded solution has keys {', '.join(show(k) for k in got)[:100]}, not the variables' names")
                break
            base_ = g[1] if g[0] == "at" and g[2] == K(0) else g
            vals.append(base_)
        else:
            by_slices(f, p, vals, "decode", piece, "the decoded solution")
    # a variable of one dimension is decoded to its only value, a longer one to the list of its values
    for k in (1, 2, 3) if f else ():
        def size(st):
            st.attrs[(V[0], "n_vars")] = K(k)
        for p in returns(paths(ctx, core, f, [X, ("list", V[0])], setup=size) or ()):
            d = p.value
            if d[0] != "dict" or len(d) != 2 or d[1][0] != "kv":
                continue
            g = d[1][2]
            ctx.count("obligations")
            cs = calls(p, "decode")
            if g not in cs and not (g[0] == "at" and g[1] in cs):
                continue
            if (g not in cs) != (k == 1):
                ctx.find("slices", cname(f), f.where, f"a variable of {k} dimension(s) is decoded to {show(g)[:60]}")
    f = method(ctx, F.P, "generate_solution_with_bounds")
    for enc in (TRUE, FALSE):
        for p in (paths(ctx, core, f, [("list",) + tuple(V)], kwargs={"encoded": enc}) or ()) if f else ():
            if p.kind != "return":
                continue
            got = parts(p.value) if enc == TRUE else list(p.value[1:]) if p.value[0] in ("list", "tup") else []
            if len(got) != 3:
                ctx.undec(f"{f.where}: {len(got)} pieces: {show(p.value)[:100]}")
                continue
            made = calls(p, "generate")
            if enc == TRUE:
                es = calls(p, "encode")
                by_slices(f, p, got, "encode", lambda i: p.res(given(es[got[i]])) if got[i] in es and given(es[got[i]]) in made else S("generated"), "the generated vector")
                got = [p.res(given(es[g])) if g in es else g for g in got]
            for i, g in enumerate(got):
                ctx.count("obligations")
                if g in made and made[g].get("self", made[g].get(0)) != V[i]:
                    ctx.find("slices", cname(f), f.where, f"value {i} of a generated solution is generated by {show(made[g].get('self', made[g].get(0)))[:40]}, not by variable {i}")
                elif g not in made:
                    ctx.undec(f"{f.where}: value {i} of a generated solution is {show(g)[:60]}")
    # declared bounds of the problem
    f = method(ctx, F.P, "set_bounds")
    for arg, want in ((("list",) + tuple(V), V), (("tup",) + tuple(V), V), (V[0], V[:1])):
        ps = returns(paths(ctx, core, f, [ME, arg]) or ()) if f else []
        if not ps:
            continue
        isvar = [p for p in ps if len(ps) == 1 or not any(c[0] == "app" and c[1] == "isinstance" and c[2] == arg and b for c, b in p.conds)]
        for p in isvar if arg not in V else ps:
            held = p.held(ME, "_bounds") if (ME, "_bounds") in p.st.attrs else p.held(ME, "bounds")
            check(ctx, "bounds", f, ("list",) + tuple(held[1:]) if held[0] in ("list", "tup") else held, ("list",) + tuple(want), "the variables of the problem")
            for a in ("lb", "ub"):
                got = parts(p.res(p.held(ME, a)))
                check(ctx, "bounds", f, ("tup",) + tuple(got), ("tup",) + tuple(attr(v, a) for v in want), f"the problem's {a}")
            n = p.res(p.attr(ME, "n_dims"))
            ctx.count("obligations")
            total = K(0)
            for v in want:
                total = T.add(total, attr(v, "n_vars"))
            flatlen = lambda a: T.length(p.res(p.held(ME, a)))
            if n not in (total, flatlen("lb"), flatlen("ub")):
                if undecidable(n):
                    ctx.undec(f"{f.where}: n_dims is {show(n)[:80]}")
                else:
                    ctx.find("dimension", cname(f), f.where, f"the problem declares {show(n)[:80]} dimensions, not the length of its bounds")
    # the problem's own methods use its own variables
    for name, args, tgt in (("correct_solution", [X], "correct_solution_with_bounds"), ("decode_solution", [X], "decode_solution_with_bounds"),
                            ("encode_solution", [X], "encode_solution_with_bounds"), ("generate_solution", [S("encoded")], "generate_solution_with_bounds")):
        f = method(ctx, F.P, name)
        if f is None:
            continue
        core2 = F.core(types={"self": F.P})
        core2.opaque = lambda g: g.cls is F.P and g.name.endswith("_with_bounds")
        for p in returns(paths(ctx, core2, f, [ME] + args) or ()):
            ctx.count("obligations")
            cs = [e for e, loops in flat(p.eff) if e[0] == "call" and e[1].endswith("." + tgt)]
            if len(cs) != 1 or p.value != cs[0][3]:
                ctx.undec(f"{f.where}: does not hand over to {tgt}")
                continue
            a = args_of(cs[0])
            b = a.get("bounds", a.get(1))
            if b is not None and p.res(b) not in (attr(ME, "_bounds"), attr(ME, "bounds")):
                ctx.find("slices", cname(f), f.where, f"uses {show(p.res(b))[:80]} instead of the problem's variables")
            k = "encoded" if name == "generate_solution" else "x"
            if k in a and p.res(a[k]) != args[0]:
                ctx.find("slices", cname(f), f.where, f"hands over {show(p.res(a[k]))[:80]} instead of the given {k}")


def run(ctx):
    ctx.explanation = ("Canonical terms of every decision variable's constructor, correction, decoding, generation and encoding, evaluated over declared limits, "
                       "label sets and the critical values around every limit (below, at, between, half way, above) and the extreme results of every draw; "
                       "canonical terms of the problem's functions for three variables of unknown dimension: each variable on its own slice, in order.")
    F = Fw(ctx.prog)
    ctx.part("variables", variables, F)
    ctx.part("labels", labels, F)
    ctx.part("mixed", mixed, F)
    ctx.need("variable_types", 8)
    ctx.need("declarations", 20)
