"""Every algorithm is listed under its own name, carries metadata, implements a step and is constructible without arguments."""
import ast

from ..spec import *            # noqa: F401,F403
from ..spec import Fw, method, paths, cname
from ..program import Class, Func, Module
from .. import terms as T
from ..model import Model
from .c08 import NoValue, Rejected, constructors, param_checks, named, defaults, default_of, ev
from .prims import flat, returns, ME

PKG = "mealpy"


# ---------------------------------------------------------------- static namespaces
def namespace(prog, m):
    """{name: Module / Class / Func / None} after the module's body ran; the last binding counts.  Also names bound twice to different things."""
    out, twice = {}, []

    def bind(n, v, line):
        if n in out and isinstance(out[n], Class) and out[n] is not v:
            twice.append((n, out[n], v, line))
        out[n] = v

    def imported(base, name):
        return prog.modules.get(f"{base}.{name}") or lookup(base, name)

    def lookup(base, name):
        b = prog.resolve_qual(base)
        return prog.resolve_name(b, name) if isinstance(b, Module) else None

    def scan(body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    bind(a.asname or a.name.split(".")[0], prog.modules.get(a.name if a.asname else a.name.split(".")[0]), st.lineno)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = m._pkg().split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        b = prog.resolve_qual(base)
                        if isinstance(b, Module):
                            for n, v in namespace(prog, b)[0].items():
                                if not n.startswith("_"):
                                    bind(n, v, st.lineno)
                    else:
                        bind(a.asname or a.name, imported(base, a.name), st.lineno)
            elif isinstance(st, ast.ClassDef):
                c = m.classes.get(st.name)
                bind(st.name, c if c is not None and c.node is st else Class(st.name, st, m), st.lineno)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bind(st.name, m.functions.get(st.name), st.lineno)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                v = prog.resolve_expr(m, st.value) if st.value is not None and isinstance(st.value, (ast.Name, ast.Attribute)) else None
                for t in getattr(st, "targets", [getattr(st, "target", None)]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bind(x.id, v if isinstance(v, (Class, Module, Func)) else None, st.lineno)
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(out.get(t.id), Class):
                            twice.append((t.id, out[t.id], None, st.lineno))
                        out.pop(t.id, None)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for b in ("body", "orelse", "finalbody"):
                    scan(getattr(st, b, []))
                for h in getattr(st, "handlers", []):
                    scan(h.body)

    scan(m.tree.body)
    if m.is_pkg:            # submodules that were imported are attributes of their package
        done = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n.level == 1 and n.module:
                done.add(n.module.split(".")[0])
        for n in done:
            out.setdefault(n, prog.modules.get(f"{m.name}.{n}"))
    return out, twice


# ---------------------------------------------------------------- the classes
def algorithms(ctx, F):
    out = []
    for c in ctx.prog.optimizers():
        if c.name.startswith("_") and any(c in d.mro for d in ctx.prog.optimizers() if d is not c):
            continue            # a private base of other algorithms
        out.append(c)
    return out


def classes(ctx, F, algs):
    names = {}
    for c in algs:
        ctx.count("algorithms")
        names.setdefault(c.name, []).append(c)
        f = c.lookup("evolve")
        if f is None or f.cls is F.O or always_rejects(f):
            ctx.find("no-step", c.short, f"{c.module.rel}:{c.name}", f"{c.name} does not implement a search step: its evolve is {'the empty one of Optimizer' if f is None or f.cls is F.O else 'one that only raises'}")
        left = abstract(c)
        if left:
            ctx.find("abstract", c.short, f"{c.module.rel}:{c.name}", f"{c.name} cannot be constructed: {', '.join(sorted(left))} left abstract")
    for n, l in names.items():
        if len(l) > 1:
            ctx.find("name-clash", n, f"{l[-1].module.rel}:{n}", f"{n} is defined in {' and '.join(sorted(c.module.rel for c in l))}; the listing keeps only one of them")
    for m in ctx.prog.modules.values():
        if m.is_pkg or not m.classes:
            continue
        _, twice = namespace(ctx.prog, m)
        for n, old, new, line in twice:
            if isinstance(old, Class) and old.module is m and new is not old and (n in m.classes):
                ctx.find("hidden", f"{m.rel.split('/')[-1]}:{n}", f"{m.rel}:{line}", f"{n} is bound again in {m.rel}, which hides the class defined before")


def always_rejects(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[0], ast.Raise) or all(isinstance(s, ast.Pass) for s in body)


def abstract(c):
    left = set()
    for k in reversed(c.mro):
        if not isinstance(k, Class):
            continue
        for n, g in k.methods.items():
            if any("abstractmethod" in ast.unparse(d) for d in g.node.decorator_list):
                left.add(n)
            else:
                left.discard(n)
    if not any("ABC" in str(k) or isinstance(k, Class) and any("ABCMeta" in ast.unparse(x.value) for x in k.node.keywords) for k in c.mro):
        return set()
    return left


# ---------------------------------------------------------------- metadata
def metadata(ctx, F, algs):
    I = ctx.prog.cls("mealpy.utils.opt_info.OptInfo")
    fields = [s.target.id for s in I.node.body if isinstance(s, ast.AnnAssign)]
    given = {s.target.id: s.value for s in I.node.body if isinstance(s, ast.AnnAssign)}
    post = I.methods.get("__post_init__")
    ps = None
    if post is not None:
        def setup(st):
            for x in fields:
                st.attrs[(ME, x)] = S(x)
        ps = paths(ctx, F.core(types={"self": I}), post, [ME], setup=setup)
    seen = {}
    for c in algs:
        ctx.count("metadata")
        v = own_info(c)
        where = f"{c.module.rel}:{c.name}"
        if v is None:
            ctx.find("no-metadata", c.short, where, f"{c.name} carries no metadata of its own (OPT_INFO)")
            continue
        if isinstance(v, ast.Constant) and v.value is None:
            ctx.find("no-metadata", c.short, where, f"{c.name} carries no metadata of its own (OPT_INFO is None)")
            continue
        if isinstance(v, (ast.Name, ast.Attribute)):
            k = ctx.prog.resolve_expr(c.module, v)
            if isinstance(v, ast.Attribute) and v.attr == "OPT_INFO":
                ctx.find("no-metadata", c.short, where, f"{c.name} carries the metadata of another algorithm ({ast.unparse(v)})")
                continue
            if isinstance(k, tuple) and k[0] == "global":
                v = k[1].globals[k[2]]
        if not isinstance(v, ast.Call) or ctx.prog.resolve_expr(c.module, v.func) is not I:
            ctx.undec(f"{where}: metadata {ast.unparse(v)[:60]}")
            continue
        vals, bad = {}, None
        for x, a in zip(fields, v.args):
            vals[x] = a
        for k in v.keywords:
            if k.arg is None or k.arg not in fields or k.arg in vals:
                bad = k.arg
                break
            vals[k.arg] = k.value
        miss = [x for x in fields if x not in vals and given[x] is None]
        if bad or miss or len(v.args) > len(fields):
            ctx.find("metadata", c.short, where, f"{c.name}: OptInfo is called with {'unknown or repeated ' + bad if bad else 'no ' + ', '.join(miss)}")
            continue
        env = {("cls", "mealpy.utils.opt_info.ScientificConcern"): Concern}
        for x in fields:
            a = vals.get(x, given[x])
            try:
                env[S(x)] = literal(ctx, c.module, a)
            except (ValueError, TypeError):
                pass
        m = Model(env)
        if ps:
            hit = None
            for p in ps:
                if p.kind != "raise":
                    continue
                try:
                    if all(bool(m.ev(t)) == b for t, b in p.conds):
                        hit = p
                except (NoValue, Rejected, IndexError, TypeError, ValueError):
                    pass
            if hit is not None:
                shown = ", ".join(f"{k[1]}={v!r}" for k, v in env.items() if k[0] == "s" and any(k in T.walk(t) for t, b in hit.conds[-1:]))
                ctx.find("metadata", c.short, where, f"{c.name}: its metadata is rejected ({shown})")
        seen.setdefault(id(v), []).append(c)
    for l in seen.values():
        if len(l) > 1:
            ctx.find("metadata", l[1].short, f"{l[1].module.rel}:{l[1].name}", f"{' and '.join(c.name for c in l)} share one metadata object")


class Concern:
    """Stands for a member of ScientificConcern."""


def literal(ctx, m, a):
    if isinstance(a, (ast.Tuple, ast.List)):
        return [literal(ctx, m, x) for x in a.elts]
    if isinstance(a, ast.Attribute):
        k = ctx.prog.resolve_expr(m, a.value)
        if isinstance(k, Class) and k.name == "ScientificConcern" and k.class_attr(a.attr) is not None:
            return Concern()
    return ast.literal_eval(a)


def own_info(c):
    for st in c.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "OPT_INFO" for t in st.targets):
            return st.value
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == "OPT_INFO" and st.value is not None:
            return st.value
    for st in c.module.tree.body:
        if isinstance(st, ast.Assign) and any(ast.unparse(t) == f"{c.name}.OPT_INFO" for t in st.targets):
            return st.value
    return None


# ---------------------------------------------------------------- constructors
def construct(ctx, F, algs):
    made = constructors(ctx, F)
    for c in algs:
        f = c.lookup("__init__")
        if f is None:
            continue
        ctx.count("constructors")
        a = f.node.args
        pos = (a.posonlyargs + a.args)[1:]
        need = [x.arg for x in pos[: len(pos) - len(a.defaults)]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if need:
            ctx.find("required", c.short, f.where, f"{c.name} cannot be constructed without {', '.join(need)}")
        if c in made:
            ctx.part(f"defaults of {c.short}", default_path, c, *made[c], F)


def default_path(ctx, c, f, params, rets, F):
    env = {}
    for x in params:
        has, d = default_of(f, x)
        if has:
            env[S(x)] = d
    for p in rets:
        checks = param_checks(p, params)
        names = {e[3]: x for x, l in checks.items() for e, _ in l}
        if not on(p, env, names):
            continue
        for x in params:
            for e, a in checks[x]:
                ctx.count("checks")
                b = {k: named(p.res(v), names) for k, v in a.items() if k in ("bound", "bounds", "bound_int", "bound_float")}
                defaults(ctx, c, f, params, x, f"{c.short}.{x}", e[1].split(".")[-1], b)
    core = F.core(types={"self": c})
    core.opaque = lambda g: g.cls is F.V or g.cls is F.O and g.name in ("__init__", "set_parameters")
    for p in paths(ctx, core, f, [ME] + [S(x) for x in params]) or ():
        names = {e[3]: x for x, l in param_checks(p, params).items() for e, _ in l}
        if p.kind == "raise" and p.conds and on(p, env, names, sure=True):
            ctx.find("default", c.short, f.where, f"constructing {c.name} with its defaults raises")


def on(p, env, names, sure=False):
    for t, b in p.conds:
        try:
            if bool(ev(named(t, names), env)) != b:
                return False
        except (NoValue, Rejected, IndexError, TypeError, ValueError):
            if sure:
                return False
    return True


# ---------------------------------------------------------------- the listing
class Mod:
    def __init__(self, name, members):
        self.name, self.members = name, members

    def fields(self, n):
        if n == "__dict__":
            return dict(self.members)
        if n == "__name__":
            return self.name
        if n in self.members:
            return self.members[n]
        raise NoValue(n)


class Cl:
    def __init__(self, name, alg, module=None, bases=None, mro=None):
        self.name, self.alg, self.module, self.bases, self.mro = name, alg, module, bases, mro

    def fields(self, n):
        if n in ("__name__", "__qualname__"):
            return self.name
        if n == "__module__" and self.module:
            return self.module
        if n in ("__bases__", "__mro__"):
            f = self.bases if n == "__bases__" else self.mro
            if f is not None:
                return f()
        raise NoValue(n)


class Thing:
    pass


class Stop(Exception):
    pass


KEYERRORS = ("KeyError", "LookupError", "Exception", "BaseException", "any")


class World:
    """A package with some modules; what the listing functions find in it."""

    def __init__(self, F, base, package, args):
        self.F, self.base, self.package, self.args = F, base, package, args

    def draw(self, m, name, pos, kw, b, idx):
        last = name.split(".")[-1]
        v = [m.value(x, b) for x in (pos[:1] if last == "getmembers" else pos)]
        if last in ("getmembers", "vars") or name == "builtins.vars":
            x = v[0]
            if not isinstance(x, Mod):
                raise NoValue(name)
            if last == "vars":
                return dict(x.members)
            out = sorted(x.members.items())
            pred = pos[1] if len(pos) > 1 else kw.get("predicate")
            if pred is not None:
                t = pred[1].split(".")[-1] if pred[0] == "ext" else ""
                out = [y for y in out if self.test(t, y[1])]
            return out
        if last in ("ismodule", "isclass"):
            return self.test(last, v[0])
        if last == "issubclass":
            if not isinstance(v[0], Cl):
                raise Rejected
            ks = v[1] if isinstance(v[1], (tuple, list)) else (v[1],)
            return any(k is v[0] or k is self.base and v[0].alg for k in ks)
        if last == "getmodule" and isinstance(v[0], Cl):
            raise NoValue(name)
        if last == "print" or name.startswith("dyn:"):
            return None
        if name == ".get" and v and isinstance(v[0], dict):
            return v[0].get(*v[1:])
        raise NoValue(name)

    def test(self, t, x):
        if t == "ismodule":
            return isinstance(x, Mod)
        if t == "isclass":
            return isinstance(x, Cl)
        raise NoValue(t)

    def model(self, p):
        env = {("at", ("ext", "sys.modules"), ("ext", "builtins.__name__")): self.package, ("cls", "mealpy.optimizer.Optimizer"): self.base,
               ("ext", "builtins.__name__"): PKG, **self.args}
        def calls(effs):
            for e in effs:
                if e[0] == "loop":
                    for o in e[3]:
                        yield from calls(o[2])
                else:
                    yield e
        return Model(env, list(calls(p.eff)), self.draw, p.res)

    def runs(self, ps):
        """('return', value) / ('raise', None); NoValue when not determined."""
        hit = []
        for p in ps:
            exc = raised_in(p)
            if exc is not None:
                hit.append((p, exc, None))
                continue
            m = self.model(p)
            try:
                self.settle(p, m)
                if all(bool(m.ev(t)) == b for t, b in p.conds):
                    hit.append((p, None, m))
            except Rejected:
                hit.append((p, "fails", m))
        plain = [(p, m) for p, e, m in hit if e is None]
        if len(plain) != 1 and not any(e == "fails" for p, e, m in hit):
            raise NoValue
        for p, m in plain[:1]:
            if p.kind == "raise":
                return "raise", None
            try:
                return "return", m.ev(p.value)
            except Rejected:
                pass
        for p, e, m in hit:
            if e not in (None, "fails") and str(e).split(".")[-1] in KEYERRORS:
                return ("raise", None) if p.kind == "raise" else ("return", self.model(p).ev(p.value))
        return "raise", None

    def settle(self, p, m):
        """Play what the path does and give the containers it fills their contents."""
        cells = {e[1]: {} for e, _ in flat(p.eff) if e[0] in ("dictset", "setitem") and e[1][0] == "new"}
        self.play(p.eff, m, {}, cells)
        for c, d in cells.items():
            m.env[c] = d
            t = p.content(c)
            if t is not None:
                m.env[t] = d

    def play(self, effs, m, b, cells):
        for e in effs:
            if e[0] == "loop":
                if len(e[3]) == 1 and not any(x[0] in ("dictset", "setitem", "popitem", "append") or x[0] == "call" and x[1] == ".pop" for x in e[3][0][2]):
                    continue            # nothing is stored in it
                seq = self.value(e[1], m, b, cells)
                for i in range(len(seq)):
                    bb = {**b, ("ix", e[2][1]): i}
                    took = [o for o in e[3] if all(bool(m.value(t, bb)) == v for t, v in o[1])]
                    if len(took) != 1:
                        raise NoValue(e[1])
                    o = took[0]
                    self.play(o[2], m, bb, cells)
                    if o[0] == "break":
                        break
                    if o[0] not in ("fall", "continue"):
                        raise NoValue(o[0])
            elif e[0] in ("dictset", "setitem"):
                cells.setdefault(e[1], {})[m.value(e[2], b)] = m.value(e[3], b)
            elif e[0] == "popitem":
                d, k = cells.setdefault(e[1], {}), m.value(e[2], b)
                if k not in d:
                    raise Rejected
                del d[k]
            elif e[0] == "call" and e[1] == ".pop" and e[2] and e[2][0][0] == "new":
                d, k = cells.setdefault(e[2][0], {}), m.value(e[2][1], b)
                if k not in d and len(e[2]) < 3:
                    raise Rejected
                d.pop(k, None)
            elif e[0] == "call" and e[1].startswith(".") and e[2] and e[2][0][0] == "new" and e[1] not in (".items", ".keys", ".values", ".get", ".copy"):
                raise NoValue(e[1])

    def value(self, t, m, b, cells):
        return m.value(t, b)


def listing(ctx, F, algs):
    top = ctx.prog.modules.get(PKG)
    fs = {n: top.functions.get(n) for n in ("get_all_optimizers", "get_optimizer_by_class", "get_optimizer_by_name")}
    for n, f in fs.items():
        if f is None:
            ctx.find("lookup", f"__init__.py:{n}", f"{PKG}/__init__.py", f"{n} is gone")
            return
    base = Cl("Optimizer", True, F.O.module.name)
    made = {}

    def cl(c):
        return made.setdefault(c, Cl(c.name, c in algs or F.O in c.mro, c.module.name, lambda: up(c.bases), lambda: up(c.mro)))

    made[F.O] = base
    base.mro, base.bases, obj = lambda: up(F.O.mro), lambda: up(F.O.bases), Cl("object", False, "builtins")

    def up(cs):
        out = tuple(cl(k) if isinstance(k, Class) else Cl(str(k), False) for k in cs)
        return out or (obj,)

    def mod(x):
        members, _ = namespace(ctx.prog, x)
        return Mod(x.name, {n: cl(v) if isinstance(v, Class) else Mod(v.name, {}) if isinstance(v, Module) else Thing() for n, v in members.items()})

    ns, _ = namespace(ctx.prog, top)
    full = {n: mod(v) if isinstance(v, Module) else cl(v) if isinstance(v, Class) else Thing() for n, v in ns.items()}
    full.update(sys=Mod("sys", {}), inspect=Mod("inspect", {}))
    want = {c.name: cl(c) for c in algs}
    arg = {n: [x.arg for x in f.node.args.args] for n, f in fs.items()}
    ps = {}
    for n, f in fs.items():
        core = F.core()
        core.prints = True
        ps[n] = paths(ctx, core, f, [S(x) for x in arg[n]])
        if ps[n] is None:
            return

    def ask(n, members, *given):
        ctx.count("lookups")
        w = World(F, base, Mod(PKG, members), {S(x): v for x, v in zip(arg[n], given)})
        try:
            return w.runs(ps[n])
        except (NoValue, KeyError, IndexError, TypeError, ValueError) as e:
            ctx.undec(f"{fs[n].where}: {n}{given}: {type(e).__name__} {str(e)[:80]}")
            return None

    def judge(n, given, got, ok, text):
        if got is not None and not ok:
            ctx.find("lookup", f"__init__.py:{n}", fs[n].where, f"{n}({', '.join(map(repr, given))}) {text}")

    def told(v):
        return v if not isinstance(v, dict) else {k: getattr(x, "name", x) for k, x in v.items()}

    # everything is listed
    for verbose in (True, False):
        got = ask("get_all_optimizers", full, verbose)
        if got is None:
            continue
        if got[0] != "return" or not isinstance(got[1], dict):
            judge("get_all_optimizers", (verbose,), got, False, "does not return a listing")
            continue
        for c in algs:
            ctx.count("listed")
            if got[1].get(c.name) is not want[c.name]:
                shown = [k for k, v in got[1].items() if v is cl(c)]
                ctx.find("unlisted", c.short, f"{PKG}/__init__.py", f"{c.name} of {c.module.rel} is not in the public listing under its own name"
                         + (f" (listed as {', '.join(shown)})" if shown else ""))
        extra = sorted(k for k, v in got[1].items() if v is base or not (isinstance(v, Cl) and v.alg))
        if extra:
            judge("get_all_optimizers", (verbose,), got, False, f"lists {', '.join(extra[:3])}, not an algorithm")
    # and found by name
    groups = {}
    for n, v in ns.items():
        if isinstance(v, Module):
            own = [c for c in v.classes.values() if c in algs]
            if own:
                groups[n] = (v, own)
    ctx.count("modules", len(groups))
    reach = {v for v, _ in groups.values()}
    for m in sorted({c.module for c in algs} - reach, key=lambda m: m.rel):
        ctx.find("unlisted", m.rel.split("/")[-1], m.rel, f"the module {m.name} is not an attribute of {PKG}, so its algorithms are not listed")
    two = dict(list(groups.items())[:2])
    small = {n: full[n] for n in two}
    small.update({k: full[k] for k in ("sys", "inspect", "utils", "optimizer", "tuner") if k in full}, Problem=Cl("Problem", False))
    for n, (v, own) in groups.items():
        world = {**small, n: full[n]}
        for verbose in (True, False):
            got = ask("get_optimizer_by_name", world, n, verbose)
            if got is None:
                continue
            d = got[1] if got[0] == "return" and isinstance(got[1], dict) else {}
            for c in own:
                judge("get_optimizer_by_name", (n, verbose), got, d.get(c.name) is cl(c), f"does not give {c.name}")
            extra = [k for k, x in d.items() if x is base or not (isinstance(x, Cl) and x.alg)]
            judge("get_optimizer_by_name", (n, verbose), got, not extra, f"gives {', '.join(extra[:3])}, not an algorithm")
    for n, (v, own) in groups.items():
        for c in own:
            for verbose in ((True, False) if n in two else (False,)):
                got = ask("get_optimizer_by_class", {n: full[n], **{k: full[k] for k in two}, "sys": full["sys"]}, c.name, verbose)
                judge("get_optimizer_by_class", (c.name, verbose), got, got == ("return", cl(c)), "does not give that class")
    # unknown names
    for verbose in (True, False):
        for x in ("NoSuchOptimizer", "Optimizer"):
            got = ask("get_optimizer_by_class", small, x, verbose)
            judge("get_optimizer_by_class", (x, verbose), got, got == ("return", None), f"{'raises' if got and got[0] == 'raise' else 'does not return None'} for an unknown name")
        for x in ("NoSuchModule", "utils", "sys", "Problem"):
            got = ask("get_optimizer_by_name", small, x, verbose)
            judge("get_optimizer_by_name", (x, verbose), got, got is not None and got[0] == "return" and not got[1],
                  f"{'raises' if got and got[0] == 'raise' else 'gives ' + str(told(got[1])) if got else ''} for a name that is no algorithm module")
            if verbose is False and got == ("return", {}):
                ctx.count("silent")
    reported(ctx, F, fs, ps, arg, small, base)


def reported(ctx, F, fs, ps, arg, small, base):
    """Looking up an unknown name prints something."""
    for n in ("get_optimizer_by_class", "get_optimizer_by_name"):
        for verbose in (True, False):
            w = World(F, base, Mod(PKG, small), {S(x): v for x, v in zip(arg[n], ("NoSuchOptimizer", verbose))})
            path = said(w, ps[n])
            if path is None:
                ctx.undec(f"{fs[n].where}: what an unknown name prints")
            elif not path:
                ctx.find("silent", f"__init__.py:{n}", fs[n].where, f"{n} of an unknown name (verbose={verbose}) reports nothing")


def raised_in(p):
    for t, b in p.conds:
        if t[:2] == ("app", "exception") and b:
            return t[2][2] if len(t) > 2 and t[2][0] == "k" else "any"
    return None


def said(w, ps):
    for p in ps:
        if raised_in(p) is not None:
            continue
        m = w.model(p)
        try:
            w.settle(p, m)
            if not all(bool(m.ev(t)) == b for t, b in p.conds):
                continue
            if p.kind != "raise":
                m.ev(p.value)
            return printed(p)
        except Rejected:
            q = [x for x in ps if raised_in(x) is not None]
            return bool(q) and printed(q[0])
        except (NoValue, KeyError, IndexError):
            return None
    return None


def printed(p):
    return any(e[0] == "print" or e[0] == "call" and (e[1].endswith("print") or "warn" in e[1] or ".error" in e[1] or ".info" in e[1]) for e, loops in flat(p.eff) if not loops)


def run(ctx):
    ctx.explanation = ("The names each module and the package bind (last binding counts) for every algorithm class; its search step, metadata and leftover abstract "
                       "methods; every constructor path at its defaults against the declared ranges; the three lookup functions, interpreted as canonical terms over "
                       "the package's static namespace, for every algorithm, module and some names that are none.")
    F = Fw(ctx.prog)
    algs = algorithms(ctx, F)
    ctx.part("classes", classes, F, algs)
    ctx.part("metadata", metadata, F, algs)
    ctx.part("constructors", construct, F, algs)
    ctx.part("listing", listing, F, algs)
    ctx.need("algorithms", 200)
    ctx.need("metadata", 200)
    ctx.need("constructors", 200)
