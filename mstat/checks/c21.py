"""C21: optimizers can be sent to workers and saved to disk.

Every function is summarised as in c17 (object paths from its parameters, locals followed statement by statement, calls
replaced by the summaries of all definitions they may mean), with one more kind of origin: what pickle cannot take apart
(functions made inside functions, generators, open files, executors, locks, modules, views of dicts).  Such a thing must
not be stored in an optimizer or in anything it owns, and must not be handed to worker processes.
"""
import ast

from ..callgraph import pools, is_pool
from ..program import Class, Func, Module
from ..spec import Fw, S, paths
from .. import terms as T
from ..terms import show
from . import c17
from .c17 import ANY, NONE, Walk, World, under, read, shallow

LOCKS = {"Lock", "RLock", "Condition", "Semaphore", "BoundedSemaphore", "Event", "Barrier", "Thread", "Timer", "local", "Process", "Pool", "ThreadPool", "Manager", "Queue", "SimpleQueue",
         "JoinableQueue", "LifoQueue", "PriorityQueue", "Pipe", "Popen", "allocate_lock", "ThreadPoolExecutor", "ProcessPoolExecutor", "Parallel", "Future", "Client"}
LOCKLIBS = {"threading", "multiprocessing", "_thread", "concurrent", "queue", "asyncio", "subprocess", "joblib", "dask", "sched", "selectors"}
NAMED = {"open": "an open file", "io.open": "an open file", "codecs.open": "an open file", "os.fdopen": "an open file", "gzip.open": "an open file", "bz2.open": "an open file",
         "lzma.open": "an open file", "tempfile.TemporaryFile": "an open file", "tempfile.NamedTemporaryFile": "an open file", "tempfile.SpooledTemporaryFile": "an open file",
         "csv.writer": "a csv writer", "csv.reader": "a csv reader", "sqlite3.connect": "a database connection", "socket.socket": "a socket", "zipfile.ZipFile": "an open file",
         "logging.FileHandler": "a log handler", "logging.StreamHandler": "a log handler", "logging.handlers.RotatingFileHandler": "a log handler", "weakref.ref": "a weak reference",
         "weakref.proxy": "a weak reference", "weakref.WeakMethod": "a weak reference", "weakref.WeakKeyDictionary": "weak references", "weakref.WeakValueDictionary": "weak references",
         "weakref.WeakSet": "weak references", "tqdm.tqdm": "a progress bar", "tqdm.trange": "a progress bar", "tqdm.auto.tqdm": "a progress bar", "inspect.currentframe": "a frame",
         "sys._getframe": "a frame", "types.ModuleType": "a module", "importlib.import_module": "a module", "types.MappingProxyType": "a dict view", "memoryview": "a memory view",
         "numpy.frompyfunc": "a function made by numpy.frompyfunc", "numpy.nditer": "an array iterator", "hashlib.md5": "a hash object", "hashlib.sha256": "a hash object",
         "contextlib.ExitStack": "a context manager", "os.scandir": "a directory iterator", "re.finditer": "an iterator of matches", "mmap.mmap": "a memory map"}
STREAMS = {"sys.stdout", "sys.stderr", "sys.stdin", "sys.__stdout__", "sys.__stderr__"}
SUBMODULES = {"numpy.random", "numpy.linalg", "numpy.fft", "numpy.ma", "os.path", "concurrent.futures", "scipy.stats", "scipy.special", "scipy.optimize", "matplotlib.pyplot", "collections.abc",
              "multiprocessing.pool"}
WRAPS = {"functools.lru_cache", "functools.cache", "functools.wraps", "numpy.vectorize", "functools.partialmethod", "functools.cached_property", "staticmethod", "classmethod"}
LAZY = {"map", "filter", "functools.partial", "itertools.starmap", "itertools.takewhile", "itertools.dropwhile", "itertools.filterfalse", "itertools.accumulate", "itertools.groupby",
        "collections.defaultdict", "functools.cmp_to_key"}
VIEWS = {"keys", "items", "values"}


def mark(kind, f, at):
    return frozenset({((), (f"#{kind}|{f.where}|{getattr(at, 'lineno', 0)}",))})


def marks(v):
    return frozenset(x for x in v if x[1][0][0] == "#")


def own_yield(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


class Handles(Walk):
    """Like c17's walk; things pickle cannot take apart are origins of their own."""

    def mut(self, v, field, at, cls=None):
        pass

    def quiet(self):
        return True

    def place(self, p):
        """Is an object at this path one of those that must stay plain?"""
        if len(p) < 2:
            return False
        covered = self.cls is not None and any(k in self.cls.mro for k in self.W.covered)
        if p[0] == "self":
            return covered
        return p[0][0] != "#" and any(x[0] != "[" for x in p[1:]) and (covered or any(self.W.kind(p[:i]) in self.W.covered for i in range(1, len(p))))

    def store(self, p, v):
        super().store(p, v)
        self.noted(p, v)

    def noted(self, p, v):
        m = marks(v)
        if m and self.place(p):
            for s, q in m:
                self.W.kept.setdefault((q[0], p, s), (self.f, self.line))

    def stmt(self, st):
        self.line = st.lineno
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            super().stmt(st)
            self.env[st.name] = mark("a function defined inside a function", self.f, st)
        elif isinstance(st, ast.ClassDef):
            self.env[st.name] = mark("a class defined inside a function", self.f, st)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            super().stmt(st)
            for a in st.names:
                if isinstance(st, ast.Import) or f"{st.module}.{a.name}" in SUBMODULES:
                    self.env[a.asname or a.name.split(".")[0]] = mark("a module", self.f, st)
        else:
            super().stmt(st)

    def arg(self, p, args, spread):
        if p[0][0] == "#":
            return frozenset({((), p[:1])}), p[1:]
        return super().arg(p, args, spread)

    def apply(self, g, args, at, spread=()):
        before = {k: marks(v) for k, v in self.s.stores.items()}
        out = super().apply(g, args, at, spread)
        given = [k for k, v in args.items() if marks(v)]
        for k, v in self.s.stores.items():
            new = marks(v) - before.get(k, NONE)
            if new:
                self.noted(k[0], new)
        if own_yield(g.node):
            out = out | mark("a generator", self.f, at)
        return out

    def outer(self, e):
        """A name of the module (or a private function) as a value."""
        r = self.dotted(e) or self.prog.resolve_expr(self.m, e)
        if isinstance(r, Module):
            return mark("a module", self.f, e)
        if isinstance(r, str):
            if r in STREAMS:
                return mark("an open stream", self.f, e)
            if r in SUBMODULES or isinstance(e, ast.Name) and "." not in r and self.imported(e.id):
                return mark("a module", self.f, e)
            return NONE
        if isinstance(r, Func):
            if r.cls is not None and private(r.name):
                return mark("a private function", self.f, e)
            return NONE
        if isinstance(r, tuple) and r and r[0] == "global":
            return self.shared(r[1], r[1].globals.get(r[2]), e)
        if isinstance(e, ast.Attribute):
            b = self.prog.resolve_expr(self.m, e.value)
            if b is None and isinstance(e.value, ast.Name) and e.value.id in (self.me, "cls"):
                b = self.cls
            if b is None and isinstance(e.value, ast.Attribute) and e.value.attr == "__class__" or isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "type":
                b = self.cls
            if isinstance(b, Class) and b.lookup(e.attr) is None:
                x, c = b.class_attr(e.attr)
                if x is not None:
                    return self.shared(c.module, getattr(x, "value", x), e)
        return NONE

    def shared(self, m, value, at):
        """What a value made once for the module or the class holds."""
        if not isinstance(value, ast.expr) or getattr(self, "within", 0) > 4:
            return NONE
        keep = self.m, self.env, self.local
        self.within = getattr(self, "within", 0) + 1
        self.m, self.env, self.local = m, {}, {}
        try:
            return marks(self.ev(value))
        finally:
            self.within -= 1
            self.m, self.env, self.local = keep

    def imported(self, name):
        if not hasattr(self.m, "_plain"):
            self.m._plain = {(a.asname or a.name.split(".")[0]) for st in ast.walk(self.m.tree) if isinstance(st, ast.Import) for a in st.names}
        return name in self.m._plain

    def ev(self, e):
        t = type(e)
        if t is ast.Name and e.id not in self.env:
            return self.outer(e)
        if t is ast.Lambda:
            super().ev(e)
            return mark("a lambda function", self.f, e)
        if t is ast.GeneratorExp:
            return super().ev(e) | mark("a generator", self.f, e)
        if t is ast.Attribute:
            v = self.outer(e)
            if v:
                if isinstance(e.value, ast.Name) and e.value.id == self.me:
                    v = v | super().ev(e)
                return v
            if isinstance(e.value, ast.Name) and e.value.id == self.me and self.cls is not None and private(e.attr):
                r = self.cls.lookup(self.cls.mangled(e.attr)) or self.cls.lookup(e.attr)
                if isinstance(r, Func) and r.kind != "property":
                    return mark("a private method", self.f, e)
        return super().ev(e)

    def call(self, e):
        fn = e.func
        if isinstance(fn, ast.Name):
            v = self.env.get(fn.id, NONE)
            if fn.id not in self.local:
                for s, q in v:
                    if q[0].startswith("#a class"):
                        self.given(e)
                        return mark("an instance of a class defined inside a function", self.f, e)
            elif own_yield(self.local[fn.id]):
                return super().call(e) | mark("a generator", self.f, e)
        return super().call(e)

    def method(self, fn, e, pos, star, kw, rest):
        out = super().method(fn, e, pos, star, kw, rest)
        if fn.attr in VIEWS and not e.args and not e.keywords and not self.candidates(fn):
            # the items of the view, and the view itself
            out = out | mark("a dict view", self.f, e)
        return out

    def library(self, name, e, pos, star, kw, rest):
        name = name[9:] if name.startswith("builtins.") else name
        out = super().library(name, e, pos, star, kw, rest)
        k = handle(name)
        if k:
            return out | mark(k, self.f, e)
        if name in WRAPS or name in LAZY:
            first = frozenset((s, q) for s, q in marks(frozenset().union(*pos[:1], *kw.values()) if name != "functools.partial" else frozenset().union(star, rest, *pos, *kw.values())) if not s)
            return out | first
        if name == "setattr" and len(pos) == 3 and not isinstance(e.args[1], ast.Constant):
            for s, p in pos[0]:
                if not s:
                    self.store(p + ("*",), marks(pos[2]))
            return out
        if name == "iter" and pos:
            return out | frozenset((s, q) for s, q in marks(pos[0]) if not s)
        if name == "type" and len(pos) == 3:
            return mark("a class defined inside a function", self.f, e)
        if name in ("copy.deepcopy", "copy.copy") and pos:
            return out | frozenset((s, q) for s, q in marks(pos[0]) if not s)
        if name in ("max", "min", "next") and pos:
            return frozenset(x for x in out if x[0] or x[1][0][0] != "#" or x in read(pos[0], ANY))
        return out

    def pool(self, e, pos, kw):
        held = frozenset().union(*pos, *kw.values())
        for s, q in marks(held):
            if not q[0].startswith(("#a generator", "#a dict view")) and self.processes(e):
                self.W.sent.setdefault(q[0], (self.f, e.lineno))
        return super().pool(e, pos, kw)

    def processes(self, e):
        """Does this call hand its work to other processes?"""
        v = e.func.value if isinstance(e.func, ast.Attribute) else e.func
        made = [v]
        if isinstance(v, ast.Name):
            ws = [x for x in ast.walk(self.f.node) if isinstance(x, ast.With) and any(y is e for y in ast.walk(x))
                  and any(isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == v.id for i in x.items)]
            if ws:
                w = min(ws, key=lambda x: sum(1 for _ in ast.walk(x)))
                made = [i.context_expr for i in w.items if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == v.id]
            else:
                made = [x.value for x in ast.walk(self.f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
        names = set()
        todo, seen = list(made), set()
        while todo:
            for y in ast.walk(todo.pop()):
                if isinstance(y, (ast.Name, ast.Attribute)):
                    r = self.prog.resolve_expr(self.m, y)
                    if isinstance(r, str):
                        names.add(r)
                    elif isinstance(y, ast.Name) and y.id not in seen:
                        seen.add(y.id)
                        todo += [x.value for x in ast.walk(self.f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == y.id for t in x.targets)]
        return any(n.split(".")[-1] in ("ProcessPoolExecutor", "Pool", "Process") and n.split(".")[0] in ("concurrent", "multiprocessing") for n in names)


def private(n):
    return n.startswith("__") and not n.endswith("__")


def handle(name):
    if name in NAMED:
        return NAMED[name]
    a, b = name.split(".")[0], name.split(".")[-1]
    if a in LOCKLIBS and b in LOCKS:
        return "an executor" if "Executor" in b or "Pool" in b or b == "Parallel" else "a lock, queue or worker"
    return None


class Plain(World):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.kept, self.sent = {}, {}
        self.covered = [k for k in (self.optimizer, self.var, self.cl("utils.agent", "Agent"), *(self.kinds[n] for n in ("problem", "termination", "history", "validator", "target"))) if k is not None]

    def run(self):
        n = 0
        while self.todo:
            f = self.todo.pop(0)
            self.queued.discard(f)
            n += 1
            if n > 60000:
                raise RuntimeError("summaries do not settle")
            s = self.sum[f]
            before = s.size()
            Handles(self, f, s).go()
            if s.size() != before:
                for u in self.users.get(f, ()):
                    self.push(u)
        return n


def run(ctx):
    ctx.explanation = ("summaries of every function (what it stores where) with things pickle cannot take apart as origins; none may reach an attribute of an optimizer or of "
                       "what it owns, nor a worker process; the paths save_model and load_model open, compared for every kind of argument")
    ctx.part("state", state)
    ctx.part("protocol", protocol)
    ctx.part("files", files)
    ctx.need("summaries", 200)


def state(ctx):
    W = Plain(ctx)
    for m in ctx.prog.modules.values():
        for f in m.functions.values():
            W.get(f)
        for c in m.classes.values():
            for f in c.methods.values():
                W.get(f)
            for f in c.setters.values():
                W.get(f)
    n = W.run()
    ctx.count("summaries", len(W.sum))
    ctx.count("rounds", n)
    ctx.count("stores", sum(1 for s in W.sum.values() for (p, k) in s.stores))
    ctx.count("things_not_plain", len({q[0] for s in W.sum.values() for v in (s.ret, *s.stores.values()) for _, q in v if q[0][0] == "#"}))
    best = {}
    for (what, p, s), (f, line) in W.kept.items():
        kind, where, made = what[1:].split("|")
        k = (where, kind, made)
        r = (f.where != where, f.module.rel != where.split(":")[0], p[0] != "self", len(p), p, f.where)
        if k not in best or r < best[k][0]:
            best[k] = (r, p, s, f, line)
    for (where, kind, made), (_, p, s, f, line) in sorted(best.items()):
        at = p[0] + "".join(x if x[0] == "[" else "." + x for x in p[1:] + s)
        by = "" if f.where == where else f" by {f.where.split(':')[-1]}"
        ctx.find("kept", f"{where}:{at}:{kind}".replace(" ", "-"), f"{where.split(':')[0]}:{made}",
                 f"{kind} made in {where.split(':')[-1]} is stored as {at}{by} ({f.module.rel}:{line}), which cannot be saved or sent to a worker process then")
    for what, (f, line) in sorted(W.sent.items()):
        kind, where, made = what[1:].split("|")
        ctx.find("sent", f"{f.where}:{kind}".replace(" ", "-"), f"{f.module.rel}:{line}", f"{kind} is handed to worker processes, which cannot receive it")


def protocol(ctx):
    """Classes that say themselves how they are taken apart."""
    W = Plain(ctx)
    for m in ctx.prog.modules.values():
        for c in m.classes.values():
            if not any(k in c.mro for k in W.covered):
                continue
            ctx.count("classes")
            g = c.methods.get("__getattr__")
            if g is not None:
                a = g.node.args.args
                name = a[1].arg if len(a) > 1 else None
                reads = [x for x in ast.walk(g.node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == a[0].arg and x.attr != "__dict__" and not x.attr.startswith("__")]
                tests = [x for x in ast.walk(g.node) if isinstance(x, (ast.If, ast.IfExp, ast.Compare)) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x))]
                known = [x for x in reads if c.lookup(x.attr) is None and not any(x.attr in k.attrs for k in c.mro if isinstance(k, Class) and hasattr(k, "attrs"))]
                if known and not tests:
                    ctx.find("getattr", f"{g.where}", g.where, f"__getattr__ reads self.{known[0].attr}, which an object being restored does not have yet: it calls itself without end")
                elif reads:
                    ctx.undec(f"{g.where}: __getattr__ while an object is being restored")
            st = c.methods.get("__getstate__")
            if st is not None:
                drops = dropped(st.node)
                back = c.lookup("__setstate__")
                put = {x.attr for x in ast.walk(back.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} if isinstance(back, Func) else set()
                for k in sorted(drops):
                    if k not in put and not (isinstance(back, Func) and any(isinstance(x, ast.Constant) and x.value == k for x in ast.walk(back.node))):
                        ctx.find("getstate", f"{st.where}:{k}", st.where, f"__getstate__ leaves {k} out and nothing puts it back when the object is restored")
                if not drops:
                    ctx.undec(f"{st.where}: what __getstate__ returns")
            for n in ("__reduce__", "__reduce_ex__", "__getnewargs__", "__copy__", "__deepcopy__"):
                if n in c.methods:
                    ctx.undec(f"{c.methods[n].where}: {n}")


def dropped(node):
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "pop" and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
            out.add(x.args[0].value)
        elif isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                    out.add(t.slice.value)
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.NotEq, ast.NotIn)):
            for y in ast.walk(x.comparators[0]):
                if isinstance(y, ast.Constant) and isinstance(y.value, str):
                    out.add(y.value)
    return out


# ---------------------------------------------------------------- the files
ARGS = (None, "m", "m.pkl", "m.pk", ".pkl", "dir/x.y", "a.pkl.gz", "MODEL.PKL", "", "pkl", "x.pickle", "dir.pkl/m")


def files(ctx):
    m = ctx.prog.modules.get("mealpy.utils.io")
    fs = {n: m.functions.get(n) for n in ("save_model", "load_model")} if m else {}
    if not all(fs.values()):
        ctx.undec("save_model and load_model are not in mealpy.utils.io")
        return
    F = Fw(ctx.prog)
    seen = {}
    for n, f in fs.items():
        names = [a.arg for a in f.node.args.args]
        path = names[-1]
        rows = []
        for p in paths(ctx, F.core(), f, [S(x) for x in names]):
            if p.kind != "return":
                if p.kind == "raise":
                    rows.append((p.conds, None, ()))
                else:
                    ctx.undec(f"{f.where}: a path ends in {p.kind}")
                continue
            opened = {}
            calls = [e for e in flat(p.eff) if e[0] == "call"]
            for e in calls:
                if e[1] in ("builtins.open", "open", "io.open") and e[2]:
                    opened[e[3]] = e
            want = "pickle.dump" if n == "save_model" else "pickle.load"
            work = [e for e in calls if e[1] == want]
            if not work:
                ctx.undec(f"{f.where}: no {want} on a path")
                continue
            e = work[-1]
            h = e[2][1] if n == "save_model" and len(e[2]) > 1 else e[2][0] if n == "load_model" and e[2] else None
            o = opened.get(through(h))
            if o is None:
                ctx.undec(f"{f.where}: the file given to {want}")
                continue
            mode = [x[2] for x in o[2][1:] if isinstance(x, tuple) and x[0] == "k" and isinstance(x[2], str)] or [x[1][2] for x in o[2] if isinstance(x, tuple) and x[0] == "kw" and x[1][0] == "k"]
            ctx.count("obligations")
            good = "wb" if n == "save_model" else "rb"
            if mode and (good[0] not in mode[0] or "b" not in mode[0]):
                ctx.find("mode", f"{f.where}:{mode[0]}", f.where, f"{n} opens the file with mode '{mode[0]}'")
            if n == "save_model" and e[2][0] != S(names[0]):
                ctx.undec(f"{f.where}: what is saved is {show(e[2][0])[:80]}")
            if n == "load_model" and p.val != e[3]:
                ctx.undec(f"{f.where}: what is returned is {show(p.val)[:80]}")
            rows.append((p.conds, o[2][0], tuple((e[3], e) for e in calls if len(e) > 3)))
        seen[n] = (f, path, rows)
    if len(seen) < 2:
        return
    (sf, sp, srows), (lf, lp, lrows) = seen["save_model"], seen["load_model"]
    for a in ARGS:
        ctx.count("arguments")
        x, y = opens(srows, sp, a), opens(lrows, lp, a)
        if x is Ellipsis or y is Ellipsis:
            same = {ren(r, sp) for r in srows} == {ren(r, lp) for r in lrows}
            if not same:
                ctx.undec(f"{sf.where}: the file used for path {a!r}")
        elif x != y:
            ctx.find("files", f"save/load:{a!r}", sf.where, f"given the path {a!r}, save_model writes {x!r} but load_model reads {y!r}")


def flat(eff):
    for e in eff:
        if e and e[0] in ("loop", "each") and len(e) > 2 and isinstance(e[-1], (tuple, list)):
            yield from flat(e[-1])
        else:
            yield e


def through(h):
    while isinstance(h, tuple) and h and h[0] in ("enter", "with"):
        h = h[1]
    return h


def ren(x, name):
    if isinstance(x, (tuple, list)):
        if x == ("s", name):
            return ("s", "path")
        return tuple(ren(y, name) for y in x)
    return x


class Cannot(Exception):
    pass


def opens(rows, name, a):
    """The file the function opens when called with the path a (None: it rejects it)."""
    for conds, o, env in rows:
        try:
            if all(bool(val(c, name, a, env)) is want for c, want in conds):
                return ("rejected",) if o is None else val(o, name, a, env)
        except Cannot:
            return Ellipsis
        except (IndexError, TypeError, AttributeError, ValueError):
            return ("rejected",)
    return Ellipsis


def val(t, name, a, env=()):
    """The value of a term over one text argument."""
    if not isinstance(t, tuple) or not t:
        raise Cannot
    h = t[0]
    if h == "s" and t[1] == name:
        return a
    if h == "k":
        return t[2]
    if h == "bv":
        return dict(env)[t]
    if h == "fmt":
        return "".join(str(val(x, name, a, env)) for x in t[1:])
    if h == "len":
        return len(val(t[1], name, a, env))
    if h == "not":
        return not val(t[1], name, a, env)
    if h == "lin":
        return t[1] + sum(c * val(x, name, a, env) for x, c in t[2])
    if h == "cmp":
        x, y = val(t[2], name, a, env), val(t[3], name, a, env)
        op = {"is": lambda: x is y, "is not": lambda: x is not y, "==": lambda: x == y, "!=": lambda: x != y, "in": lambda: x in y, "not in": lambda: x not in y,
              "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}.get(t[1])
        if op is None:
            raise Cannot
        return op()
    if h == "map" and isinstance(t[2], tuple) and t[2][0] == "at":
        # a slice of the text: its length and its first position
        n, s, i = val(t[1], name, a, env), val(t[2][1], name, a, env), t[2][2]
        if t[2][1] != ("s", name) or not isinstance(i, tuple) or i[0] != "lin":
            raise Cannot
        b = i[1] + sum(c * val(x, name, a, env) for x, c in i[2] if x[0] != "bv")
        b = max(b, 0)
        return s[b:b + n]
    if h == "at":
        s, i = val(t[1], name, a, env), val(t[2], name, a, env)
        return s[i]
    if h == "app":
        return library(t[1], [val(x, name, a, env) for x in t[2:]])
    if h == "res":
        e = dict(env).get(t)
        if e is None:
            raise Cannot
        return library(e[1], [val(x, name, a, env) for x in e[2]])
    if h in ("and", "or"):
        vs = [bool(val(x, name, a, env)) for x in t[1:]]
        return all(vs) if h == "and" else any(vs)
    if h == "tuple":
        return tuple(val(x, name, a, env) for x in t[1:])
    raise Cannot


def library(f, args):
    f = f.split(".")[-1]
    if f in ("endswith", "startswith", "lower", "upper", "strip", "rstrip", "lstrip", "replace", "removesuffix", "casefold") and args and isinstance(args[0], str):
        return getattr(args[0], f)(*args[1:])
    if f in ("rsplit", "split", "rpartition", "partition") and args and isinstance(args[0], str):
        return tuple(getattr(args[0], f)(*args[1:]))
    if f in ("str", "fspath") and len(args) == 1 and isinstance(args[0], str):
        return args[0]
    if f == "bool" and len(args) == 1:
        return bool(args[0])
    if f == "splitext" and args:
        b = args[0].rfind("/") + 1
        stem = args[0][b:].lstrip(".")
        i = args[0].rfind(".")
        return (args[0][:i], args[0][i:]) if "." in stem else (args[0], "")
    if f == "basename" and args:
        return args[0][args[0].rfind("/") + 1:]
    raise Cannot
