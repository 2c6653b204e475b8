"""Program model of the analysed package: modules, imports, classes, MRO, methods.

Everything is read from the source text under $MSTAT_REPO (default /repo) on every run;
nothing of the package is imported or executed.
"""
from __future__ import annotations
import ast
import os

from .normal import normalise

REPO = os.environ.get("MSTAT_REPO", "/repo")
PKG = "mealpy"


class AnalysisError(Exception):
    """The code no longer has a shape the analysis can anchor on."""


class Func:
    __slots__ = ("name", "node", "module", "cls", "kind", "qual")

    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.kind = "method" if cls is not None else "function"
        for d in node.decorator_list:
            dn = ast.unparse(d)
            if dn == "staticmethod":
                self.kind = "static"
            elif dn == "classmethod":
                self.kind = "classmethod"
            elif dn in ("property", "cached_property", "functools.cached_property"):
                self.kind = "property"
            elif dn.endswith(".setter"):
                self.kind = "setter"
        self.qual = f"{module.name}.{cls.name + '.' if cls else ''}{name}"

    @property
    def where(self):
        return f"{self.module.rel}:{self.cls.name + '.' if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.base_exprs = node.bases
        self.bases = []          # Class or str (external)
        self.mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, st, module, self)
                if f.kind == "setter":
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        return f"{self.module.name.rsplit('.', 1)[-1]}.{self.name}"

    def __repr__(self):
        return f"<Class {self.qual}>"

    def lookup(self, name):
        """Method definition seen by instances of this class."""
        for c in self.mro:
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def lookup_after(self, after, name):
        """super(after, self).name"""
        seen = False
        for c in self.mro:
            if seen and isinstance(c, Class) and name in c.methods:
                return c.methods[name]
            if c is after:
                seen = True
        return None

    def lookup_setter(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.setters:
                return c.setters[name]
        return None

    def class_attr(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro

    def mangled(self, name):
        return f"_{self.name.lstrip('_')}{name}" if name.startswith("__") and not name.endswith("__") else name


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.rel = os.path.relpath(path, REPO)
        self.tree = normalise(ast.parse(src, filename=path))
        self.is_pkg = path.endswith("__init__.py")
        self.imports, self.functions, self.classes, self.globals = {}, {}, {}, {}
        self.star = []
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._parent = n
        self._scan(self.tree.body)

    def _pkg(self):
        return self.name if self.is_pkg else self.name.rsplit(".", 1)[0]

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self._pkg().split(".")
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == "*":
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = f"{base}.{a.name}"
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(st.name, st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.globals[x.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                self._scan(st.orelse)
                if isinstance(st, ast.Try):
                    for h in st.handlers:
                        self._scan(h.body)
                    self._scan(st.finalbody)


def _c3(cls, bases_of, stack=()):
    if cls in stack:
        raise AnalysisError(f"inheritance cycle at {cls}")
    if isinstance(cls, str):
        return [cls]
    bases = bases_of(cls)
    seqs = [_c3(b, bases_of, stack + (cls,)) for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError(f"no MRO for {cls}")
        out.append(h)
        for s in seqs:
            if s[0] is h or s[0] == h:
                del s[0]


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"{root} not found")
        for d, dn, fn in os.walk(root):
            dn.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        self.modules[rel] = Module(rel, p, src)
                    except SyntaxError as e:
                        raise AnalysisError(f"syntax error in {p}: {e}")
        for m in list(self.modules.values()):
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.base_exprs]
        for m in self.modules.values():
            for c in m.classes.values():
                c.mro = _c3(c, lambda k: k.bases)

    # ---- names
    def _base(self, m, expr):
        r = self.resolve_expr(m, expr)
        return r if isinstance(r, Class) else ast.unparse(expr)

    def resolve_qual(self, q, depth=0):
        """Fully qualified dotted name -> Module/Class/Func/('global',mod,name)/str external."""
        if depth > 12:
            return q
        if q in self.modules:
            return self.modules[q]
        if "." not in q:
            return q
        base, name = q.rsplit(".", 1)
        b = self.resolve_qual(base, depth + 1)
        if isinstance(b, Module):
            return self.resolve_name(b, name, depth + 1) or q
        if isinstance(b, Class):
            return b.lookup(name) or q
        return q

    def resolve_name(self, m, name, depth=0):
        if name in m.classes:
            return m.classes[name]
        if name in m.functions:
            return m.functions[name]
        if name in m.imports:
            return self.resolve_qual(m.imports[name], depth + 1)
        if name in m.globals:
            return ("global", m, name)
        for s in m.star:
            b = self.resolve_qual(s, depth + 1)
            if isinstance(b, Module):
                r = self.resolve_name(b, name, depth + 1)
                if r is not None:
                    return r
        sub = f"{m.name}.{name}"
        if m.is_pkg and sub in self.modules:
            return self.modules[sub]
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_name(b, e.attr)
            if isinstance(b, Class):
                return b.lookup(e.attr)
            if isinstance(b, str):
                return f"{b}.{e.attr}"
        return None

    # ---- anchors
    def cls(self, qual):
        r = self.resolve_qual(qual)
        if not isinstance(r, Class):
            raise AnalysisError(f"class {qual} not found")
        return r

    @property
    def Optimizer(self):
        return self.cls("mealpy.optimizer.Optimizer")

    def optimizers(self):
        base = self.Optimizer
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not base and base in c.mro:
                    out.append(c)
        if len(out) < 150:
            raise AnalysisError(f"only {len(out)} optimizer classes found")
        return out

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()
