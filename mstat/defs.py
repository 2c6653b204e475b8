"""Names: scopes, definite assignment along every path of a function, and argument binding against known signatures."""
from __future__ import annotations
import ast
import json
import os

BUILTIN_EXTRA = {"__name__", "__file__", "__doc__", "__builtins__", "__spec__", "__package__", "__class__", "WindowsError", "__path__"}
SIGS = None
LIMIT = 48


def sigs():
    global SIGS
    if SIGS is None:
        with open(os.path.join(os.path.dirname(__file__), "data", "sigs.json")) as f:
            SIGS = json.load(f)
    return SIGS


# ------------------------------------------------------------------ scopes
def args_of(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def targets(node):
    """Names a statement or expression node itself binds in its scope."""
    if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
        return [node.id]
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [node.name]
    if isinstance(node, ast.Import):
        return [a.asname or a.name.split(".")[0] for a in node.names]
    if isinstance(node, ast.ImportFrom):
        return [a.asname or a.name for a in node.names if a.name != "*"]
    if isinstance(node, ast.ExceptHandler) and node.name:
        return [node.name]
    if isinstance(node, (ast.MatchAs, ast.MatchStar)) and node.name:
        return [node.name]
    if isinstance(node, ast.MatchMapping) and node.rest:
        return [node.rest]
    return []


def own_nodes(node, skip_comp_targets=True):
    """Nodes of a scope, without those of nested function scopes; comprehension targets are their own scope."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack += n.decorator_list + [d for d in n.args.defaults + n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.Lambda):
            stack += [d for d in n.args.defaults + n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.ClassDef):
            stack += n.decorator_list + n.bases + [k.value for k in n.keywords]
        else:
            stack += list(ast.iter_child_nodes(n))


def comp_names(comp):
    return {x.id for g in comp.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}


def locals_of(node):
    if isinstance(node, ast.Lambda):
        return set(args_of(node))
    out = set(args_of(node))
    glob = set()
    inner = set()
    for n in own_nodes(node):
        if isinstance(n, COMPS):
            for g in n.generators:
                for x in ast.walk(g.target):
                    inner.add(id(x))
    for n in own_nodes(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif id(n) not in inner:
            out |= set(targets(n))
    return out - glob


# ------------------------------------------------------------------ definite assignment
def key(t):
    """(canonical text, polarity) of a condition, or None when it may change between evaluations."""
    for n in ast.walk(t):
        if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return None
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "type", "callable", "issubclass", "hasattr", "int", "abs")):
            return None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        k = key(t.operand)
        return None if k is None else (k[0], not k[1])
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b, op = ast.unparse(t.left), ast.unparse(t.comparators[0]), t.ops[0]
        tab = {ast.Lt: ("<", a, b, True), ast.GtE: ("<", a, b, False), ast.Gt: ("<", b, a, True), ast.LtE: ("<", b, a, False),
               ast.Eq: ("==", min(a, b), max(a, b), True), ast.NotEq: ("==", min(a, b), max(a, b), False),
               ast.Is: ("is", a, b, True), ast.IsNot: ("is", a, b, False), ast.In: ("in", a, b, True), ast.NotIn: ("in", a, b, False)}
        o, x, y, pol = tab[type(op)]
        return f"{x} {o} {y}", pol
    return ast.unparse(t), True


def facts_of(t, val):
    """Facts that hold when test t evaluates to val."""
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == val:
            return [f for v in t.values for f in facts_of(v, val)]
        k = key(t)
        return [(k[0], k[1] == val)] if k else []
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return facts_of(t.operand, not val)
    k = key(t)
    return [(k[0], k[1] == val)] if k else []


def truth(t, facts):
    """True / False / None of a test under the facts of a path."""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.BoolOp):
        vs = [truth(v, facts) for v in t.values]
        if isinstance(t.op, ast.And):
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
        else:
            if True in vs:
                return True
            if all(v is False for v in vs):
                return False
        k = key(t)
        return {**dict(facts)}.get(k[0]) if k else None
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = truth(t.operand, facts)
        return None if r is None else not r
    k = key(t)
    if k is None:
        return None
    f = dict(facts)
    if k[0] in f:
        return f[k[0]] == k[1]
    # x == a known, asked x == b
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant):
        a = ast.unparse(t.left)
        for g, v in facts:
            if v and g.count(" == ") == 1:
                p, q = g.split(" == ")
                other = q if p == a else p if q == a else None
                if other is not None:
                    try:
                        o = ast.literal_eval(other)
                    except Exception:
                        continue
                    if o != t.comparators[0].value:
                        return isinstance(t.ops[0], ast.NotEq)
    return None


class Flow:
    """Forward analysis of one function: which locals are certainly assigned on each (condition-sensitive) path."""

    def __init__(self, func, on_read):
        self.f, self.on_read = func, on_read
        self.locals = locals_of(func)
        self.lossy = False
        self.stack = []

    def run(self):
        self.exits = []
        S = [(frozenset(), frozenset(args_of(self.f)))]
        return self.block(S, self.f.body)

    # states: list of (facts, assigned)
    def merge(self, A, B=()):
        out = {}
        for fa, as_ in list(A) + list(B):
            out[(fa, as_)] = 1
        S = list(out)
        # same facts: keep the weaker assignment sets only
        by = {}
        for fa, as_ in S:
            by.setdefault(fa, []).append(as_)
        S = []
        for fa, l in by.items():
            S += [(fa, a) for a in l if not any(b < a for b in l)]
        # complementary facts with equal sets collapse
        done = False
        while not done:
            done = True
            seen = set(S)
            for fa, a in S:
                for g, v in fa:
                    o = (fa - {(g, v)} | {(g, not v)}, a)
                    if o in seen:
                        S = [x for x in S if x not in ((fa, a), o)] + [(fa - {(g, v)}, a)]
                        done = False
                        break
                if not done:
                    break
        if len(S) > LIMIT:
            self.lossy = True
            by = {}
            for fa, a in S:
                by[a] = by[a] & fa if a in by else fa
            S = [(f, a) for a, f in by.items()]
            if len(S) > LIMIT:
                a = frozenset.intersection(*[x for _, x in S])
                S = [(frozenset(), a)]
        return S

    def kill(self, S, names):
        names = set(names)
        if not names:
            return S
        import re

        def keep(g):
            return not (set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", g)) & names)
        return self.merge([(frozenset(f for f in fa if keep(f[0])), a) for fa, a in S])

    def bind(self, S, names):
        S = self.kill(S, names)
        return [(fa, a | set(names)) for fa, a in S]

    def given(self, S, t, val):
        out = []
        for fa, a in S:
            r = truth(t, fa)
            if r is not None and r != val:
                continue
            new = set(facts_of(t, val))
            bad = any((g, not v) in fa for g, v in new)
            if bad:
                continue
            out.append((fa | new, a))
        return self.merge(out)

    def reads(self, S, e, inner=frozenset()):
        """Reads of an expression in order; comprehension variables are bound inside."""
        if e is None or S is None:
            return S
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                S = self.reads(S, d, inner)
            return S
        if isinstance(e, COMPS):
            names = inner
            for i, g in enumerate(e.generators):
                S = self.reads(S, g.iter, names)
                names = names | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.reads(S, c, names)
            T = S
            for g in e.generators:
                for c in g.ifs:
                    T = self.given(T, c, True)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.reads(T, x, names)
            return S
        if isinstance(e, ast.BoolOp):
            T = S
            for v in e.values:
                T = self.reads(T, v, inner)
                T = self.given(T, v, isinstance(e.op, ast.And))
            return S
        if isinstance(e, ast.IfExp):
            S = self.reads(S, e.test, inner)
            self.reads(self.given(S, e.test, True), e.body, inner)
            self.reads(self.given(S, e.test, False), e.orelse, inner)
            return S
        if isinstance(e, ast.NamedExpr):
            S = self.reads(S, e.value, inner)
            return self.bind(S, [e.target.id])
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in inner:
                for fa, a in S:
                    if e.id not in a:
                        self.on_read(e, fa)
                        return [(f, b | {e.id}) for f, b in S]
            return S
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.FormattedValue)):
                S = self.reads(S, c.value if isinstance(c, ast.keyword) else c, inner)
        return S

    def stores(self, S, t):
        """Assignment to a target."""
        if isinstance(t, ast.Name):
            return self.bind(S, [t.id])
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                S = self.stores(S, x)
            return S
        if isinstance(t, ast.Starred):
            return self.stores(S, t.value)
        if isinstance(t, ast.Attribute):
            S = self.reads(S, t.value)
            return self.kill(S, [t.attr])
        if isinstance(t, ast.Subscript):
            S = self.reads(S, t.value)
            S = self.reads(S, t.slice)
            b = t.value
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            return self.kill(S, [b.id] if isinstance(b, ast.Name) and b.id != "self" else [])
        return S

    def block(self, S, stmts):
        for st in stmts:
            if not S:
                return []
            S = self.stmt(S, st)
        return S

    def stmt(self, S, st):
        if isinstance(st, (ast.Expr,)):
            return self.reads(S, st.value)
        if isinstance(st, ast.Assign):
            S = self.reads(S, st.value)
            for t in st.targets:
                S = self.stores(S, t)
            return S
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                S = self.reads(S, ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target))
            S = self.reads(S, st.value)
            return self.stores(S, st.target)
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return S
            S = self.reads(S, st.value)
            return self.stores(S, st.target)
        if isinstance(st, (ast.Return,)):
            S = self.reads(S, st.value)
            return []
        if isinstance(st, ast.Raise):
            S = self.reads(S, st.exc)
            S = self.reads(S, st.cause)
            return []
        if isinstance(st, ast.Assert):
            S = self.reads(S, st.test)
            return self.given(S, st.test, True)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list + st.args.defaults + [x for x in st.args.kw_defaults if x]:
                S = self.reads(S, d)
            return self.bind(S, [st.name])
        if isinstance(st, ast.ClassDef):
            return self.bind(S, [st.name])
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return self.bind(S, targets(st))
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    S = self.reads(S, ast.copy_location(ast.Name(t.id, ast.Load()), t))
                    S = [(fa, a - {t.id}) for fa, a in S]
                else:
                    S = self.reads(S, t.value if isinstance(t, (ast.Attribute, ast.Subscript)) else t)
            return S
        if isinstance(st, ast.If):
            S = self.reads(S, st.test)
            return self.merge(self.block(self.given(S, st.test, True), st.body), self.block(self.given(S, st.test, False), st.orelse))
        if isinstance(st, ast.Break):
            self.stack[-1]["break"] += S
            return []
        if isinstance(st, ast.Continue):
            self.stack[-1]["continue"] += S
            return []
        if isinstance(st, (ast.For, ast.AsyncFor)):
            S = self.reads(S, st.iter)
            changed = {n for x in st.body for y in ast.walk(x) for n in targets(y)} | \
                      {y.attr for x in st.body for y in ast.walk(x) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
            S0 = self.kill(S, changed | {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)})
            fr = {"break": [], "continue": []}
            self.stack.append(fr)
            B = self.stores(S0, st.target)
            B = self.block(B, st.body)
            self.stack.pop()
            # the loop is taken to run at least once: whether its collection is empty is a run-time quantity
            out = self.kill(self.merge(B, fr["continue"]), changed)
            if st.orelse:
                out = self.block(out, st.orelse)
            return self.merge(out, fr["break"])
        if isinstance(st, ast.While):
            changed = {n for x in st.body for y in ast.walk(x) for n in targets(y)} | \
                      {y.attr for x in st.body for y in ast.walk(x) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store)}
            once = self.reads(S, st.test)
            S0 = self.kill(once, changed)
            fr = {"break": [], "continue": []}
            self.stack.append(fr)
            B = self.block(self.given(S0, st.test, True), st.body)
            self.stack.pop()
            forever = isinstance(st.test, ast.Constant) and bool(st.test.value)
            back = self.kill(self.merge(B, fr["continue"]), changed)
            out = [] if forever else self.merge(self.given(once, st.test, False), self.given(back, st.test, False))
            if st.orelse:
                out = self.block(out, st.orelse)
            return self.merge(out, fr["break"])
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                S = self.reads(S, i.context_expr)
                if i.optional_vars is not None:
                    S = self.stores(S, i.optional_vars)
            return self.block(S, st.body)
        if isinstance(st, ast.Try):
            changed = {n for x in st.body for y in ast.walk(x) for n in targets(y)}
            B = self.block(S, st.body)
            E = self.block(B, st.orelse) if st.orelse else B
            H = []
            for h in st.handlers:
                T = self.reads(self.kill(S, changed), h.type)
                T = self.bind(T, [h.name]) if h.name else T
                H = self.merge(H, self.block(T, h.body))
            out = self.merge(E, H)
            if st.finalbody:
                self.block(self.kill(S, changed), st.finalbody)
                out = self.block(out, st.finalbody)
            return out
        if isinstance(st, ast.Match):
            S = self.reads(S, st.subject)
            out, rest = [], S
            wild = False
            for c in st.cases:
                names = {n for x in ast.walk(c.pattern) for n in targets(x)}
                T = self.bind(S, names) if names else S
                T = self.reads(T, c.guard)
                out = self.merge(out, self.block(T, c.body))
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    wild = True
            return out if wild else self.merge(out, rest)
        return S


# ------------------------------------------------------------------ argument binding
def misfit(sig, n_pos, kws, star=False, dstar=False):
    """Why a call does not fit a recorded signature; None when it does."""
    pos, need, ponly, kwo, needk, var, vkw = sig
    if not var and n_pos > len(pos) and not star:
        return f"takes at most {len(pos)} positional arguments, {n_pos} given"
    if n_pos > len(pos) and not var:
        return f"takes at most {len(pos)} positional arguments, {n_pos} or more given"
    given = set(pos[:n_pos])
    for k in kws:
        if k in given and k in pos[ponly:]:
            return f"gets two values for '{k}'"
        if k not in pos[ponly:] and k not in kwo and not vkw:
            return f"has no parameter '{k}'"
    if star or dstar:
        return None
    miss = [p for p in pos[:need] if p not in given and (p not in kws or p in pos[:ponly])]
    miss += [k for k in needk if k not in kws]
    if miss:
        return f"misses the argument(s) {', '.join(miss)}"
    return None


def sig_of(node, drop=0):
    """Signature record of a function definition."""
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = len(pos) - len(a.defaults)
    return [pos[drop:], max(0, need - drop), max(0, len(a.posonlyargs) - drop), [x.arg for x in a.kwonlyargs],
            [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None], a.vararg is not None, a.kwarg is not None]
