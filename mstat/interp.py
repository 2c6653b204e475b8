"""E2: abstract interpretation of one optimiser's whole run.

A flow-, context- and (for mode/direction/flags) path-sensitive abstract interpreter over the syntax
tree.  For a concrete class, an execution mode and a direction it follows the lifecycle
    __init__ -> (environment set up by solve) -> initialize_variables -> initialization
    -> after_initialization -> before_main_loop -> evolve*            (fixpoint over epochs)
with every method resolved through the class's MRO and inlined.  Values are sets of atoms

    ('c',type,v) constant        ('n',vn,fit) scalar          ('v',sid) array storage
    ('a',aid) candidate          ('l',lid) list               ('t',of) objective value of vn `of`
    ('tu',(V..)) tuple           ('d',did) dict               ('top',) unknown
    ('s',name) special object    ('f',Func,recv) bound fn     ('k',Class) class  ('m',dotted) external

`vn` are value numbers: two arrays with one vn hold the same numbers.  Array storages carry
(vn, cor, shared): cor = YES when the numbers are the unmodified output of the problem's correction or
generation, NO when they come from arithmetic / in-place stores, UNK when unknown; shared = the storage may
be held by a member of the population or the records of an earlier epoch.
"""
from __future__ import annotations
import ast
import itertools
from .program import Class, Func, Module, Program

YES, NO, UNK = "yes", "no", "unk"
TOP = frozenset([("top",)])
NONE = frozenset([("c", "NoneType", None)])
TRUE = frozenset([("c", "bool", True)])
FALSE = frozenset([("c", "bool", False)])
MAXSET = 40
MAXDEPTH = 14


def const(v):
    return frozenset([("c", type(v).__name__, v)])


def join_cor(a, b):
    if a == b:
        return a
    if NO in (a, b):
        return NO
    return UNK


class Sto:
    __slots__ = ("vn", "cor", "shared", "fit", "why", "alts", "rows")

    def __init__(self, vn, cor, shared=False, fit=False, why="", alts=(), rows=None):
        self.vn, self.cor, self.shared, self.fit, self.why, self.alts, self.rows = vn, cor, shared, fit, why, frozenset(alts), rows

    def w(self, **kw):
        s = Sto(self.vn, self.cor, self.shared, self.fit, self.why, self.alts, self.rows)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def same(self, o):
        return (self.vn, self.cor, self.shared, self.fit, self.alts) == (o.vn, o.cor, o.shared, o.fit, o.alts)


class Ag:
    # mat: read out of a list and not written since (stands for an element the list already describes)
    __slots__ = ("fields", "site", "rec", "mat")

    def __init__(self, fields, site="", rec=False, mat=False):
        self.fields, self.site, self.rec, self.mat = fields, site, rec, mat

    def w(self, name, val, site=None):
        f = dict(self.fields)
        f[name] = val
        return Ag(f, site if site is not None else self.site, self.rec)


class Li:
    # al: lists that hold the same objects at the same positions (shallow copies) -> loops that may have
    # replaced positions up to (and including) the current one
    # last: values known to be the last elements (newest last); ln: length as ("c", 0), ("it", iv) -- equal to the
    # iteration number of the loop with induction value iv -- or ("+", iv) -- one more than that --, else None
    __slots__ = ("elems", "last", "focus", "split", "kind", "al", "ln")

    def __init__(self, elems=frozenset(), last=None, focus=None, split=None, kind="list", al=None, ln=None):
        self.elems, self.last, self.focus, self.split, self.kind, self.al = elems, last, focus or {}, split or {}, kind, al or {}
        self.ln = ln

    def w(self, **kw):
        s = Li(self.elems, self.last, self.focus, self.split, self.kind, self.al, self.ln)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def all(self):
        r = self.elems
        for v in self.focus.values():
            r = r | v
        return r


class State:
    __slots__ = ("env", "sa", "sto", "ag", "li", "di", "df")     # df: attributes certainly set in this run

    def __init__(self):
        self.env, self.sa, self.sto, self.ag, self.li, self.di = {}, {}, {}, {}, {}, {}
        self.df = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.env, s.sa, s.sto, s.ag, s.li, s.di = (self.env.copy(), self.sa.copy(), self.sto.copy(),
                                                self.ag.copy(), self.li.copy(), self.di.copy())
        s.df = self.df
        return s


class Event:
    __slots__ = ("rule", "where", "what", "detail", "cls", "mode", "minmax", "phase", "extra", "caller")

    def __init__(self, **kw):
        self.extra = self.caller = None
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        return (self.rule, self.where, self.what, self.caller)

    def __repr__(self):
        return f"{self.rule} {self.cls} [{self.mode}/{self.minmax}/{self.phase}] {self.where}: {self.what} -- {self.detail}"


class Outcome:
    """Result of executing a block: normal state (or None) and abrupt exits."""
    __slots__ = ("state", "brk", "cont", "ret")

    def __init__(self, state=None):
        self.state, self.brk, self.cont, self.ret = state, [], [], []


SNIP = {}


def snip(node, n=110):
    k = id(node)
    r = SNIP.get(k)
    if r is None:
        try:
            t = ast.unparse(node)
        except Exception:
            t = type(node).__name__
        t = " ".join(t.split("\n")[0].split())
        r = SNIP[k] = (t[:n], node)
    return r[0]


RAISES = object()


class Interp:
    def __init__(self, prog: Program, cls: Class, mode="single", minmax="min", passes=3, epochs=2, given=False):
        self.p, self.cls, self.mode, self.minmax = prog, cls, mode, minmax
        self.passes, self.epochs, self.given = passes, epochs, given
        self.ids = itertools.count(1)
        self.events = {}
        self.stats = {"stmts": 0, "calls": 0, "unknown_calls": 0, "sinks": 0, "sinks_unk": 0, "stores": 0, "agents_checked": 0,
                      "agents_unknown": 0, "cmps": 0, "evals": 0, "prims": 0}
        self.frames = []
        self.phase = "init"
        self.base = prog.Optimizer
        self.sinkset = {}
        self.decided = set()
        self.covmap = {}
        self.selfwrites = {}
        self.cmps = {}
        self.attr_reads = {}
        self.attrs_missing = {}
        self.cur = None
        self.unknown = {}
        self.evaluated = {}
        self.stack_funcs = []
        self.carry = {}             # heap object held since before the run -> attributes holding it
        self.run_reads, self.run_writes = {}, {}
        self.ctor = set()

    # ------------------------------------------------------------------ state carried from one run to the next
    def note_read(self, S, attr, e, probe=False):
        """A read that may see the value an earlier run left.  An attribute that neither the constructor nor the class provides cannot be
        read before it is set in a first run either, so only probes (hasattr, getattr) of such an attribute count."""
        if self.phase != "init" and attr not in S.df and (probe or attr in self.ctor or attr.startswith("problem.")):
            self.run_reads.setdefault(attr, (self.caller() or self.where(), snip(e)))

    def note_write(self, S, attr, e):
        if self.phase != "init":
            self.run_writes.setdefault(attr, (self.caller() or self.where(), snip(e)))

    def note_mut(self, S, atom, e):
        """In-place modification of a heap object."""
        if self.phase == "init":
            return
        for attr in self.carry.get(atom, ()):
            self.note_read(S, attr, e)
            self.run_writes.setdefault(attr, (self.caller() or self.where(), snip(e)))

    def note_syntactic(self, S, t, e):
        """An element or method of self.x is modified while self.x may be what an earlier run left."""
        if self.phase == "init":
            return
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                S.env.get(t.value.id) == frozenset([("s", "self")]) and t.attr not in S.df and t.attr not in FRAMEWORK:
            self.note_read(S, t.attr, e, probe=t.attr not in S.sa and self.cls.class_attr(t.attr)[0] is not None)
            self.note_write(S, t.attr, e)

    def start_carry(self, S):
        """Everything reachable from attributes the run did not set."""
        self.carry = {("v", "Plb"): {"problem.lb"}, ("v", "Pub"): {"problem.ub"}}
        for attr, V in S.sa.items():
            if attr in S.df or not V:
                continue
            work, seen = [V], set()
            while work:
                for a in work.pop() or ():
                    if a in seen:
                        continue
                    seen.add(a)
                    if a[0] in ("v", "l", "d", "a"):
                        self.carry.setdefault(a, set()).add(attr)
                    if a[0] == "v" and a[1] in S.sto:
                        work.append([("v", x) for x in S.sto[a[1]].alts])
                    elif a[0] == "l":
                        work.append(S.li[a[1]].all())
                    elif a[0] == "d":
                        work += [v for v in S.di[a[1]].values()]
                    elif a[0] == "a":
                        work += list(S.ag[a[1]].fields.values())
                    elif a[0] == "tu":
                        work += list(a[1])

    # ------------------------------------------------------------------ utils
    def fresh(self, tag="x"):
        return (tag, next(self.ids))

    def new_sto(self, S, cor, why="", vn=None, shared=False, fit=False, alts=(), rows=None):
        sid = next(self.ids)
        S.sto[sid] = Sto(vn if vn is not None else ("s", sid), cor, shared, fit, why, alts, rows)
        return frozenset([("v", sid)])

    def num(self, vn=None, fit=False):
        return frozenset([("n", vn if vn is not None else self.fresh("n"), fit)])

    def new_ag(self, S, fields, site=""):
        aid = next(self.ids)
        S.ag[aid] = Ag(fields, site)
        return frozenset([("a", aid)])

    def new_li(self, S, elems=frozenset(), last=None, kind="list"):
        lid = next(self.ids)
        S.li[lid] = Li(elems, last, kind=kind)
        return frozenset([("l", lid)])

    def where(self):
        f = self.frames[-1]["func"] if self.frames else None
        return f.where if f else self.cls.short

    def caller(self):
        """The algorithm function on whose behalf a framework function runs (None outside framework functions)."""
        if not self.in_base():
            return None
        for fr in reversed(self.frames):
            f = fr["func"]
            if f is not None and f.cls is not self.base:
                return f.where
        return self.cls.short

    def event(self, rule, node, detail="", extra=None, what=None):
        e = Event(rule=rule, where=self.where(), what=what or snip(node), detail=detail, cls=self.cls.short, mode=self.mode,
                  minmax=self.minmax, phase=self.phase, extra=extra, caller=self.caller())
        self.events.setdefault(e.key(), e)

    def note_unknown(self, node, why):
        self.unknown[(self.where(), snip(node, 60))] = why

    def in_base(self):
        f = self.frames[-1]["func"] if self.frames else None
        return f is not None and f.cls is self.base

    # ------------------------------------------------------------------ atoms / vals
    @staticmethod
    def kinds(V):
        return {a[0] for a in V}

    def agents_of(self, V):
        return [a[1] for a in V if a[0] == "a"]

    def lists_of(self, V):
        return [a[1] for a in V if a[0] == "l"]

    def cap(self, V):
        if len(V) > MAXSET:
            return TOP | frozenset(a for a in V if a[0] in ("l",))
        return V

    def vn_of(self, S, V):
        """Value number of a value (None if not a single known value)."""
        if len(V) == 1:
            a = next(iter(V))
            if a[0] == "v":
                s = S.sto.get(a[1])
                return s.vn if s else None
            if a[0] == "n":
                return a[1]
            if a[0] == "c":
                return a
            if a[0] == "t":
                return ("tgt", a[1])
        return None

    def cor_of(self, S, V):
        r = None
        for a in V:
            if a[0] == "v":
                c = S.sto[a[1]].cor
            elif a[0] == "c" and a[2] is None:
                continue
            else:
                c = UNK
            r = c if r is None else join_cor(r, c)
        return r if r is not None else UNK

    def single(self, V, kind):
        if len(V) == 1:
            a = next(iter(V))
            if a[0] == kind:
                return a
        return None

    def truth(self, S, V):
        """True/False/None(unknown)"""
        rs = set()
        for a in V:
            if a[0] == "c":
                rs.add(bool(a[2]))
            elif a[0] in ("a", "t", "s", "f", "k", "m", "v"):
                rs.add(True if a[0] != "v" else None)
            elif a[0] == "tu":
                rs.add(len(a[1]) > 0)
            else:
                rs.add(None)
        if rs == {True}:
            return True
        if rs == {False}:
            return False
        return None

    # ------------------------------------------------------------------ labels
    def label(self, S, aid, prefix=""):
        f = S.ag[aid].fields
        sol, tgt = f.get(prefix + "solution"), f.get(prefix + "target")
        if sol is None:
            return "UNK"
        if tgt is None:
            return "NONE" if not prefix else "UNK"
        ks = {a[0] for a in tgt}
        if any(a[0] == "c" and a[2] is None for a in tgt):
            return "NONE"
        if ks != {"t"}:
            return "UNK"
        if len(tgt) != 1:
            return "UNK"
        of = next(iter(tgt))[1]
        sv = self.single(sol, "v")
        if sv is None:
            return "UNK"
        vn = S.sto[sv[1]].vn
        if of is None:
            return "UNK"
        if _may(vn):
            return "OK" if vn == of else "UNK"
        return "OK" if vn == of else "STALE"

    def content_join(self, S, aids, site="", fresh_copy=True):
        """One agent object summarising several (may be any one of them)."""
        aids = list(aids)
        if not aids:
            return TOP
        if len(aids) == 1 and fresh_copy:
            ag = S.ag[aids[0]]
            return self.new_ag(S, dict(ag.fields), site or ag.site)
        fields = {}
        names = set()
        for a in aids:
            names |= set(S.ag[a].fields)
        done = set()
        for pre in sorted({n[:-len("solution")] for n in names if n.endswith("solution")}):
            sn, tn = pre + "solution", pre + "target"
            if tn not in names and pre:
                continue
            done |= {sn, tn}
            cor, shared, alts, whys = None, False, set(), []
            for a in aids:
                V = S.ag[a].fields.get(sn)
                if V is None:
                    continue
                c = self.cor_of(S, V)
                cor = c if cor is None else join_cor(cor, c)
                for x in V:
                    if x[0] == "v":
                        st = S.sto[x[1]]
                        shared = shared or st.shared
                        alts.add(x[1])
                        if c == NO and st.why:
                            whys.append(st.why)
            nsol = self.new_sto(S, cor or UNK, why=whys[0] if whys else "", shared=shared, alts=alts)
            vn = S.sto[next(iter(nsol))[1]].vn
            fields[sn] = nsol
            labs = {self.label(S, a, pre) for a in aids if sn in S.ag[a].fields}
            if labs == {"OK"}:
                fields[tn] = frozenset([("t", vn)])
            elif "NONE" in labs:
                fields[tn] = NONE if labs == {"NONE"} else NONE | frozenset([("t", vn)])
            elif "STALE" in labs:
                fields[tn] = frozenset([("t", self.fresh("stale"))])
            else:
                fields[tn] = TOP
        for n in names - done:
            v = None
            for a in aids:
                x = S.ag[a].fields.get(n)
                if x is not None:
                    v = x if v is None else self.joinV1(S, v, x)
            fields[n] = v
        bad = [S.ag[a].site for a in aids if self.label(S, a) not in ("OK",)]
        return self.new_ag(S, fields, site or (bad[0] if bad else S.ag[aids[0]].site))

    def joinV1(self, S, a, b):
        """Join two values inside one state."""
        if a == b:
            return a
        if self._numeric(a) and self._numeric(b) and (self.has(a, "v") or self.has(b, "v")):
            c = join_cor(self.cor_of(S, a), self.cor_of(S, b))
            alts = {x[1] for x in a | b if x[0] == "v"}
            return self.new_sto(S, c, shared=any(S.sto[i].shared for i in alts), alts=alts,
                                fit=any(S.sto[i].fit for i in alts), why=next((S.sto[i].why for i in alts if S.sto[i].cor == NO), ""))
        if all(x[0] in ("n",) for x in a | b):
            return self.num(fit=any(x[2] for x in a | b))
        return self.cap(a | b)

    @staticmethod
    def has(V, kind):
        return any(x[0] == kind for x in V)

    @staticmethod
    def _numeric(V):
        return bool(V) and all(x[0] in ("v", "n") or (x[0] == "c" and x[1] in ("int", "float")) for x in V)

    # ------------------------------------------------------------------ state join
    def join(self, A, B):
        if A is None:
            return B
        if B is None:
            return A
        if A is B:
            return A
        ren = {}
        for k, x in A.env.items():
            y = B.env.get(k)
            if y is not None and x != y and len(x) == 1 and len(y) == 1:
                p, q = next(iter(x)), next(iter(y))
                if p[0] == "a" and q[0] == "a" and p[1] not in B.ag and q[1] not in A.ag and q[1] not in ren and \
                        p[1] not in ren.values() and not A.ag[p[1]].mat and not B.ag[q[1]].mat:
                    ren[q[1]] = p[1]
        if ren:
            B = self.rename_agents(B, ren)
        R = State()
        R.df = A.df & B.df
        phi = {}

        def pvn(x, y):
            if x == y:
                return x
            k = (x, y)
            if k not in phi:
                phi[k] = ("maymut" if _may(x) or _may(y) else "phi", next(self.ids))
            return phi[k]
        # storages
        for k, s in A.sto.items():
            t = B.sto.get(k)
            if t is None or t is s:
                R.sto[k] = s
            else:
                R.sto[k] = Sto(pvn(s.vn, t.vn), join_cor(s.cor, t.cor), s.shared or t.shared, s.fit or t.fit,
                               s.why if s.cor == NO else t.why, s.alts | t.alts, s.rows or t.rows)
        for k, t in B.sto.items():
            if k not in A.sto:
                R.sto[k] = t
        sphi = {}

        def jv(x, y):
            if x == y:
                return x
            if x is None:
                return y
            if y is None:
                return x
            if self._numeric(x) and self._numeric(y):
                if self.has(x, "v") or self.has(y, "v"):
                    k = (x, y)
                    if k in sphi:
                        return sphi[k]
                    vx, vy = self.vn_of(A, x), self.vn_of(B, y)
                    ca, cb = self.cor_of(A, x), self.cor_of(B, y)
                    al = {a[1] for a in x | y if a[0] == "v"}
                    sid = next(self.ids)
                    sh = any((A.sto.get(i) or B.sto.get(i)).shared for i in al)
                    ft = any((A.sto.get(i) or B.sto.get(i)).fit for i in al)
                    why = ""
                    for a in x:
                        if a[0] == "v" and A.sto[a[1]].cor == NO:
                            why = A.sto[a[1]].why
                    for a in y:
                        if not why and a[0] == "v" and B.sto[a[1]].cor == NO:
                            why = B.sto[a[1]].why
                    rows = None
                    for i in al:
                        rr = (A.sto.get(i) or B.sto.get(i)).rows
                        if rr is not None:
                            rows = rr
                    R.sto[sid] = Sto(pvn(vx, vy) if vx is not None and vy is not None else ("phi", next(self.ids)),
                                     join_cor(ca, cb), sh, ft, why, al, rows)
                    r = sphi[k] = frozenset([("v", sid)])
                    return r
                k = (x, y)
                if k not in sphi:
                    vx, vy = self.vn_of(A, x), self.vn_of(B, y)
                    vn = pvn(vx, vy) if vx is not None and vy is not None else ("phi", next(self.ids))
                    sphi[k] = frozenset([("n", vn, any(a[0] == "n" and a[2] for a in x | y))])
                return sphi[k]
            tx, ty = self.single(x, "t"), self.single(y, "t")
            if tx and ty:
                if tx[1] is None or ty[1] is None:
                    return frozenset([("t", None)])
                return frozenset([("t", pvn(tx[1], ty[1]))])
            if len(x) == 1 and len(y) == 1:
                p, q = next(iter(x)), next(iter(y))
                if p[0] == "tu" and q[0] == "tu" and len(p[1]) == len(q[1]):
                    return frozenset([("tu", tuple(jv(i, j) for i, j in zip(p[1], q[1])))])
            return self.cap(x | y)
        for k in A.env.keys() | B.env.keys():
            R.env[k] = jv(A.env.get(k), B.env.get(k))
        for k in A.sa.keys() | B.sa.keys():
            R.sa[k] = jv(A.sa.get(k), B.sa.get(k))
        for k, g in A.ag.items():
            h = B.ag.get(k)
            if h is None or h is g:
                R.ag[k] = g
            else:
                f = {}
                for n in g.fields.keys() | h.fields.keys():
                    f[n] = jv(g.fields.get(n), h.fields.get(n))
                # keep the relation explicit: joining two OK states stays OK by construction (same phi)
                site = g.site if self.label(A, k) != "OK" else h.site
                R.ag[k] = Ag(f, site, g.rec or h.rec, g.mat and h.mat and f == g.fields)
        for k, h in B.ag.items():
            if k not in A.ag:
                R.ag[k] = h
        for k, l in A.li.items():
            m = B.li.get(k)
            if m is None or m is l:
                R.li[k] = l
            else:
                el = l.elems | m.elems
                foc = {}
                for key in l.focus.keys() | m.focus.keys():
                    a, b = l.focus.get(key), m.focus.get(key)
                    if a is not None and b is not None:
                        foc[key] = a if a == b else jv(a, b)
                    else:
                        el = el | (a or b)
                last = l.last
                if l.last != m.last:
                    q = min(len(l.last or ()), len(m.last or ()))
                    last = tuple(x if x == y else jv(x, y) for x, y in zip(l.last[-q:], m.last[-q:])) if q else None
                sp = {}
                for key in l.split.keys() | m.split.keys():
                    a, b = l.split.get(key), m.split.get(key)
                    if a and b:
                        sp[key] = (a[0] | b[0], a[1] | b[1])
                    else:
                        sp[key] = a or b
                al = {n: l.al[n] | m.al[n] for n in l.al.keys() & m.al.keys()}
                R.li[k] = Li(self.capl(R, el), last, foc, sp, l.kind, al, l.ln if l.ln == m.ln else None)
        for k, m in B.li.items():
            if k not in A.li:
                R.li[k] = m
        for k in A.di.keys() | B.di.keys():
            a, b = A.di.get(k), B.di.get(k)
            if a is None or b is None or a == b:
                R.di[k] = a if a is not None else b
            else:
                R.di[k] = {n: jv(a.get(n), b.get(n)) for n in a.keys() | b.keys()}
        return R

    def recents(self, S, l, V):
        """Last elements of list l after the elements of V were appended to it."""
        q = self.single(V, "l")
        if not q or not S.li[q[1]].last:
            return None
        r = S.li[q[1]].last
        if S.li[q[1]].ln == ("c", len(r)):
            r = (l.last or ()) + r
        return r[-4:]

    def rename_agents(self, S, ren):
        def rv(V):
            if V is None or not any(a[0] in ("a", "tu") for a in V):
                return V
            return frozenset(("a", ren.get(a[1], a[1])) if a[0] == "a" else
                             ("tu", tuple(rv(x) for x in a[1])) if a[0] == "tu" else a for a in V)
        R = S.copy()
        R.env = {k: rv(v) for k, v in S.env.items()}
        R.sa = {k: rv(v) for k, v in S.sa.items()}
        R.ag = {ren.get(k, k): g for k, g in S.ag.items()}
        for k, g in list(R.ag.items()):
            if any(a[0] == "a" for v in g.fields.values() for a in v):
                R.ag[k] = Ag({n: rv(v) for n, v in g.fields.items()}, g.site, g.rec, g.mat)
        R.di = {k: {n: rv(v) for n, v in d.items()} for k, d in S.di.items()}
        for k, l in S.li.items():
            R.li[k] = l.w(elems=rv(l.elems), last=tuple(rv(v) for v in l.last) if l.last else l.last,
                          focus={n: rv(v) for n, v in l.focus.items()},
                          split={n: (rv(a), rv(b)) for n, (a, b) in l.split.items()})
        return R

    def capl(self, S, el):
        """Limit the number of alternatives held by a list."""
        ags = [a for a in el if a[0] == "a" and a[1] in S.ag]
        vs = [a for a in el if a[0] == "v"]
        ns = [a for a in el if a[0] in ("n",)]
        if len(vs) > 8:
            v = None
            for a in vs:
                v = frozenset([a]) if v is None else self.joinV1(S, v, frozenset([a]))
            el = (el - frozenset(vs)) | v
        if len(ns) > 6:
            el = (el - frozenset(ns)) | self.num(fit=any(a[2] for a in ns))
        if len(ags) > MAXSET // 2:
            ags.sort(key=lambda a: a[1])
            old = ags[: len(ags) // 2]
            el = (el - frozenset(old)) | self.content_join(S, [a[1] for a in old], fresh_copy=False)
        return el

    # ------------------------------------------------------------------ running functions
    def call_func(self, S, func: Func, args, kwargs, node, recv=None):
        """Inline a package function. Returns (State, V) or (None, None) if it never returns."""
        if len(self.frames) > MAXDEPTH or self.stack_funcs.count(func) >= 2:
            self.note_unknown(node, "recursion")
            return S, TOP
        a = func.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if func.kind in ("method", "property", "setter", "classmethod") and func.cls is not None:
            pos = [recv if recv is not None else frozenset([("s", "self")])] + pos
        bad = None
        star_in = any(k is None for k in kwargs) or any(p is RAISES for p in pos)
        pos = [p for p in pos if p is not RAISES]
        for i, v in enumerate(pos):
            if i < len(params):
                env[params[i]] = v
            elif not a.vararg:
                bad = f"{func.name}() takes {len(params)} positional arguments but {len(pos)} were given"
        if a.vararg:
            env[a.vararg.arg] = self.new_li(S, frozenset().union(*pos[len(params):]) if len(pos) > len(params) else frozenset())
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k is None:
                continue
            if k in params or k in kwonly:
                if k in env and k in params[:len(pos)]:
                    bad = f"{func.name}() got multiple values for argument '{k}'"
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                bad = f"{func.name}() got an unexpected keyword argument '{k}'"
        if a.kwarg:
            did = next(self.ids)
            S.di[did] = dict(extra)
            env[a.kwarg.arg] = frozenset([("d", did)])
        defs = a.defaults
        saved_env = S.env
        fr = {"func": func, "self": pos[0] if pos and func.kind == "method" else None, "loops": []}
        for p, d in zip(params[len(params) - len(defs):], defs):
            if p not in env:
                S.env = {}
                self.frames.append(fr)
                _, env[p] = self.ev(S, d)
                self.frames.pop()
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in env and d is not None:
                S.env = {}
                self.frames.append(fr)
                _, env[p] = self.ev(S, d)
                self.frames.pop()
        missing = [p for p in params + kwonly if p not in env]
        if missing and not star_in:
            bad = bad or f"{func.name}() missing argument(s): {', '.join(missing)}"
        if bad and not star_in:
            self.event("arity", node, bad)
        for p in missing:
            env[p] = TOP
        S = S.copy()
        S.env = env
        self.frames.append(fr)
        self.stack_funcs.append(func)
        out = self.block(S, func.node.body)
        self.stack_funcs.pop()
        self.frames.pop()
        rets = list(out.ret)
        if out.state is not None:
            rets.append((out.state, NONE))
        if not rets:
            return None, None
        R, rv = None, None
        for st, v in rets:
            st = st.copy()
            st.env = {"$r": v}
            R = st if R is None else self.join(R, st)
        rv = R.env["$r"]
        R.env = dict(saved_env)
        return R, rv

    # ------------------------------------------------------------------ statements
    def block(self, S, stmts):
        out = Outcome(S)
        for st in stmts:
            if out.state is None:
                break
            self.stmt(out, st)
        return out

    def stmt(self, out, st):
        S = out.state
        self.stats["stmts"] += 1
        self.cur = st
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.note_unknown(st, "stmt")
            return
        m(out, S, st)

    def st_Expr(self, out, S, st):
        if isinstance(st.value, ast.Constant):
            return
        out.state, _ = self.ev(S, st.value)

    def st_Pass(self, out, S, st):
        pass

    def st_Import(self, out, S, st):
        for a in st.names:
            S.env[(a.asname or a.name).split(".")[0]] = frozenset([("m", a.name)])

    def st_ImportFrom(self, out, S, st):
        for a in st.names:
            r = self.p.resolve_qual(f"{st.module}.{a.name}")
            S.env[a.asname or a.name] = self.wrap_res(r)

    def st_Global(self, out, S, st):
        pass

    def st_Nonlocal(self, out, S, st):
        pass

    def st_Assert(self, out, S, st):
        out.state, _ = self.ev(S, st.test)

    def st_FunctionDef(self, out, S, st):
        f = Func(st.name, st, self.frames[-1]["func"].module)
        f.kind = "local"
        S.env[st.name] = frozenset([("lf", f, None)])

    def st_ClassDef(self, out, S, st):
        S.env[st.name] = TOP

    def st_Delete(self, out, S, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                S.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                S, b = self.ev(S, t.value)
                if S is None:
                    out.state = None
                    return
                for l in self.lists_of(b):
                    self.fold(S, l)
        out.state = S

    def st_Return(self, out, S, st):
        v = NONE
        if st.value is not None:
            S, v = self.ev(S, st.value)
        if S is not None:
            out.ret.append((S, v))
        out.state = None

    def st_Raise(self, out, S, st):
        if st.exc is not None:
            S2, _ = self.ev(S, st.exc)
        out.state = None

    def st_Break(self, out, S, st):
        out.brk.append(S)
        out.state = None

    def st_Continue(self, out, S, st):
        out.cont.append(S)
        out.state = None

    def st_If(self, out, S, st):
        S, t = self.ev(S, st.test)
        if S is None:
            out.state = None
            return
        tv = self.truth(S, t)
        if tv is True:
            self.seq(out, self.refine(S, st.test, True), st.body)
        elif tv is False:
            self.seq(out, self.refine(S, st.test, False), st.orelse)
        else:
            A = self.refine(S.copy(), st.test, True)
            B = self.refine(S.copy(), st.test, False)
            oa = self.block(A, st.body)
            ob = self.block(B, st.orelse)
            for o in (oa, ob):
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
            out.state = self.join(oa.state, ob.state)

    def seq(self, out, S, stmts):
        o = self.block(S, stmts)
        out.brk += o.brk
        out.cont += o.cont
        out.ret += o.ret
        out.state = o.state

    def refine(self, S, test, val):
        """Narrow None-ness / flag values under a condition."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(S, test.operand, not val)
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and val) or (isinstance(test.op, ast.Or) and not val):
                for v in test.values:
                    S = self.refine(S, v, val)
            return S
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == val
            tgt = test.left

            def flt(V):
                n = frozenset(a for a in V if (a[0] == "c" and a[2] is None) == isnone or a[0] == "top")
                return n or V
            if isinstance(tgt, ast.Name) and tgt.id in S.env and S.env[tgt.id] is not None:
                S.env[tgt.id] = flt(S.env[tgt.id])
            elif isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" \
                    and tgt.attr in S.sa:
                S.sa[tgt.attr] = flt(S.sa[tgt.attr])
            return S
        if isinstance(test, ast.Name) and S.env.get(test.id) is not None:
            V = S.env[test.id]
            n = frozenset(a for a in V if a[0] != "c" or bool(a[2]) == val)
            if n:
                S.env[test.id] = n
        return S

    def st_With(self, out, S, st):
        for it in st.items:
            S, v = self.ev(S, it.context_expr)
            if S is None:
                out.state = None
                return
            if it.optional_vars is not None:
                S = self.assign(S, it.optional_vars, TOP, st)
        self.seq(out, S, st.body)

    def st_Try(self, out, S, st):
        pre = S.copy()
        ob = self.block(S, st.body)
        out.brk += ob.brk
        out.cont += ob.cont
        out.ret += ob.ret
        res = ob.state
        if res is not None and st.orelse:
            oe = self.block(res, st.orelse)
            out.brk += oe.brk
            out.cont += oe.cont
            out.ret += oe.ret
            res = oe.state
        for h in st.handlers:
            H = self.join(pre.copy(), ob.state.copy() if ob.state is not None else None).copy()
            if h.name:
                H.env[h.name] = TOP
            oh = self.block(H, h.body)
            out.brk += oh.brk
            out.cont += oh.cont
            out.ret += oh.ret
            res = self.join(res, oh.state)
        if st.finalbody and res is not None:
            of = self.block(res, st.finalbody)
            out.ret += of.ret
            res = of.state
        out.state = res

    def st_Match(self, out, S, st):
        S, v = self.ev(S, st.subject)
        res = S.copy()
        for c in st.cases:
            B = S.copy()
            for x in ast.walk(c.pattern):
                for n in (getattr(x, "name", None), getattr(x, "rest", None)):
                    if isinstance(n, str):
                        B.env[n] = TOP
            o = self.block(B, c.body)
            out.brk += o.brk
            out.cont += o.cont
            out.ret += o.ret
            res = self.join(res, o.state)
        out.state = res

    # loops
    def st_While(self, out, S, st):
        head = S
        exits = []
        for k in range(self.passes):
            H, t = self.ev(head.copy(), st.test)
            if H is None:
                break
            tv = self.truth(H, t)
            if tv is not True:
                exits.append(self.refine(H.copy(), st.test, False))
            if tv is False:
                break
            o = self.block(self.refine(H, st.test, True), st.body)
            out.ret += o.ret
            exits += o.brk
            back = o.state
            for c in o.cont:
                back = self.join(back, c)
            if back is None:
                break
            self.fold_all(back)
            head = self.join(head, back)
        # after the last pass the head may exit once more
        H, t = self.ev(head.copy(), st.test)
        if H is not None and self.truth(H, t) is not True:
            exits.append(self.refine(H, st.test, False))
        res = None
        for e in exits:
            res = self.join(res, e)
        if res is not None and st.orelse:
            self.seq(out, res, st.orelse)
        else:
            out.state = res

    def iter_plan(self, S, it):
        """(list-of lids iterated, covering?, element-source) of a for-iterable expression.
        returns (kind, data): kind in list/enum/range/zip/other"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            n = it.func.id
            if n == "enumerate" and it.args:
                return "enum", it.args[0]
            if n == "range":
                return "range", it
            if n == "zip":
                return "zip", it
            if n in ("reversed", "list", "tuple", "tqdm") and len(it.args) >= 1:
                k, d = self.iter_plan(S, it.args[0])
                return k, d
        return "list", it

    def full_range(self, S, call):
        """Is this range(...) an iteration over all positions of a population-like list?"""
        a = call.args
        if len(a) == 1:
            hi = a[0]
        elif len(a) >= 2:
            lo = a[0]
            if not (isinstance(lo, ast.Constant) and lo.value == 0):
                return False
            hi = a[1]
        else:
            return False
        if len(a) == 3 and not (isinstance(a[2], ast.Constant) and a[2].value == 1):
            return False
        return self.full_len(S, hi)

    @staticmethod
    def const_range(call):
        try:
            return range(*[ast.literal_eval(a) for a in call.args])
        except Exception:
            return None

    def full_len(self, S, hi):
        if isinstance(hi, ast.Constant):
            return False
        if isinstance(hi, ast.BinOp):
            return False
        return True

    def st_For(self, out, S, st):
        kind, data = self.iter_plan(S, st.iter)
        loopid = next(self.ids)
        src_lids = []
        elemV = None
        arrs = None
        rargs = None
        if kind == "range":
            S, rargs = self.evs(S, data.args)
            cover = S is not None and self.full_range(S, data)
        elif kind in ("list", "enum"):
            S, V = self.ev(S, data)
            cover = True
            if S is not None:
                src_lids = self.lists_of(V)
                elemV = V
        else:
            S, V = self.evs(S, data.args)
            cover = True
            elemV = V
        if S is None:
            out.state = None
            return
        # constant-tuple iteration is unrolled
        if kind == "range":
            rc = self.const_range(data)
            if rc is None and rargs:
                cs = [self.single(v, "c") for v in rargs]
                if all(c and type(c[2]) is int for c in cs):
                    rc = range(*[c[2] for c in cs])
            if rc is not None and 0 < len(rc) <= 8:
                elemV = frozenset([("tu", tuple(const(i) for i in rc))])
        if kind in ("list", "range") and elemV is not None:
            tu = self.single(elemV, "tu")
            if tu and len(tu[1]) <= 8:
                cur = S
                exits = []
                for v in tu[1]:
                    if cur is None:
                        break
                    cur = self.assign(cur, st.target, v, st)
                    o = self.block(cur, st.body)
                    out.ret += o.ret
                    exits += o.brk
                    cur = o.state
                    for c in o.cont:
                        cur = self.join(cur, c)
                res = cur
                for e in exits:
                    res = self.join(res, e)
                if res is not None and st.orelse and cur is not None:
                    self.seq(out, res, st.orelse)
                else:
                    out.state = res
                return
        # open coverage windows for all lists (cheap): key -> (unprocessed, processed)
        self.fold_all(S, self.loop_keys())
        for lid, l in list(S.li.items()):
            S.li[lid] = l.w(split={**l.split, loopid: (l.elems, frozenset())})
        entry = S
        head = S
        exits, normal = [], []
        zero = kind in ("enum", "list", "zip") and not (kind == "enum" and len(st.iter.args) != 1) or \
            kind == "range" and (len(data.args) == 1 or isinstance(data.args[0], ast.Constant) and data.args[0].value == 0)
        grows = {lid for lid, l in S.li.items() if l.ln == ("c", 0)} if zero else set()
        for k in range(self.passes):
            H = head.copy()
            ivn = ("it", next(self.ids))
            self.frames[-1]["loops"].append((loopid, ivn))
            for lid in grows:
                if lid in H.li:
                    H.li[lid] = H.li[lid].w(ln=("it", ivn))
            idx = frozenset([("n", ivn, False)])
            if kind == "range":
                val = idx
            elif kind == "enum":
                e = self.iter_elem(H, elemV, ivn, st)
                val = frozenset([("tu", (idx, e))])
            elif kind == "zip":
                val = frozenset([("tu", tuple(self.iter_elem(H, v, ivn, st) for v in elemV))])
            else:
                val = self.iter_elem(H, elemV, ivn, st)
            H = self.assign(H, st.target, val, st)
            o = self.block(H, st.body)
            self.frames[-1]["loops"].pop()
            out.ret += [(self.close_partial(s, loopid), v) for s, v in o.ret]
            exits += [self.close_partial(s, loopid) for s in o.brk]
            back = None
            for c in [o.state] + o.cont:
                if c is not None:
                    c = c.copy()
                    grows = {lid for lid in grows if lid in c.li and c.li[lid].ln == ("+", ivn)}
                    self.back_edge(c, loopid, ivn)
                    back = self.join(back, c)
            if back is None:
                break
            head = self.join(entry, back)
        # normal exit: processed part only when the loop covers the list
        if head is entry:
            res = entry
            res = res.copy()
            for lid, l in list(res.li.items()):
                if loopid in l.split:
                    sp = dict(l.split)
                    sp.pop(loopid)
                    res.li[lid] = l.w(split=sp)
        else:
            # a loop over the population (or over range(<count>)) runs at least once
            res = back.copy() if cover else self.join(entry, back).copy()
            for lid, l in list(res.li.items()):
                if loopid in l.split:
                    sp = dict(l.split)
                    un, pr = sp.pop(loopid)
                    cov = cover and (kind == "range" or lid in src_lids or kind in ("zip", "enum", "list"))
                    b = back.li.get(lid)
                    if cov and b is not None and loopid in b.split and b.split[loopid][1] and self.cov_ok(kind, lid, src_lids, b, loopid):
                        e0 = entry.li.get(lid)
                        un0 = e0.split[loopid][0] if e0 is not None and loopid in e0.split else frozenset()
                        extra = frozenset(a for a in l.elems if a not in un or
                                          (a[0] == "a" and a not in un0 and not self.untouched(res, (a,))))
                        el = pr | extra
                        if l.focus and any(not self.untouched(res, (a,)) for a in el if a[0] == "a" and a not in un0):
                            l = l.w(focus={})
                    else:
                        el = l.elems | un | pr
                    res.li[lid] = l.w(elems=el, split=sp)
        if st.orelse:
            o2 = self.block(res, st.orelse)
            out.ret += o2.ret
            out.brk += o2.brk
            out.cont += o2.cont
            res = o2.state
        for e in exits:
            res = self.join(res, e)
        out.state = res

    def cov_ok(self, kind, lid, src, b, loopid):
        return True

    def iter_elem(self, S, V, ivn, node):
        """Element delivered by iterating over V in this pass."""
        r = frozenset()
        for a in V:
            if a[0] == "l":
                g = self.list_get(S, a[1], ("n", ivn), ivn)
                tu = self.single(g, "tu")
                if tu:      # keys of a dictionary: the same key throughout one iteration
                    g = frozenset([("tu", tuple(self.dkey(x, ivn) for x in tu[1]))])
                r = r | self.dkey(g, ivn)
            elif a[0] == "tu":
                for x in a[1]:
                    r = r | x
            elif a[0] == "v":
                st = S.sto[a[1]]
                if st.rows is not None:
                    r = r | self.new_sto(S, st.rows, why=st.why)
                else:
                    r = r | self.num(fit=st.fit)
            elif a[0] == "n":
                r = r | self.num(fit=a[2])
            elif a[0] == "c" and a[1] == "str":
                r = r | self.num()
            elif a[0] == "c" and isinstance(a[2], tuple):
                r = r | frozenset().union(*[const(x) for x in a[2]]) if a[2] else r
            elif a[0] == "d":
                r = r | TOP
            else:
                r = r | TOP
        return self.cap(r) if r else TOP

    @staticmethod
    def dkey(V, ivn):
        return frozenset(("n", ivn, False) if a[0] == "n" and isinstance(a[1], tuple) and a[1][:1] == ("dkey",) else a for a in V)

    def back_edge(self, S, loopid, ivn):
        """End of one iteration: element at the loop index has been processed; all foci but those of enclosing
        loops are folded."""
        outer = self.loop_keys() - {ivn}
        for lid, l in list(S.li.items()):
            if not l.focus and loopid not in l.split:
                continue
            sp = dict(l.split)
            el = l.elems
            kept = {}
            if outer and l.focus:
                kept = {k: v for k, v in l.focus.items() if k in outer and k != ivn}
                if kept:
                    l = l.w(focus={k: v for k, v in l.focus.items() if k not in kept})
            if loopid in sp:
                un, pr = sp[loopid]
                hit = False
                proc = frozenset()
                for key, v in l.focus.items():
                    if key == ivn:
                        hit = True
                        proc = proc | v
                    else:
                        el = el | v
                        pr = pr | v
                idle = frozenset()
                for key, v in l.focus.items():
                    if key != ivn:
                        idle = idle | self.untouched(S, v)
                un, pr = un | idle, pr - idle
                if hit:
                    pr = pr | proc
                    el = el | proc
                else:
                    pr = pr | un
                # elements appended during the iteration
                pr = pr | (l.elems - un)
                sp[loopid] = (un, self.capl(S, pr))
            else:
                for v in l.focus.values():
                    el = el | v
            for k2, (u2, p2) in list(sp.items()):
                if k2 != loopid and l.focus:
                    idle = frozenset()
                    for key, v in l.focus.items():
                        if not self.is_loop_key(k2, key):
                            idle = idle | self.untouched(S, v)
                    if idle:
                        sp[k2] = (u2 | idle, p2 - idle)
            S.li[lid] = l.w(elems=self.capl(S, el), focus=kept, split=sp, last=None if l.focus else l.last,
                            ln=None if l.ln and l.ln[1] == ivn else l.ln)

    def close_partial(self, S, loopid):
        S = S.copy()
        for lid, l in list(S.li.items()):
            if loopid in l.split:
                sp = dict(l.split)
                un, pr = sp.pop(loopid)
                S.li[lid] = l.w(elems=l.elems | un | pr, split=sp)
        return S

    def fold(self, S, lid):
        l = S.li[lid]
        if l.focus:
            el = l.elems
            for v in l.focus.values():
                el = el | v
            sp = l.split
            if sp:
                sp = dict(sp)
                for k2, (u2, p2) in list(sp.items()):
                    for key, v in l.focus.items():
                        if not self.is_loop_key(k2, key):
                            idle = self.untouched(S, v)
                            sp[k2] = (sp[k2][0] | idle, sp[k2][1] - idle)
            S.li[lid] = l.w(elems=self.capl(S, el), focus={}, split=sp)

    def untouched(self, S, V):
        """Candidates in V that were only read since they were taken from their list."""
        r = set()
        for a in V:
            if a[0] == "a" and S.ag[a[1]].mat:
                sv = self.single(S.ag[a[1]].fields.get("solution", frozenset()), "v")
                if sv is None or not isinstance(S.sto[sv[1]].vn, tuple) or S.sto[sv[1]].vn[0] not in ("mut", "maymut"):
                    r.add(a)
        return frozenset(r)

    def loop_keys(self):
        return {iv for fr in self.frames for (_, iv) in fr["loops"]}

    def fold_all(self, S, keep=()):
        for lid in list(S.li):
            l = S.li[lid]
            if l.focus:
                kept = {k: v for k, v in l.focus.items() if k in keep} if keep else {}
                if len(kept) == len(l.focus):
                    continue
                if kept:
                    S.li[lid] = l.w(focus={k: v for k, v in l.focus.items() if k not in kept})
                self.fold(S, lid)
                if kept:
                    S.li[lid] = S.li[lid].w(focus=kept)

    # ------------------------------------------------------------------ list access
    def alias_copy(self, S, lid):
        """A shallow copy: a new list holding the same objects at the same positions."""
        self.fold(S, lid)
        l = S.li[lid]
        r = self.new_li(S, l.elems, l.last, l.kind)
        n = next(iter(r))[1]
        al = {lid: frozenset()}
        for p, brk in l.al.items():
            if p in S.li and lid in S.li[p].al:
                al[p] = brk
                S.li[p] = S.li[p].w(al={**S.li[p].al, n: brk})
        S.li[n] = S.li[n].w(al=al)
        S.li[lid] = S.li[lid].w(al={**l.al, n: frozenset()})
        return r

    def aliases(self, S, lid, k):
        """Lists that hold the very same object as `lid` at key k."""
        out = []
        for p, brk in S.li[lid].al.items():
            q = S.li.get(p)
            if q is None or lid not in q.al:
                continue
            if all(self.is_loop_key(lp, k) for lp in brk | q.al[lid]):
                out.append(p)
        return out

    def unalias(self, S, lid, k=None):
        """Position k (None: any position) of `lid` now holds something else."""
        l = S.li[lid]
        if not l.al:
            return
        lps = [lp for fr in self.frames for (lp, iv) in fr["loops"] if k is not None and iv == k]
        if not lps:
            S.li[lid] = l.w(al={})
            return
        S.li[lid] = l.w(al={p: b | frozenset(lps[-1:]) for p, b in l.al.items()})

    def list_get(self, S, lid, key, ivn=None):
        """Element at an index with value number `key` -- materialised so that later accesses agree."""
        l = S.li[lid]
        k = key if ivn is None else ivn
        if k in l.focus:
            return l.focus[k]
        if l.al:
            for p in self.aliases(S, lid, k):
                if k in S.li[p].focus:
                    r = S.li[p].focus[k]
                    S.li[lid] = S.li[lid].w(focus={**S.li[lid].focus, k: r})
                    return r
        if l.last and isinstance(k, tuple) and k[:2] == ("c", "int") and -len(l.last) <= k[2] < 0:
            return l.last[k[2]]
        if l.last and l.ln == ("+", k):
            return l.last[-1]
        # inside a covering loop the element at the loop index is still unprocessed
        el = l.elems
        for loopid, (un, pr) in l.split.items():
            if self.is_loop_key(loopid, k):
                el = un | (l.elems - un - pr)
                if not el:
                    el = l.elems
        if not l.focus and not el:
            for v in l.focus.values():
                el = el | v
        if not el:
            el = l.all()
        if not el:
            return TOP
        ags = [a[1] for a in el if a[0] == "a"]
        rest = frozenset(a for a in el if a[0] != "a")
        if ags:
            r = self.content_join(S, ags) | frozenset(a for a in rest if a[0] in ("l", "d", "top", "tu", "t"))
        elif all(a[0] == "v" for a in rest) and rest:
            if len(rest) == 1:
                # one storage object stands for all elements: hand out a member of it
                st = S.sto[next(iter(rest))[1]]
                r = self.new_sto(S, st.cor, why=st.why, shared=st.shared, fit=st.fit, alts=[next(iter(rest))[1]], rows=st.rows)
            else:
                r = None
                for a in rest:
                    r = frozenset([a]) if r is None else self.joinV1(S, r, frozenset([a]))
        elif all(a[0] == "n" for a in rest):
            r = self.num(fit=any(a[2] for a in rest))
        elif all(a[0] == "t" for a in rest):
            r = frozenset([("t", None)]) if len(rest) > 1 else rest
        else:
            r = rest
        for a in self.agents_of(r):
            g = S.ag[a]
            S.ag[a] = Ag(g.fields, g.site, g.rec, True)
        if ags or all(a[0] == "v" for a in rest):
            S.li[lid] = S.li[lid].w(focus={**S.li[lid].focus, k: r})
            if l.al:
                for p in self.aliases(S, lid, k):
                    S.li[p] = S.li[p].w(focus={**S.li[p].focus, k: r})
        return r

    def is_loop_key(self, loopid, k):
        for fr in self.frames:
            for (lp, iv) in fr["loops"]:
                if lp == loopid and iv == k:
                    return True
        return False

    def list_put(self, S, lid, key, V):
        if S.li[lid].al:
            if key is not None and self.aliases(S, lid, key):
                self.list_get(S, lid, key)
            self.unalias(S, lid, key)
        l = S.li[lid]
        if key is None:
            S.li[lid] = l.w(elems=self.capl(S, l.elems | V), last=None)
            return
        last = None
        if l.last and isinstance(key, tuple) and key[:2] == ("c", "int") and -len(l.last) <= key[2] < 0:
            last = list(l.last)
            last[key[2]] = V
            S.li[lid] = l.w(elems=self.capl(S, l.elems | V), last=tuple(last))
            return
        if l.last and l.ln == ("+", key):
            S.li[lid] = l.w(elems=self.capl(S, l.elems | V), last=l.last[:-1] + (V,))
            return
        S.li[lid] = l.w(focus={**l.focus, key: V}, last=None)

    # ------------------------------------------------------------------ assignment
    def st_Assign(self, out, S, st):
        S, v = self.ev(S, st.value)
        for t in st.targets:
            if S is None:
                break
            S = self.assign(S, t, v, st)
        out.state = S

    def st_AnnAssign(self, out, S, st):
        if st.value is None:
            return
        S, v = self.ev(S, st.value)
        out.state = self.assign(S, st.target, v, st) if S is not None else None

    def st_AugAssign(self, out, S, st):
        S, v = self.ev(S, st.value)
        if S is None:
            out.state = None
            return
        t = st.target
        load = ast.copy_location(_as_load(t), t)
        S, cur = self.ev(S, load)
        if S is None:
            out.state = None
            return
        kinds = self.kinds(cur)
        if "v" in kinds:
            # ndarray: modified in place
            for a in cur:
                if a[0] == "v":
                    self.mutate(S, a[1], st, "augmented assignment")
            if isinstance(t, (ast.Name, ast.Attribute)):
                r = cur
                out.state = S
                if isinstance(t, ast.Attribute):
                    out.state = self.assign(S, t, r, st)
                return
            S = self.assign(S, t, self.new_sto(S, NO, why=snip(st)), st)
            out.state = S
            return
        if "l" in kinds and isinstance(st.op, ast.Add):
            for a in cur:
                if a[0] == "l":
                    self.note_mut(S, a, st)
                    el, lst = self.seq_elems(S, v)
                    self.fold(S, a[1])
                    l = S.li[a[1]]
                    S.li[a[1]] = l.w(elems=self.capl(S, l.elems | el), last=self.recents(S, l, v), ln=None)
            out.state = S
            return
        S, r = self.binop(S, cur, v, st.op, st)
        out.state = self.assign(S, t, r, st)

    def assign(self, S, t, v, st):
        if isinstance(t, ast.Subscript):
            self.note_syntactic(S, t, st)
        if isinstance(t, ast.Name):
            S.env[t.id] = v
            return S
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(S, v, t, st)
            for x, pv in zip(t.elts, parts):
                if isinstance(x, ast.Starred):
                    S = self.assign(S, x.value, self.new_li(S, pv if pv is not None else frozenset()), st)
                else:
                    S = self.assign(S, x, pv, st)
                if S is None:
                    return None
            return S
        if isinstance(t, ast.Attribute):
            S, b = self.ev(S, t.value)
            if S is None:
                return None
            return self.store_attr(S, b, t.attr, v, st)
        if isinstance(t, ast.Subscript):
            S, b = self.ev(S, t.value)
            if S is None:
                return None
            S, i = self.ev_index(S, t.slice)
            if S is None:
                return None
            return self.store_sub(S, b, i, t.slice, v, st)
        if isinstance(t, ast.Starred):
            return self.assign(S, t.value, v, st)
        return S

    def unpack(self, S, v, t, st):
        n = len(t.elts)
        res = [None] * n
        for a in v:
            if a[0] == "tu" and len(a[1]) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                for i in range(n):
                    res[i] = a[1][i] if res[i] is None else self.joinV1(S, res[i], a[1][i])
            elif a[0] == "l":
                for i in range(n):
                    e = self.list_get(S, a[1], ("c", "int", i))
                    res[i] = e if res[i] is None else self.joinV1(S, res[i], e)
            elif a[0] == "v":
                for i in range(n):
                    stt = S.sto[a[1]]
                    e = self.num(fit=stt.fit) if stt.rows is None else self.new_sto(S, stt.rows, why=stt.why)
                    res[i] = e if res[i] is None else self.joinV1(S, res[i], e)
            elif a[0] == "c" and isinstance(a[2], tuple) and len(a[2]) == n:
                for i in range(n):
                    e = const(a[2][i])
                    res[i] = e if res[i] is None else self.joinV1(S, res[i], e)
            else:
                for i in range(n):
                    res[i] = TOP if res[i] is None else res[i] | TOP
        return [r if r is not None else TOP for r in res]

    def store_attr(self, S, base, attr, v, st):
        ags = [a for a in base if a[0] == "a"]
        for a in base:
            if a[0] == "s" and a[1] == "self":
                self.selfwrites.setdefault(attr, set()).add((self.phase, self.where(), snip(st)))
                f = self.cls.lookup_setter(attr)
                if f is not None:
                    S2, _ = self.call_func(S, f, [v], {}, st)
                    if S2 is None:
                        return None
                    S = S2
                else:
                    old = S.sa.get(attr)
                    if not (old == v and old and all(x[0] == "c" for x in v)):
                        self.note_write(S, attr, st)
                    S.sa[attr] = v
                    S.df = S.df | {attr}
                    self.on_self_store(S, attr, v, st)
            elif a[0] == "a":
                self.note_mut(S, a, st)
                ag = S.ag[a[1]]
                site = f"{self.where()}: {snip(st)}"
                if ag.rec and attr in ("solution", "target"):
                    self.event("rec-agent-store", st, f"assigns .{attr} of a recorded best/worst candidate")
                if len(ags) == 1 and len(base) == 1 or len(ags) == len(base) and not any(S.ag[x[1]].mat for x in ags):
                    S.ag[a[1]] = ag.w(attr, v, site if attr.endswith(("solution", "target")) else None)
                else:
                    old = ag.fields.get(attr)
                    nv = v if old is None else self.joinV1(S, old, v)
                    S.ag[a[1]] = ag.w(attr, nv, site if attr.endswith(("solution", "target")) else None)
            elif a[0] == "s":
                self.on_special_store(S, a[1], attr, v, st)
            elif a[0] == "hm" and not self.in_base():
                self.event("history-use", st, f"assigns history.{a[1]}.{attr}", extra=attr)
            elif a[0] == "k":
                self.event("class-store", st, f"assigns attribute {attr} of class {a[1].name}")
        return S

    def on_special_store(self, S, name, attr, v, st):
        if name == "history":
            if not self.in_base():
                self.event("history-use", st, f"assigns history.{attr}", extra=attr)
            return
        if name == "problem":
            self.note_write(S, "problem." + attr, st)
            S.df = S.df | {"problem." + attr}
        self.event("special-store", st, f"assigns {name}.{attr}", extra=(name, attr))

    def on_self_store(self, S, attr, v, st):
        if attr == "nfe_counter" and self.phase not in ("init",) and not self.in_base():
            self.event("hand-count", st, "changes the evaluation counter by hand")
        if attr in ("g_best", "g_worst") and self.phase not in ("init",) and not self.in_base():
            self.event("gbest-store", st, f"search step assigns self.{attr}", extra=(attr, self.phase))

    def store_sub(self, S, base, idx, sl, v, st):
        for a in base:
            if a[0] in ("l", "d"):
                self.note_mut(S, a, st)
            if a[0] == "v":
                self.mutate(S, a[1], st, "element assignment", v)
            elif a[0] == "l":
                if isinstance(sl, ast.Slice):
                    el, _ = self.seq_elems(S, v)
                    self.fold(S, a[1])
                    l = S.li[a[1]]
                    if sl.lower is None and sl.upper is None:
                        S.li[a[1]] = l.w(elems=el, last=None, ln=None)
                    else:
                        S.li[a[1]] = l.w(elems=self.capl(S, l.elems | el), last=None, ln=None)
                else:
                    key = self.vn_of(S, idx)
                    if len(self.lists_of(base)) > 1:
                        l = S.li[a[1]]
                        S.li[a[1]] = l.w(elems=self.capl(S, l.elems | v), last=None)
                    else:
                        self.list_put(S, a[1], key, v)
            elif a[0] == "d":
                d = dict(S.di[a[1]])
                c = self.single(idx, "c")
                k = c[2] if c else "*"
                old = d.get(k)
                lo, ln = (self.single(old, "l"), self.single(v, "l")) if old is not None and not c else (None, None)
                if lo and ln:
                    # one summary list stands for all lists stored under computed keys
                    if lo != ln:
                        self.fold(S, lo[1])
                        self.fold(S, ln[1])
                        l = S.li[lo[1]]
                        S.li[lo[1]] = l.w(elems=self.capl(S, l.elems | S.li[ln[1]].elems), last=None, ln=None)
                    continue
                d[k] = v if (c and old is None) or c else (v if old is None else self.joinV1(S, old, v))
                S.di[a[1]] = d
            elif a[0] == "s":
                self.event("special-store", st, f"assigns an element of {a[1]}", extra=(a[1], "[]"))
            elif a[0] == "hm" and not self.in_base():
                self.event("history-use", st, f"assigns an element of history.{a[1]}", extra=a[1])
        return S

    def mutate(self, S, sid, st, how, v=None):
        self.stats["stores"] += 1
        s = S.sto[sid]
        seen, work = set(), [sid]
        sh = False
        while work:
            x = work.pop()
            if x in seen or x not in S.sto:
                continue
            seen.add(x)
            self.note_mut(S, ("v", x), st)
            sh = sh or S.sto[x].shared
            work += list(S.sto[x].alts)
        if sh:
            self.event("inplace-shared", st, f"{how} modifies an array that a member of the population or the records may share")
        vn = self.fresh("mut")
        fitv = bool(v) and any(a[0] == "n" and a[2] for a in v)
        # storing a (corrected) row in a matrix of positions keeps the matrix a matrix of positions
        rows = s.rows
        if v is not None and isinstance(st, ast.Assign):
            rc = self.cor_of(S, v) if self.has(v, "v") else None
            if rc is not None:
                rows = rc if s.rows is None else join_cor(s.rows, rc)
        S.sto[sid] = s.w(vn=vn, cor=NO, why=f"modified in place by `{snip(st)}`", fit=s.fit or fitv, rows=rows)
        for x in seen - {sid}:
            o = S.sto[x]
            S.sto[x] = o.w(vn=("maymut", x, vn), cor=o.cor if o.cor == NO else UNK, why=f"may be modified in place by `{snip(st)}`")
        # storages derived as alternatives of this one (phi / views) see the change too
        for x, o in list(S.sto.items()):
            if x not in seen and sid in o.alts:
                S.sto[x] = o.w(vn=("maymut", x, vn), cor=o.cor if o.cor == NO else UNK, why=f"may be modified in place by `{snip(st)}`")

    # ------------------------------------------------------------------ expressions
    def evs(self, S, exprs):
        vals = []
        for e in exprs:
            if isinstance(e, ast.Starred):
                S, v = self.ev(S, e.value)
                if S is None:
                    return None, None
                tu = self.single(v, "tu")
                if tu:
                    vals += list(tu[1])
                else:
                    vals.append(RAISES)
                continue
            S, v = self.ev(S, e)
            if S is None:
                return None, None
            vals.append(v)
        return S, vals

    def ev(self, S, e):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.note_unknown(e, "expr " + type(e).__name__)
            return S, TOP
        return m(S, e)

    def ev_Constant(self, S, e):
        return S, const(e.value)

    def ev_JoinedStr(self, S, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                S, _ = self.ev(S, v.value)
                if S is None:
                    return None, None
        return S, frozenset([("str",)])

    def ev_Name(self, S, e):
        if e.id in S.env:
            v = S.env[e.id]
            return S, v if v is not None else TOP
        fr = self.frames[-1]
        if e.id in fr.get("closure", {}):
            return S, fr["closure"][e.id]
        mod = fr["func"].module if fr["func"] else None
        r = self.p.resolve_name(mod, e.id) if mod else None
        if r is not None:
            return S, self.wrap_res(r)
        if e.id in BUILTINS:
            return S, frozenset([("m", "builtins." + e.id)])
        return S, TOP

    def wrap_res(self, r):
        if isinstance(r, Class):
            return frozenset([("k", r)])
        if isinstance(r, Func):
            return frozenset([("f", r, None)])
        if isinstance(r, Module):
            return frozenset([("mod", r)])
        if isinstance(r, str):
            return frozenset([("m", r)])
        if isinstance(r, tuple) and r[0] == "global":
            try:
                v = ast.literal_eval(r[1].globals[r[2]])
                return const(_hashable(v))
            except Exception:
                return TOP
        return TOP

    def ev_Attribute(self, S, e):
        S, b = self.ev(S, e.value)
        if S is None:
            return None, None
        return self.get_attr(S, b, e.attr, e)

    def get_attr(self, S, b, attr, e):
        if b == NONE and attr not in ("target", "fitness", "objectives", "copy"):
            self.none_use(b, e)
        r = frozenset()
        for a in b:
            S, v = self.get_attr1(S, a, attr, e)
            if S is None:
                return None, None
            r = r | v
        if len(r) > 1 and self._numeric(r) and self.has(r, "v"):
            vs = [frozenset([x]) for x in r]
            acc = vs[0]
            for x in vs[1:]:
                acc = self.joinV1(S, acc, x)
            r = acc
        return S, self.cap(r) if r else TOP

    def get_attr1(self, S, a, attr, e):
        k = a[0]
        if k == "s":
            if a[1] == "self":
                return self.self_attr(S, attr, e)
            return S, self.special_attr(S, a[1], attr, e)
        if k == "a":
            f = S.ag[a[1]].fields
            if attr in f:
                return S, f[attr]
            if attr in ("copy", "update", "update_agent", "sync_if_duplicate", "is_better_than", "get_better_solution",
                        "_compare_fitness", "set_kwargs"):
                return S, frozenset([("am", attr, a[1])])
            if attr == "target":
                return S, NONE
            if attr == "id":
                return S, self.num()
            self.event("missing-attr", e, f".{attr} of a candidate is read but never set before this point", extra="agent." + attr)
            return S, TOP
        if k == "t":
            if attr == "fitness":
                return S, frozenset([("n", ("fit", a[1]) if a[1] is not None else self.fresh("fit"), True)])
            if attr == "objectives":
                return S, self.new_sto(S, UNK)
            if attr == "copy":
                return S, frozenset([("tm", "copy", a[1])])
            return S, TOP
        if k == "hm":
            return S, frozenset([("hm", a[1] + "." + attr)]) if attr in self.MUTATORS else TOP
        if k == "c" and a[2] is None:
            if attr in ("fitness", "copy", "objectives") and isinstance(e.value, (ast.Attribute, ast.Name)):
                # None.target / None.fitness: the candidate has no objective value yet
                self.event("none-target", e, f"reads .{attr} of a candidate that may not have been evaluated in mode '{self.mode}'")
            return S, frozenset()
        if k == "v":
            if attr in ("T", "flat", "real"):
                return S, self.view(S, a[1])
            if attr in ("shape", "size", "ndim", "dtype", "nbytes"):
                return S, self.num(vn=("shape", a[1], attr))
            return S, frozenset([("vm", attr, a[1])])
        if k == "n":
            return S, frozenset([("nm", attr, a)])
        if k == "l":
            return S, frozenset([("lm", attr, a[1])])
        if k == "d":
            return S, frozenset([("dm", attr, a[1])])
        if k == "tu":
            return S, frozenset([("tum", attr, a)])
        if k == "k":
            c = a[1]
            f = c.lookup(attr)
            if f is not None:
                return S, frozenset([("f", f, ("k", c))])
            v, owner = c.class_attr(attr)
            if v is not None:
                return S, self.lit(v)
            return S, TOP
        if k == "mod":
            return S, self.wrap_res(self.p.resolve_name(a[1], attr))
        if k == "m":
            return S, frozenset([("m", f"{a[1]}.{attr}")])
        return S, TOP

    def lit(self, node):
        try:
            return const(_hashable(ast.literal_eval(node)))
        except Exception:
            return TOP

    def view(self, S, sid):
        s = S.sto[sid]
        return self.new_sto(S, UNK if s.cor == YES else s.cor, why=s.why, shared=s.shared, fit=s.fit, alts=[sid], rows=s.rows)

    def self_attr(self, S, attr, e):
        if attr in S.sa:
            self.note_read(S, attr, e)
            return S, S.sa[attr]
        f = self.cls.lookup(attr)
        if f is not None:
            if f.kind == "property":
                return self.call_func(S, f, [], {}, e)
            return S, frozenset([("f", f, ("self",))])
        v, owner = self.cls.class_attr(attr)
        if v is not None:
            self.note_read(S, attr, e, probe=True)
            return S, self.lit(v)
        if attr == "__class__":
            return S, frozenset([("k", self.cls)])
        if attr == "__dict__":
            return S, TOP
        self.attr_missing(S, attr, e)
        return S, TOP

    def attr_missing(self, S, attr, e):
        self.event("missing-attr", e, f"self.{attr} is read but never set before this point", extra=attr)

    def special_attr(self, S, name, attr, e):
        if name == "problem":
            self.note_read(S, "problem." + attr, None)
            if attr == "minmax":
                return const(self.minmax)
            if attr in ("lb", "ub"):
                sid = "P" + attr
                if sid not in S.sto:
                    S.sto[sid] = Sto(("p", attr), NO, True, False, f"problem.{attr}")
                return frozenset([("v", sid)])
            if attr in ("n_dims", "n_objs"):
                return self.num(vn=("p", attr))
            if attr in ("generate_solution", "correct_solution", "get_target", "obj_func", "encode_solution", "decode_solution",
                        "get_name"):
                return frozenset([("pm", attr)])
            if attr == "bounds":
                return TOP
            return TOP
        if name == "generator" or name == "rng":
            return frozenset([("gm", name, attr)])
        if name == "history":
            return frozenset([("hm", attr)])
        if name == "validator":
            return frozenset([("valm", attr)])
        if name == "logger":
            return frozenset([("noop",)])
        return TOP

    def ev_index(self, S, sl):
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper, sl.step):
                if x is not None:
                    S, _ = self.ev(S, x)
                    if S is None:
                        return None, None
            return S, frozenset([("slice",)])
        return self.ev(S, sl)

    def ev_Subscript(self, S, e):
        S, b = self.ev(S, e.value)
        if S is None:
            return None, None
        S, i = self.ev_index(S, e.slice)
        if S is None:
            return None, None
        self.none_use(b, e)
        r = frozenset()
        for a in b:
            r = r | self.sub1(S, a, i, e)
        return S, self.cap(r) if r else TOP

    def sub1(self, S, a, i, e):
        k = a[0]
        is_slice = isinstance(e.slice, ast.Slice)
        if k == "l":
            if is_slice:
                self.fold(S, a[1])
                l = S.li[a[1]]
                full = e.slice.lower is None and e.slice.upper is None and e.slice.step is None
                if full:
                    return self.alias_copy(S, a[1])
                return self.new_li(S, l.elems, None, l.kind)
            key = self.vn_of(S, i)
            if self.has(i, "v") and len(i) == 1:       # fancy indexing does not exist on lists: integer scalar from an array
                key = None
                vn = self.vn_of(S, i)
                key = vn
            if key is None:
                l = S.li[a[1]]
                return self.list_get(S, a[1], self.fresh("anyidx"))
            return self.list_get(S, a[1], key)
        if k == "tu":
            c = self.single(i, "c")
            if c and isinstance(c[2], int) and -len(a[1]) <= c[2] < len(a[1]):
                return a[1][c[2]]
            if is_slice:
                try:
                    lo = ast.literal_eval(e.slice.lower) if e.slice.lower is not None else None
                    hi = ast.literal_eval(e.slice.upper) if e.slice.upper is not None else None
                    return frozenset([("tu", a[1][lo:hi])])
                except Exception:
                    return frozenset().union(*a[1]) if a[1] else TOP
            r = frozenset().union(*a[1]) if a[1] else TOP
            return self.cap(r)
        if k == "v":
            s = S.sto[a[1]]
            if is_slice or (isinstance(e.slice, ast.Tuple)):
                if s.fit or s.cor is not None:
                    return self.view(S, a[1])
            if s.rows is not None:
                return self.new_sto(S, s.rows, why=s.why, alts=[a[1]], fit=s.fit)
            if self.has(i, "v") or self.has(i, "l"):
                return self.new_sto(S, UNK, why="fancy index", fit=s.fit)
            return frozenset([("n", ("idx", s.vn, self.vn_of(S, i) or self.fresh("i")), s.fit)])
        if k == "n":
            return self.num(fit=a[2])
        if k == "d":
            d = S.di[a[1]]
            c = self.single(i, "c")
            if c and c[2] in d:
                return d[c[2]]
            r = frozenset()
            for v in d.values():
                r = r | v
            return r or TOP
        if k == "c" and isinstance(a[2], tuple):
            c = self.single(i, "c")
            if c and isinstance(c[2], int) and not isinstance(c[2], bool) and -len(a[2]) <= c[2] < len(a[2]):
                return const(a[2][c[2]])
            if isinstance(a[2], tuple):
                return frozenset().union(*[const(x) for x in a[2]]) if a[2] else TOP
        if k == "cd":
            c = self.single(i, "c")
            d = dict(a[1])
            if c and c[2] in d:
                return const(d[c[2]])
        return TOP

    def ev_Tuple(self, S, e):
        S, vs = self.evs(S, e.elts)
        if S is None:
            return None, None
        if any(v is RAISES for v in vs):
            return S, TOP
        return S, frozenset([("tu", tuple(vs))])

    def ev_List(self, S, e):
        S, vs = self.evs(S, e.elts)
        if S is None:
            return None, None
        el = frozenset()
        if any(v is RAISES for v in vs):
            for x, v in zip(e.elts, vs):
                if v is RAISES:
                    S, w = self.ev(S, x.value)
                    q, _ = self.seq_elems(S, w)
                    el = el | q
                else:
                    el = el | v
            return S, self.new_li(S, el)
        for v in vs:
            el = el | v
        r = self.new_li(S, el, tuple(vs[-4:]) if vs else None)
        lid = next(iter(r))[1]
        S.li[lid] = S.li[lid].w(ln=("c", len(vs)))
        if vs and len(vs) <= 12:
            lid = next(iter(r))[1]
            S.li[lid] = S.li[lid].w(focus={("c", "int", i): v for i, v in enumerate(vs)})
        return S, r

    def ev_Set(self, S, e):
        S, vs = self.evs(S, e.elts)
        if S is None:
            return None, None
        el = frozenset()
        for v in vs:
            if v is not RAISES:
                el = el | v
        return S, self.new_li(S, el, kind="set")

    def ev_Dict(self, S, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            S, vv = self.ev(S, v)
            if S is None:
                return None, None
            if isinstance(k, ast.Constant):
                d[k.value] = vv
            else:
                d["*"] = vv if "*" not in d else self.joinV1(S, d["*"], vv)
        did = next(self.ids)
        S.di[did] = d
        return S, frozenset([("d", did)])

    def ev_Lambda(self, S, e):
        return S, frozenset([("lam", e, tuple(sorted(((k, v) for k, v in S.env.items() if v is not None), key=lambda x: x[0])))])

    def ev_IfExp(self, S, e):
        S, t = self.ev(S, e.test)
        if S is None:
            return None, None
        tv = self.truth(S, t)
        if tv is True:
            return self.ev(S, e.body)
        if tv is False:
            return self.ev(S, e.orelse)
        A, va = self.ev(self.refine(S.copy(), e.test, True), e.body)
        B, vb = self.ev(self.refine(S.copy(), e.test, False), e.orelse)
        if A is None:
            return B, vb
        if B is None:
            return A, va
        A.env["$i"], B.env["$i"] = va, vb
        R = self.join(A, B)
        v = R.env.pop("$i")
        return R, v

    def ev_NamedExpr(self, S, e):
        S, v = self.ev(S, e.value)
        if S is None:
            return None, None
        S = self.assign(S, e.target, v, e)
        return S, v

    def ev_BoolOp(self, S, e):
        res = []
        isand = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            S, v = self.ev(S, x)
            if S is None:
                return None, None
            t = self.truth(S, v)
            res.append(t)
            if isand and t is False:
                if all(r is True for r in res[:-1]):
                    return S, FALSE
                return S, FALSE
            if not isand and t is True:
                return S, v if all(r is False for r in res[:-1]) else TRUE
            acc = v if acc is None else acc | v
        if isand and all(r is True for r in res):
            return S, v
        if not isand and all(r is False for r in res):
            return S, FALSE
        if all(self._boolish(acc1) for acc1 in [acc]):
            return S, frozenset(TRUE | FALSE)
        return S, frozenset([("n", self.fresh("b"), False)])

    def _boolish(self, V):
        return all(a[0] == "c" and a[1] == "bool" for a in V)

    def ev_UnaryOp(self, S, e):
        S, v = self.ev(S, e.operand)
        if S is None:
            return None, None
        if isinstance(e.op, ast.Not):
            t = self.truth(S, v)
            return S, (TRUE | FALSE) if t is None else const(not t)
        if isinstance(e.op, ast.USub):
            c = self.single(v, "c")
            if c and isinstance(c[2], (int, float)) and not isinstance(c[2], bool):
                return S, const(-c[2])
        if self.has(v, "v"):
            return S, self.new_sto(S, NO, why=snip(e))
        if all(a[0] in ("n", "c") for a in v):
            return S, self.num(vn=("u", type(e.op).__name__, self.vn_of(S, v) or self.fresh()))
        return S, TOP if self.has(v, "top") else self.num()

    def ev_BinOp(self, S, e):
        S, a = self.ev(S, e.left)
        if S is None:
            return None, None
        S, b = self.ev(S, e.right)
        if S is None:
            return None, None
        self.none_use(a, e)
        self.none_use(b, e)
        return self.binop(S, a, b, e.op, e)

    def none_use(self, V, e):
        """A value that is nothing but None takes part in a computation."""
        if V == NONE:
            self.event("none-use", e, "computes with a value that is still None here")

    def binop(self, S, a, b, op, e):
        ka, kb = self.kinds(a), self.kinds(b)
        ca, cb = self.single(a, "c"), self.single(b, "c")
        if ca and cb and isinstance(ca[2], (int, float)) and isinstance(cb[2], (int, float)):
            try:
                o = type(op).__name__
                r = {"Add": lambda: ca[2] + cb[2], "Sub": lambda: ca[2] - cb[2], "Mult": lambda: ca[2] * cb[2],
                     "Div": lambda: ca[2] / cb[2], "FloorDiv": lambda: ca[2] // cb[2], "Mod": lambda: ca[2] % cb[2]}.get(o)
                if r:
                    return S, const(r())
            except Exception:
                pass
        if isinstance(op, ast.Mod) and any(x[0] == "str" or (x[0] == "c" and x[1] == "str") for x in a):
            return S, frozenset([("str",)])
        if "l" in ka and "l" in kb and isinstance(op, ast.Add):
            e1, _ = self.seq_elems(S, a)
            e2, l2 = self.seq_elems(S, b)
            return S, self.new_li(S, self.capl(S, e1 | e2))
        if "tu" in ka and "tu" in kb and isinstance(op, ast.Add):
            x, y = self.single(a, "tu"), self.single(b, "tu")
            if x and y:
                return S, frozenset([("tu", x[1] + y[1])])
        if isinstance(op, ast.Mult) and ("l" in ka or "l" in kb):
            if "v" not in ka | kb:
                el, _ = self.seq_elems(S, a if "l" in ka else b)
                return S, self.new_li(S, el)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)) and "l" in ka and "l" in kb:
            e1, _ = self.seq_elems(S, a)
            e2, _ = self.seq_elems(S, b)
            return S, self.new_li(S, e1 | e2, kind="set")
        if "v" in ka or "v" in kb:
            return S, self.new_sto(S, NO, why=snip(e), fit=self.affine(S, a, b, op))
        if "top" in ka or "top" in kb:
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and self.phase == "evolve" and self.first_epoch(S, a) == 0:
                return S, self.num(vn=("op", type(op).__name__, self.vn_of(S, a), self.fresh()))
            return S, TOP
        if "l" in ka or "l" in kb:
            return S, self.new_sto(S, NO, why=snip(e))
        va, vb = self.vn_of(S, a), self.vn_of(S, b)
        return S, self.num(fit=self.affine(S, a, b, op), vn=("op", type(op).__name__, va if va is not None else self.fresh(), vb if vb is not None else self.fresh()))

    def affine(self, S, a, b, op):
        """A sum or a difference with an objective value on the left orders like the objective value."""
        fa, fb = self.fitness_like(S, a), self.fitness_like(S, b)
        if isinstance(op, ast.Add):
            return fa or fb
        if isinstance(op, ast.Sub):
            return fa
        if isinstance(op, (ast.Mult, ast.Div)):
            c = self.single(b, "c")
            return fa and c is not None and isinstance(c[2], (int, float)) and c[2] > 0
        return False

    # comparisons
    def fitness_like(self, S, V):
        """Raw objective values (scalar or array/list of them)?"""
        if not V:
            return False
        hit = False
        for a in V:
            if a[0] == "n":
                if not a[2]:
                    return False
                hit = True
            elif a[0] == "v":
                if not S.sto[a[1]].fit:
                    return False
                hit = True
            elif a[0] == "l":
                el = S.li[a[1]].all()
                if not self.fitness_like(S, el):
                    return False
                hit = True
            elif not (a[0] == "c" and a[1] in ("int", "float")):
                return False
        return hit

    def ev_Compare(self, S, e):
        S, left = self.ev(S, e.left)
        if S is None:
            return None, None
        res = True
        cur = left
        fitsides = [self.fitness_like(S, left)]
        lnode = e.left
        for op, rn in zip(e.ops, e.comparators):
            S, right = self.ev(S, rn)
            if S is None:
                return None, None
            fr = self.fitness_like(S, right)
            if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                self.stats["cmps"] += 1
                if fitsides[-1] and fr:
                    self.dir_event(S, e, type(op).__name__, "compare", cur, right)
            fitsides.append(fr)
            r = self.cmp1(S, op, cur, right)
            if r is False:
                res = False
            elif r is None and res is not False:
                res = None
            cur = right
        if res is None:
            if any(self.has(x, "v") for x in (left, cur)):
                return S, self.new_sto(S, NO, why="mask")
            return S, TRUE | FALSE
        return S, const(res)

    def first_epoch(self, S, V):
        """Value of an expression of the epoch number during the first epoch (None if it depends on anything else)."""
        def num(vn):
            if vn == ("epoch", 0):
                return 1
            if isinstance(vn, tuple) and vn and vn[0] == "c" and vn[1] in ("int", "float"):
                return vn[2]
            if isinstance(vn, tuple) and len(vn) == 4 and vn[0] == "op":
                x, y = num(vn[2]), num(vn[3])
                if vn[1] in ("Mod", "FloorDiv", "Div", "Mult") and x == 0:
                    return 0
                if x is None or y is None:
                    return None
                try:
                    return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Mod": lambda: x % y,
                            "FloorDiv": lambda: x // y, "Div": lambda: x / y}[vn[1]]()
                except (KeyError, ZeroDivisionError):
                    return None
            return None
        return num(self.vn_of(S, V))

    def cmp1(self, S, op, a, b):
        if self.phase == "evolve" and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and \
                all(x[0] in ("n", "c") for x in a | b) and any(x[0] == "n" for x in a | b):
            x, y = self.first_epoch(S, a), self.first_epoch(S, b)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[type(op).__name__]
        if isinstance(op, (ast.Is, ast.IsNot)) or isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if b == NONE or a == NONE:
                o = a if b == NONE else b
                if any(x[0] == "top" for x in o):
                    return None
                n = [x for x in o if x[0] == "c" and x[2] is None]
                if not n:
                    return neg
                if len(n) == len(o):
                    return not neg
                return None
            ca, cb = self.single(a, "c"), self.single(b, "c")
            if ca and cb:
                r = ca[2] == cb[2]
                return (not r) if neg else r
            if all(x[0] == "c" for x in a) and all(x[0] == "c" for x in b):
                if not ({x[2] for x in a} & {x[2] for x in b}):
                    return neg
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            ca = self.single(a, "c")
            items = None
            cb = self.single(b, "c")
            if cb and isinstance(cb[2], (tuple, str)):
                items = cb[2]
            tb = self.single(b, "tu")
            lb = self.single(b, "l")
            if tb and all(self.single(x, "c") for x in tb[1]):
                items = tuple(self.single(x, "c")[2] for x in tb[1])
            if lb:
                el = S.li[lb[1]].all()
                if el and all(x[0] == "c" for x in el):
                    items = tuple(x[2] for x in el)
            if ca and items is not None:
                try:
                    r = ca[2] in items
                    return (not r) if neg else r
                except TypeError:
                    return None
            return None
        ca, cb = self.single(a, "c"), self.single(b, "c")
        if ca and cb and isinstance(ca[2], (int, float)) and isinstance(cb[2], (int, float)):
            return {"Lt": ca[2] < cb[2], "Gt": ca[2] > cb[2], "LtE": ca[2] <= cb[2], "GtE": ca[2] >= cb[2]}[type(op).__name__]
        return None

    def dir_event(self, S, node, op, what, a=None, b=None):
        """A place where raw objective values are ordered."""
        k = (self.where(), what, snip(node), op)
        self.cmps.setdefault(k, set()).add((self.minmax, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    def ev_Starred(self, S, e):
        return self.ev(S, e.value)

    def ev_Slice(self, S, e):
        return self.ev_index(S, e)

    def ev_Await(self, S, e):
        return self.ev(S, e.value)

    # comprehensions
    def ev_ListComp(self, S, e):
        return self.comp(S, e, [e.elt], "list")

    def ev_GeneratorExp(self, S, e):
        return self.comp(S, e, [e.elt], "list")

    def ev_SetComp(self, S, e):
        return self.comp(S, e, [e.elt], "set")

    def ev_DictComp(self, S, e):
        S, r = self.comp(S, e, [e.value], "list")
        if S is None:
            return None, None
        el, _ = self.seq_elems(S, r)
        did = next(self.ids)
        S.di[did] = {"*": el} if el else {}
        return S, frozenset([("d", did)])

    def comp(self, S, e, elts, kind):
        saved = dict(S.env)
        filt = False
        fr = self.frames[-1]
        nl = 0
        self.fold_all(S)
        for g in e.generators:
            k, d = self.iter_plan(S, g.iter)
            ivn = ("it", next(self.ids))
            fr["loops"].append((next(self.ids), ivn))
            nl += 1
            idx = frozenset([("n", ivn, False)])
            if k == "range":
                S, _ = self.evs(S, d.args)
                val = idx
            elif k == "zip":
                S, V = self.evs(S, d.args)
                if S is None:
                    return None, None
                val = frozenset([("tu", tuple(self.iter_elem(S, v, ivn, e) for v in V))])
            else:
                S, V = self.ev(S, d)
                if S is None:
                    return None, None
                if not any(True for _ in V):
                    V = TOP
                el = self.iter_elem(S, V, ivn, e)
                val = el if k == "list" else frozenset([("tu", (idx, el))])
            if S is None:
                return None, None
            S = self.assign(S, g.target, val, e)
            for c in g.ifs:
                S, t = self.ev(S, c)
                if S is None:
                    return None, None
                S = self.refine(S, c, True)
                filt = True
        S, v = self.ev(S, elts[0])
        for _ in range(nl):
            fr["loops"].pop()
        if S is None:
            return None, None
        self.fold_all(S)
        S.env = saved
        r = self.new_li(S, v, kind=kind)
        return S, r

    # ------------------------------------------------------------------ sequences
    def seq_elems(self, S, V):
        """(element set, last) of a list-like value"""
        el, last = frozenset(), None
        for a in V:
            if a[0] == "l":
                self.fold(S, a[1])
                el = el | S.li[a[1]].elems
            elif a[0] == "tu":
                for x in a[1]:
                    el = el | x
            elif a[0] == "v":
                s = S.sto[a[1]]
                if s.rows is not None:
                    el = el | self.new_sto(S, s.rows, why=s.why)
                else:
                    el = el | self.num(fit=s.fit)
            elif a[0] == "c" and isinstance(a[2], tuple):
                for x in a[2]:
                    el = el | const(x)
            elif a[0] == "d":
                el = el | TOP
            elif a[0] == "n":
                el = el | self.num(fit=a[2])
            elif a[0] == "c" and a[2] is None:
                pass
            else:
                el = el | TOP
        return el, last

    # ------------------------------------------------------------------ calls
    def ev_Call(self, S, e):
        self.stats["calls"] += 1
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            fn = self.frames[-1]["func"]
            owner = fn.cls
            if owner is not None:
                f = self.cls.lookup_after(owner, e.func.attr)
                S, args, kw = self.ev_args(S, e)
                if S is None:
                    return None, None
                if f is None:
                    return S, NONE
                return self.dispatch(S, f, args, kw, e)
        if isinstance(e.func, ast.Attribute) and e.func.attr in LIST_MUT and isinstance(e.func.value, (ast.Attribute, ast.Subscript)):
            self.note_syntactic(S, e.func.value, e)
        S, fv = self.ev(S, e.func)
        if S is None:
            return None, None
        S, args, kw = self.ev_args(S, e)
        if S is None:
            return None, None
        fv = frozenset(a for a in fv if not (a[0] == "c" and a[2] is None)) or fv
        results = []
        atoms = list(fv)
        if len(atoms) == 1:
            return self.call_atom(S, atoms[0], args, kw, e)
        R = None
        for a in atoms:
            S1, v = self.call_atom(S.copy(), a, args, kw, e)
            if S1 is None:
                continue
            S1.env["$c"] = v
            R = S1 if R is None else self.join(R, S1)
        if R is None:
            return None, None
        v = R.env.pop("$c")
        return R, v

    def ev_args(self, S, e):
        S, args = self.evs(S, e.args)
        if S is None:
            return None, None, None
        kw = {}
        for k in e.keywords:
            S, v = self.ev(S, k.value)
            if S is None:
                return None, None, None
            if k.arg is None:
                d = self.single(v, "d")
                if d:
                    kw.update({n: x for n, x in S.di[d[1]].items() if isinstance(n, str) and n != "*"})
                    if "*" in S.di[d[1]]:
                        kw[None] = v
                else:
                    kw[None] = v
            else:
                kw[k.arg] = v
        return S, args, kw

    def dispatch(self, S, f: Func, args, kw, e):
        """Call of a resolved package function: primitive contract or inline."""
        if f.cls is self.base:
            m = getattr(self, "prim_" + f.name, None)
            if m is not None:
                self.stats["prims"] += 1
                A = self.bind(f, args, kw, e)
                if A is not None:
                    return m(S, A, e)
        recv = None
        return self.call_func(S, f, args, kw, e, recv)

    def bind(self, f, args, kw, e):
        """Bind args to parameter names of a base-class primitive (checking arity)."""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if f.kind == "method":
            params = params[1:]
        A = {}
        star = any(x is RAISES for x in args) or None in kw
        for i, v in enumerate(args):
            if v is RAISES:
                continue
            if i < len(params):
                A[params[i]] = v
            elif not a.vararg:
                self.event("arity", e, f"{f.name}() takes {len(params)} arguments")
        for k, v in kw.items():
            if k is None:
                continue
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in A:
                    self.event("arity", e, f"{f.name}() got multiple values for argument '{k}'")
                A[k] = v
            elif not a.kwarg:
                self.event("arity", e, f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(a.defaults)
        for i, p in enumerate(params):
            if p not in A:
                j = i - (len(params) - nd)
                if j >= 0:
                    A[p] = self.lit(a.defaults[j])
                elif not star:
                    self.event("arity", e, f"{f.name}() missing argument '{p}'")
                    A[p] = TOP
                else:
                    A[p] = TOP
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in A and d is not None:
                A[x.arg] = self.lit(d)
        return A

    def call_atom(self, S, a, args, kw, e):
        k = a[0]
        if k == "f":
            f, recv = a[1], a[2]
            if f.cls is not None and recv is not None and recv[0] == "k" and f.kind == "method":
                # Class.method(self, ...)
                rv = args[0] if args else None
                if rv is not None and rv is not RAISES and self.has(rv, "s"):
                    return self.dispatch(S, f, args[1:], kw, e)
                return self.call_func(S, f, args[1:], kw, e, recv=rv)
            return self.dispatch(S, f, args, kw, e)
        if k == "lf":
            f = a[1]
            env = dict(S.env)
            if len(self.frames) > MAXDEPTH:
                return S, TOP
            S2, v = self.call_local(S, f, args, kw, e)
            return S2, v
        if k == "lam":
            return self.call_lambda(S, a, args, kw, e)
        if k == "am":
            return self.agent_method(S, a[1], a[2], args, kw, e)
        if k == "tm":
            return S, frozenset([("t", a[2])])
        if k == "vm":
            return self.array_method(S, a[1], a[2], args, kw, e)
        if k == "nm":
            if a[1] in ("append", "extend"):
                return S, NONE
            if a[1] in ("copy", "item", "astype"):
                return S, frozenset([a[2]])
            return S, self.num()
        if k == "lm":
            return self.list_method(S, a[1], a[2], args, kw, e)
        if k == "dm":
            return self.dict_method(S, a[1], a[2], args, kw, e)
        if k == "tum":
            return S, self.num()
        if k == "pm":
            return self.problem_method(S, a[1], args, kw, e)
        if k == "gm":
            return self.gen_method(S, a[1], a[2], args, kw, e)
        if k == "hm":
            return self.history_method(S, a[1], args, kw, e)
        if k == "valm":
            return self.valid_method(S, a[1], args, kw, e)
        if k == "noop":
            return S, NONE
        if k == "k":
            return self.construct(S, a[1], args, kw, e)
        if k == "m":
            return self.external(S, a[1], args, kw, e)
        self.stats["unknown_calls"] += 1
        self.note_unknown(e, f"call of unknown ({k})")
        return S, TOP

    def call_local(self, S, f, args, kw, e):
        saved = dict(S.env)
        params = [x.arg for x in f.node.args.args]
        env = dict(S.env)
        for p, v in zip(params, args):
            env[p] = v if v is not RAISES else TOP
        for n, v in kw.items():
            if n:
                env[n] = v
        for p, d in zip(params[len(params) - len(f.node.args.defaults):], f.node.args.defaults):
            if p not in params[:len(args)] and p not in kw:
                S, env[p] = self.ev(S, d)
        S = S.copy()
        S.env = env
        fr = {"func": self.frames[-1]["func"], "self": None, "loops": []}
        self.frames.append(fr)
        out = self.block(S, f.node.body)
        self.frames.pop()
        rets = list(out.ret)
        if out.state is not None:
            rets.append((out.state, NONE))
        if not rets:
            return None, None
        R = None
        for st, v in rets:
            st = st.copy()
            st.env = {"$r": v}
            R = self.join(R, st)
        rv = R.env["$r"]
        R.env = saved
        return R, rv

    def call_lambda(self, S, a, args, kw, e):
        lam = a[1]
        saved = S.env
        env = dict(a[2])
        params = [x.arg for x in lam.args.args]
        for p, d in zip(params[len(params) - len(lam.args.defaults):], lam.args.defaults):
            S, env[p] = self.ev(S, d)
        for p, v in zip(params, args):
            env[p] = v if v is not RAISES else TOP
        for n, v in kw.items():
            if n:
                env[n] = v
        S.env = env
        S2, v = self.ev(S, lam.body)
        if S2 is None:
            return None, None
        S2.env = saved
        return S2, v

    # ------------------------------------------------------------------ candidates
    def copy_agent(self, S, aid, e):
        ag = S.ag[aid]
        f = dict(ag.fields)
        t = f.get("target")
        if t is None or t == NONE:
            self.event("none-target", e, f"copies a candidate whose objective value is missing in mode '{self.mode}'")
            f["target"] = TOP
        elif any(x[0] == "c" and x[2] is None for x in t):
            self.event("none-target", e, f"copies a candidate whose objective value may be missing in mode '{self.mode}'")
            f["target"] = frozenset(x for x in t if x[0] != "c") or TOP
        S.ag[next_id := next(self.ids)] = Ag(f, ag.site)
        return frozenset([("a", next_id)])

    def agent_method(self, S, name, aid, args, kw, e):
        if name == "copy":
            return S, self.copy_agent(S, aid, e)
        if name in ("update", "set_kwargs"):
            for k, v in kw.items():
                if k is None:
                    continue
                S = self.store_attr(S, frozenset([("a", aid)]), k, v, e)
            return S, NONE
        if name == "update_agent":
            vals = dict(zip(["solution", "target"], args))
            vals.update({k: v for k, v in kw.items() if k})
            for k, v in vals.items():
                S = self.store_attr(S, frozenset([("a", aid)]), k, v, e)
            return S, NONE
        if name in ("is_better_than", "_compare_fitness", "get_better_solution"):
            mm = kw.get("minmax", args[1] if len(args) > 1 else const("min"))
            self.check_minmax(S, mm, e, name)
            if name == "get_better_solution":
                other = kw.get("other", args[0] if args else TOP)
                return S, frozenset([("a", aid)]) | other
            if name == "_compare_fitness":
                return S, self.num()
            return S, TRUE | FALSE
        if name == "sync_if_duplicate":
            # copies the target of an (almost) equal candidate
            return S, TRUE | FALSE
        return S, TOP

    def construct(self, S, c: Class, args, kw, e):
        if c.name == "Agent" and c.module.name.endswith("utils.agent"):
            f = {}
            names = ["solution", "target"]
            for n, v in zip(names, args):
                f[n] = v
            for k, v in kw.items():
                if k:
                    f[k] = v
            f.setdefault("solution", NONE)
            f.setdefault("target", NONE)
            return S, self.new_ag(S, f, f"{self.where()}: {snip(e)}")
        if c.name == "Target":
            return S, frozenset([("t", self.fresh("handmade"))])
        if c.name == "Validator":
            return S, frozenset([("s", "validator")])
        if c.is_sub(self.base):
            self.note_unknown(e, "nested optimizer")
            return S, TOP
        # other package classes: opaque object
        return S, TOP

    # evaluation sink ---------------------------------------------------------
    def sink(self, S, V, e, how):
        """A candidate position V reaches the objective."""
        self.stats["sinks"] += 1
        c = self.cor_of(S, V)
        why = ""
        for a in V:
            if a[0] == "v":
                why = S.sto[a[1]].why or why
        k = (self.where(), snip(e), how)
        old = self.sinkset.get(k)
        self.sinkset[k] = c if old is None else join_cor(old, c)
        if c == NO:
            self.event("uncorrected", e, f"{how}: position was not corrected after its last modification ({why})", extra=why)
        elif c == UNK:
            self.stats["sinks_unk"] += 1

    def prim_get_target(self, S, A, e):
        V = A["solution"]
        self.sink(S, V, e, "get_target")
        self.stats["evals"] += 1
        vn = self.vn_of(S, V)
        cnt = self.single(A.get("counted", TRUE), "c")
        if cnt and cnt[2] is False:
            self.event("uncounted", e, "evaluates the objective without counting it")
        if vn is None or vn[0] not in ("s", "phi", "mut", "gen", "maymut"):
            if vn is None:
                return S, frozenset([("t", None)])
        return S, frozenset([("t", vn)])

    def prim_correct_solution(self, S, A, e):
        f = self.cls.lookup("amend_solution")
        V = A["solution"]
        if f is not None and f.cls is not self.base:
            S, V2 = self.call_func(S, f, [V], {}, e)
            if S is None:
                return None, None
            if V2 == NONE:
                self.event("amend-none", e, f"{f.where} returns None on some path")
        return S, self.new_sto(S, YES)

    def prim_amend_solution(self, S, A, e):
        return S, self.new_sto(S, NO, why="amend_solution only")

    def problem_method(self, S, name, args, kw, e):
        if name == "correct_solution":
            return S, self.new_sto(S, YES)
        if name == "generate_solution":
            enc = kw.get("encoded", args[0] if args else TRUE)
            return S, self.new_sto(S, YES if enc == TRUE else UNK)
        if name in ("get_target", "obj_func"):
            self.event("bypass-eval", e, f"calls problem.{name} directly, bypassing the counting interface")
            V = args[0] if args else kw.get("solution", kw.get("x", TOP))
            self.sink(S, V, e, f"problem.{name}")
            vn = self.vn_of(S, V)
            return S, frozenset([("t", vn)]) if name == "get_target" else self.num(fit=True)
        return S, TOP

    def check_minmax(self, S, mm, e, fn):
        c = self.single(mm, "c")
        self.stats["cmps"] += 1
        if c and isinstance(c[2], str) and c[2] in ("min", "max"):
            if c[2] != self.minmax:
                self.event("wrong-direction", e, f"{fn} is called with direction '{c[2]}' on a '{self.minmax}' problem", extra=fn)
            return True
        return False

    def use_labels(self, S, V, e, fn):
        """Candidates whose fitness is consulted."""
        for aid in self.pop_agents(S, V):
            lab = self.label(S, aid)
            if lab == "NONE":
                self.event("none-target", e, f"{fn} reads the objective value of a candidate that has none in mode '{self.mode}' "
                           f"(from {S.ag[aid].site})")
            elif lab == "STALE":
                self.event("stale-compare", e, f"{fn} ranks a candidate by the objective value of another solution in mode "
                           f"'{self.mode}' (from {S.ag[aid].site})")

    def pop_agents(self, S, V, depth=0):
        out = []
        for a in V:
            if a[0] == "a":
                out.append(a[1])
            elif a[0] == "l" and depth < 3:
                out += self.pop_agents(S, S.li[a[1]].all(), depth + 1)
        return out

    def pop_like(self, S, V):
        self.fold_lists(S, V)
        el, _ = self.seq_elems(S, V)
        return el

    def fold_lists(self, S, V):
        for l in self.lists_of(V):
            self.fold(S, l)

    def prim_compare_target(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "compare_target")
        return S, TRUE | FALSE

    def prim_compare_fitness(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "compare_fitness")
        return S, TRUE | FALSE

    def prim_get_better_agent(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "get_better_agent")
        V = A["agent_x"] | A["agent_y"]
        self.use_labels(S, V, e, "get_better_agent")
        ags = self.agents_of(V)
        if not ags:
            return S, TOP
        r = self.content_join(S, ags, fresh_copy=False)
        return S, r

    def prim_get_sorted_population(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "get_sorted_population")
        el = self.pop_like(S, A["pop"])
        self.use_labels(S, A["pop"], e, "get_sorted_population")
        return S, frozenset([("tu", (self.new_li(S, el), self.new_li(S, self.num())))])

    def prim_get_sorted_and_trimmed_population(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "get_sorted_and_trimmed_population")
        el = self.pop_like(S, A["pop"])
        self.use_labels(S, A["pop"], e, "get_sorted_and_trimmed_population")
        return S, self.new_li(S, el)

    def prim_get_special_agents(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "get_special_agents")
        el = self.pop_like(S, A["pop"])
        self.use_labels(S, A["pop"], e, "get_special_agents")
        ri = A.get("return_index", FALSE)
        out = [self.new_li(S, el)]
        for n in ("n_best", "n_worst"):
            if A.get(n) == NONE:
                out.append(NONE)
            elif ri == TRUE:
                out.append(self.new_li(S, self.num()))
            else:
                ags = [a[1] for a in el if a[0] == "a"]
                out.append(self.new_li(S, self.content_join(S, ags, fresh_copy=False) if ags else TOP))
        return S, frozenset([("tu", tuple(out))])

    def _best(self, S, A, e, fn):
        self.check_minmax(S, A["minmax"], e, fn)
        el = self.pop_like(S, A["pop"])
        self.use_labels(S, A["pop"], e, fn)
        ags = [a[1] for a in el if a[0] == "a"]
        r = self.content_join(S, ags, fresh_copy=False) if ags else TOP
        return S, frozenset([("tu", (r, self.num()))])

    def prim_get_best_agent(self, S, A, e):
        return self._best(S, A, e, "get_best_agent")

    def prim_get_worst_agent(self, S, A, e):
        return self._best(S, A, e, "get_worst_agent")

    def prim_get_special_fitness(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "get_special_fitness")
        self.use_labels(S, A["pop"], e, "get_special_fitness")
        return S, frozenset([("tu", (self.num(), self.num(fit=True), self.num(fit=True)))])

    def prim_greedy_selection_population(self, S, A, e):
        self.check_minmax(S, A["minmax"], e, "greedy_selection_population")
        self.use_labels(S, A["pop_old"], e, "greedy_selection_population")
        self.use_labels(S, A["pop_new"], e, "greedy_selection_population")
        el = self.pop_like(S, A["pop_old"]) | self.pop_like(S, A["pop_new"])
        return S, self.new_li(S, self.capl(S, el))

    def prim_duplicate_pop(self, S, A, e):
        el = self.pop_like(S, A["pop"])
        ags = [a[1] for a in el if a[0] == "a"]
        return S, self.new_li(S, self.content_join(S, ags, fresh_copy=False) if ags else frozenset())

    def prim_generate_group_population(self, S, A, e):
        el = self.pop_like(S, A["pop"])
        ags = [a[1] for a in el if a[0] == "a"]
        g = self.new_li(S, self.content_join(S, ags, fresh_copy=False) if ags else TOP)
        return S, self.new_li(S, g)

    def prim_update_target_for_population(self, S, A, e):
        V = A["pop"]
        self.fold_lists(S, V)
        ags = self.pop_agents(S, V)
        if self.mode == "single":
            return S, V
        fresh_ok = [a for a in ags if self.label(S, a) == "OK"]
        if ags and len(fresh_ok) == len(ags) and not any(x[0] == "top" for x in self.seq_elems(S, V)[0]):
            self.event("double-eval", e, f"evaluates candidates that already carry the value of their solution in mode '{self.mode}'",
                       extra=S.ag[ags[0]].site)
        for a in ags:
            sol = S.ag[a].fields.get("solution")
            if sol is None:
                continue
            self.sink(S, sol, e, f"update_target_for_population (candidate from {S.ag[a].site})")
            self.stats["evals"] += 1
            vn = self.vn_of(S, sol)
            S.ag[a] = S.ag[a].w("target", frozenset([("t", vn)]) if vn is not None else TOP)
        return S, V

    def prim_update_global_best_agent(self, S, A, e):
        V = A["pop"]
        el = self.pop_like(S, V)
        self.use_labels(S, V, e, "update_global_best_agent")
        ags = [a[1] for a in el if a[0] == "a"]
        sv = A.get("save", TRUE)
        if self.phase == "evolve":
            c = self.single(sv, "c")
            if not (c and c[2] is False):
                self.event("extra-history", e, "a search step adds its own entries to the per-epoch history")
            else:
                self.event("history-rewrite", e, "a search step rewrites the last entries of the history, which describe the epoch before")
        gb = S.sa.get("g_best", NONE)
        ags2 = ags + self.agents_of(gb)
        r = self.content_join(S, ags2, fresh_copy=False) if ags2 else TOP
        return S, frozenset([("tu", (self.new_li(S, el), r))])

    def prim_track_optimize_step(self, S, A, e):
        if self.phase in ("evolve", "init", "pre") or not self.in_base():
            self.event("extra-history", e, "a search step adds its own entries to the per-epoch history")
        return S, NONE

    def prim_track_optimize_process(self, S, A, e):
        self.event("history-use", e, "a search step drops entries of the history")
        return S, NONE

    def prim_sample_indexes_exclude_one(self, S, A, e):
        c = self.single(A["n_samples"], "c")
        if c and c[2] == 1:
            return S, self.num()
        return S, self.new_li(S, self.num())

    prim_sample_indexes_exclude_list = prim_sample_indexes_exclude_one

    def prim_get_index_roulette_wheel_selection(self, S, A, e):
        return S, self.num()

    def prim_get_index_kway_tournament_selection(self, S, A, e):
        return S, self.new_li(S, self.num())

    def prim_get_levy_flight_step(self, S, A, e):
        return S, self.new_sto(S, NO, why="levy step")

    def prim_generate_opposition_solution(self, S, A, e):
        return S, self.new_sto(S, YES)

    def prim_crossover_arithmetic(self, S, A, e):
        return S, frozenset([("tu", (self.new_sto(S, NO, why="crossover"), self.new_sto(S, NO, why="crossover")))])

    def prim_set_parameters(self, S, A, e):
        return S, NONE

    def prim_get_name(self, S, A, e):
        return S, frozenset([("str",)])

    # ------------------------------------------------------------------ builtin objects
    def array_method(self, S, name, sid, args, kw, e):
        s = S.sto[sid]
        if name == "copy":
            return S, self.new_sto(S, s.cor, why=s.why, vn=s.vn, fit=s.fit, rows=s.rows)
        if name == "astype":
            return S, self.new_sto(S, UNK if s.cor == YES else s.cor, why=s.why or snip(e), fit=s.fit)
        if name in ("reshape", "ravel", "squeeze", "view", "transpose", "swapaxes"):
            return S, self.view(S, sid)
        if name == "flatten":
            return S, self.new_sto(S, UNK, fit=s.fit)
        if name in ("sort", "fill", "put", "itemset", "partition", "resize"):
            if s.fit and name == "sort":
                self.dir_event(S, e, "sort", "sort")
            self.mutate(S, sid, e, f".{name}()")
            return S, NONE
        if name == "tolist":
            el = self.new_sto(S, s.rows, why=s.why) if s.rows is not None else self.num(fit=s.fit)
            return S, self.new_li(S, el)
        if name in ("min", "max", "sum", "mean", "std", "item", "any", "all", "prod", "ptp", "dot", "argmin", "argmax", "var"):
            if s.fit and name in ("argmin", "argmax"):
                self.dir_event(S, e, name, name)
            if name in ("min", "max", "item"):
                return S, self.num(fit=s.fit)
            if name in ("any", "all"):
                return S, TRUE | FALSE
            return S, self.new_sto(S, NO, why=snip(e)) if (args or kw) else self.num()
        if name == "argsort":
            if s.fit:
                self.dir_event(S, e, "argsort", "argsort")
            return S, self.new_li(S, self.num())
        return S, self.new_sto(S, UNK, why=snip(e))

    def list_method(self, S, name, lid, args, kw, e):
        l = S.li[lid]
        if name in LIST_MUT:
            self.note_mut(S, ("l", lid), e)
        if name == "append" and args:
            self.fold(S, lid)
            l = S.li[lid]
            v = args[0] if args[0] is not RAISES else TOP
            S.li[lid] = l.w(elems=self.capl(S, l.elems | v), last=((l.last or ()) + (v,))[-4:],
                            ln=("+", l.ln[1]) if l.ln and l.ln[0] == "it" else None)
            return S, NONE
        if name == "add" and args:
            S.li[lid] = l.w(elems=self.capl(S, l.elems | args[0]), last=None)
            return S, NONE
        if name == "insert" and len(args) > 1:
            self.fold(S, lid)
            l = S.li[lid]
            S.li[lid] = l.w(elems=self.capl(S, l.elems | args[1]), last=None)
            return S, NONE
        if name in ("extend", "update") and args:
            el, _ = self.seq_elems(S, args[0]) if args[0] is not RAISES else (TOP, None)
            self.fold(S, lid)
            l = S.li[lid]
            S.li[lid] = l.w(elems=self.capl(S, l.elems | el), last=self.recents(S, l, args[0]) if args[0] is not RAISES else None)
            return S, NONE
        if name in ("pop", "insert", "remove", "extend", "update", "discard", "add", "clear"):
            S.li[lid] = S.li[lid].w(ln=None)
        if name in ("pop", "insert", "remove", "reverse", "sort"):
            self.unalias(S, lid)
        if name in ("pop",):
            self.fold(S, lid)
            l = S.li[lid]
            el = l.elems
            S.li[lid] = l.w(last=None)
            ags = [a for a in el if a[0] == "a"]
            if ags:
                return S, frozenset(ags)
            return S, el or TOP
        if name in ("clear",):
            S.li[lid] = Li(frozenset(), None, {}, l.split, l.kind, ln=("c", 0))
            return S, NONE
        if name in ("remove", "reverse", "discard"):
            self.fold(S, lid)
            S.li[lid] = S.li[lid].w(last=None)
            return S, NONE
        if name == "sort":
            self.fold(S, lid)
            S.li[lid] = S.li[lid].w(last=None)
            self.sort_event(S, frozenset([("l", lid)]), kw, e)
            return S, NONE
        if name == "copy":
            return S, self.alias_copy(S, lid)
        if name in ("index", "count"):
            return S, self.num()
        if name in ("difference", "union", "intersection", "symmetric_difference"):
            el = l.all()
            for a in args:
                if a is not RAISES:
                    el = el | self.seq_elems(S, a)[0]
            return S, self.new_li(S, el, kind="set")
        if name in ("tolist",):
            return S, frozenset([("l", lid)])
        if name in ("issubset", "issuperset", "isdisjoint"):
            return S, TRUE | FALSE
        self.note_unknown(e, f"list.{name}")
        return S, TOP

    def sort_event(self, S, V, kw, e):
        key = kw.get("key")
        rev = kw.get("reverse", FALSE)
        fit = False
        if key is not None:
            fit = self.key_fit(S, V, key, e)
        else:
            fit = self.fitness_like(S, V)
        if fit:
            c = self.single(rev, "c")
            self.dir_event(S, e, f"sort(reverse={c[2] if c else '?'})", "sort")
        return fit

    def dict_method(self, S, name, did, args, kw, e):
        d = S.di[did]
        if name in LIST_MUT or name in ("setdefault", "popitem"):
            self.note_mut(S, ("d", did), e)
        if name in ("get", "pop", "setdefault") and args:
            c = self.single(args[0], "c")
            if c and c[2] in d:
                return S, d[c[2]]
            r = frozenset()
            for v in d.values():
                r = r | v
            if len(args) > 1:
                r = r | args[1]
            return S, r or TOP
        if name == "values":
            r = frozenset()
            for v in d.values():
                r = r | v
            return S, self.new_li(S, r)
        if name == "items":
            r = frozenset()
            for v in d.values():
                r = r | v
            return S, self.new_li(S, frozenset([("tu", (frozenset([("n", ("dkey", did), False)]), r or TOP))]))
        if name == "keys":
            return S, self.new_li(S, frozenset([("n", ("dkey", did), False)]))
        if name == "update":
            d = dict(d)
            d.update({k: v for k, v in kw.items() if k})
            S.di[did] = d
            return S, NONE
        return S, TOP

    def gen_method(self, S, gen, name, args, kw, e):
        if name in ("shuffle",):
            for v in args:
                if v is RAISES:
                    continue
                for a in v:
                    if a[0] == "l":
                        self.fold(S, a[1])
                        S.li[a[1]] = S.li[a[1]].w(last=None)
                    elif a[0] == "v":
                        self.mutate(S, a[1], e, f"{gen}.shuffle")
            return S, NONE
        if name in ("choice", "sample", "choices", "permutation") and args and args[0] is not RAISES:
            V = args[0]
            el = frozenset()
            src_l = self.has(V, "l") or self.has(V, "tu")
            if src_l:
                el, _ = self.seq_elems(S, V)
            many = name in ("sample", "choices", "permutation") or len(args) > 1 or "size" in kw or "k" in kw
            if any(a[0] in ("a", "l") for a in el):
                if many:
                    return S, self.new_li(S, el)
                return S, frozenset(a for a in el)
            if many:
                if name in ("sample", "choices"):
                    return S, self.new_li(S, el or self.num())
                fit = bool(el) and all(a[0] == "n" and a[2] for a in el)
                if el and any(a[0] == "v" for a in el):
                    return S, self.new_sto(S, NO, why=snip(e))
                return S, self.new_li(S, self.num(fit=fit))
            if el and not any(a[0] == "v" for a in el):
                if all(a[0] == "c" for a in el):
                    return S, el
                return S, self.num()
            return S, self.num() if not self.has(V, "v") else self.num()
        if name in ("random", "uniform", "normal", "integers", "randint", "randrange", "gauss", "rand", "standard_normal", "standard_cauchy",
                    "standard_t", "exponential", "gamma", "beta", "poisson", "rayleigh", "laplace", "cauchy", "triangular", "weibull",
                    "multivariate_normal", "lognormal", "binomial", "power", "random_sample"):
            size = "size" in kw or "shape" in kw
            nsc = {"random": 0, "standard_normal": 0, "standard_cauchy": 0, "uniform": 2, "normal": 2, "integers": 2, "gamma": 2, "beta": 2,
                   "exponential": 1, "poisson": 1, "rayleigh": 1, "standard_t": 1, "triangular": 3}.get(name, 2)
            arr = size or len(args) > nsc or any(v is not RAISES and self.has(v, "v") for v in args) or \
                any(self.has(v, "v") for v in kw.values())
            if arr:
                return S, self.new_sto(S, NO, why=snip(e))
            return S, self.num()
        return S, self.new_sto(S, NO, why=snip(e))

    MUTATORS = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "store_initial_best_worst",
                "set_kwargs", "__init__", "__setattr__")

    def history_method(self, S, name, args, kw, e):
        if not self.in_base() and name.split(".")[-1] in self.MUTATORS:
            self.event("history-use", e, f"search step calls history.{name}", extra=name)
        return S, TOP

    def valid_method(self, S, name, args, kw, e):
        v = kw.get("value", args[1] if len(args) > 1 else TOP)
        if name == "check_bool":
            c = self.single(v, "c")
            return S, v if c else TRUE | FALSE
        if name in ("check_int", "check_float"):
            if v is RAISES:
                return S, self.num()
            if all(a[0] in ("n",) for a in v):
                return S, v
            c = self.single(v, "c")
            return S, self.num(vn=("param", c[2]) if c else None)
        if name in ("check_str", "check_tuple_int", "check_tuple_float", "check_list_tuple"):
            return S, v if v is not RAISES else TOP
        return S, v if v is not RAISES else TOP

    # ------------------------------------------------------------------ external functions
    def external(self, S, q, args, kw, e):
        args = [a if a is not RAISES else TOP for a in args]
        if q.startswith("builtins."):
            return self.builtin(S, q[9:], args, kw, e)
        short = q
        for p in ("numpy.", "np."):
            if q.startswith(p):
                return self.np_call(S, q[len(p):], args, kw, e)
        if q in ("copy.deepcopy", "copy.copy"):
            deep = q.endswith("deepcopy")
            return S, self.deepcopy(S, args[0], deep) if args else TOP
        if q.startswith("math.") or q.startswith("scipy."):
            if any(self.has(a, "v") for a in args):
                return S, self.new_sto(S, NO, why=snip(e))
            return S, self.num()
        if q.startswith("random.") or q.startswith("time."):
            self.event("global-random" if q.startswith("random.") else "time-use", e, f"calls {q}")
            return S, self.num()
        if q.startswith("functools.partial"):
            return S, TOP
        if q.startswith("itertools."):
            el = frozenset()
            for a in args:
                el = el | self.seq_elems(S, a)[0]
            if q.endswith("chain") or q.endswith("cycle"):
                return S, self.new_li(S, el)
            return S, TOP
        self.stats["unknown_calls"] += 1
        self.note_unknown(e, f"external {q}")
        return S, TOP

    def deepcopy(self, S, V, deep, depth=0):
        r = frozenset()
        for a in V:
            if a[0] == "v":
                s = S.sto[a[1]]
                r = r | self.new_sto(S, s.cor, why=s.why, vn=s.vn, fit=s.fit, rows=s.rows)
            elif a[0] == "a":
                g = S.ag[a[1]]
                f = {}
                for n, v in g.fields.items():
                    f[n] = self.deepcopy(S, v, True, depth + 1) if deep and depth < 3 else v
                r = r | self.new_ag(S, f, g.site)
            elif a[0] == "l":
                self.fold(S, a[1])
                l = S.li[a[1]]
                el = l.elems
                if deep:
                    ags = [x[1] for x in el if x[0] == "a"]
                    o = frozenset(x for x in el if x[0] != "a")
                    el = frozenset()
                    if ags:
                        j = self.content_join(S, ags, fresh_copy=False)
                        el = self.deepcopy(S, j, True, depth + 1)
                    if o and depth < 3:
                        el = el | self.deepcopy(S, o, True, depth + 1)
                r = r | self.new_li(S, el, kind=l.kind)
            else:
                r = r | frozenset([a])
        return r

    def builtin(self, S, n, args, kw, e):
        if n == "len":
            if args and self.single(args[0], "tu"):
                return S, const(len(self.single(args[0], "tu")[1]))
            ls = self.lists_of(args[0]) if args else []
            return S, self.num(vn=("len", tuple(sorted(map(str, args[0])))) if args and ls else None)
        if n in ("list", "tuple", "sorted", "reversed", "set", "frozenset"):
            if not args:
                return S, self.new_li(S, kind="set" if n in ("set", "frozenset") else "list")
            if n == "tuple" and self.single(args[0], "tu"):
                return S, args[0]
            el, _ = self.seq_elems(S, args[0])
            if n == "sorted":
                self.sort_event(S, args[0], kw, e)
            return S, self.new_li(S, el, kind="set" if n in ("set", "frozenset") else "list")
        if n in ("min", "max"):
            if len(args) == 1:
                fit = self.sort_fit(S, args[0], kw, e)
                el, _ = self.seq_elems(S, args[0])
                if fit and any(a[0] in ("a", "tu", "l") for a in el):
                    self.dir_event(S, e, n, n)
                if el and all(a[0] == "n" for a in el):
                    return S, self.num(fit=any(a[2] for a in el))
                return S, el or TOP
            fit = any(self.fitness_like(S, a) for a in args)
            allfit = all(self.fitness_like(S, a) for a in args) and len(args) > 1
            if allfit:
                self.dir_event(S, e, n, n)
            if any(self.has(a, "v") for a in args):
                return S, self.new_sto(S, NO, why=snip(e))
            return S, self.num(fit=allfit)
        if n in ("int", "float", "abs", "round", "sum", "pow", "divmod", "complex"):
            if n in ("int", "float", "round") and args:
                v = self.vn_of(S, args[0])
                if n == "float" and args[0] and all(a[0] == "n" for a in args[0]):
                    return S, args[0]
                return S, self.num(vn=(n, v) if v is not None else None)
            if n in ("abs", "sum") and args and self.has(args[0], "v"):
                return S, self.new_sto(S, NO, why=snip(e))
            if n == "sum" and args:
                el, _ = self.seq_elems(S, args[0])
                if any(a[0] == "v" for a in el):
                    return S, self.new_sto(S, NO, why=snip(e))
            return S, self.num()
        if n == "bool":
            t = self.truth(S, args[0]) if args else False
            return S, const(t) if t is not None else TRUE | FALSE
        if n in ("isinstance", "hasattr", "callable", "issubclass", "any", "all"):
            if n == "hasattr" and len(args) == 2:
                c = self.single(args[1], "c")
                if c and args[0] == frozenset([("s", "self")]) and not self.cls.lookup(c[2]):
                    self.note_read(S, c[2], e, probe=True)
                if c and args[0] == frozenset([("s", "self")]):
                    return S, const(True) if c[2] in S.sa or self.cls.lookup(c[2]) else TRUE | FALSE
                ags = self.agents_of(args[0])
                if c and ags and all(c[2] in S.ag[a].fields for a in ags):
                    return S, TRUE
            if n == "isinstance" and len(args) == 2:
                ks = self.kinds(args[0])
                if args[1] == frozenset([("m", "builtins.str")]) and all(a[0] == "c" for a in args[0]):
                    rs = {isinstance(a[2], str) for a in args[0]}
                    if len(rs) == 1:
                        return S, const(rs.pop())
            return S, TRUE | FALSE
        if n in ("str", "repr", "format"):
            return S, frozenset([("str",)])
        if n == "print":
            return S, NONE
        if n == "range":
            return S, self.new_li(S, self.num())
        if n == "enumerate" and args:
            el, _ = self.seq_elems(S, args[0])
            return S, self.new_li(S, frozenset([("tu", (self.num(), el or TOP))]))
        if n == "zip":
            return S, self.new_li(S, frozenset([("tu", tuple(self.seq_elems(S, a)[0] or TOP for a in args))]))
        if n == "map":
            return self.map_call(S, args, e)
        if n == "filter":
            el, _ = self.seq_elems(S, args[1]) if len(args) > 1 else (TOP, None)
            return S, self.new_li(S, el)
        if n == "getattr" and len(args) >= 2:
            c = self.single(args[1], "c")
            if c and isinstance(c[2], str):
                if args[0] == frozenset([("s", "self")]) and not self.cls.lookup(c[2]):
                    self.note_read(S, c[2], e, probe=True)
                if len(args) > 2 and args[0] == frozenset([("s", "self")]) and c[2] not in S.sa and not self.cls.lookup(c[2]):
                    return S, args[2]
                ags = self.agents_of(args[0])
                if len(args) > 2 and ags and not all(c[2] in S.ag[a].fields for a in ags):
                    return S, args[2] | TOP
                return self.get_attr(S, args[0], c[2], e)
            return S, TOP
        if n == "setattr" and len(args) == 3:
            c = self.single(args[1], "c")
            if c:
                S = self.store_attr(S, args[0], c[2], args[2], e)
            elif self.has(args[0], "a"):
                for a in self.agents_of(args[0]):
                    self.note_unknown(e, "setattr dynamic")
            return S, NONE
        if n == "dict":
            did = next(self.ids)
            d = {k: v for k, v in kw.items() if k}
            if args:
                d["*"] = TOP
            S.di[did] = d
            return S, frozenset([("d", did)])
        if n == "super":
            return S, TOP
        if n == "type":
            return S, TOP
        if n == "next" or n == "iter":
            el, _ = self.seq_elems(S, args[0]) if args else (TOP, None)
            return S, (el or TOP) if n == "next" else args[0]
        if n in BUILTINS:
            return S, TOP
        return S, TOP

    def sort_fit(self, S, V, kw, e):
        key = kw.get("key")
        if key is None:
            return self.fitness_like(S, V)
        return self.key_fit(S, V, key, e)

    def key_fit(self, S, V, key, e):
        """Does the key function of an ordering give objective values?"""
        if len(key) != 1 or next(iter(key))[0] not in ("lam", "lf", "f"):
            return False
        el, _ = self.seq_elems(S, V)
        S2 = S.copy()
        ags = [a[1] for a in el if a[0] == "a"]
        probe = self.content_join(S2, ags, fresh_copy=False) if ags else (el or TOP)
        S2, r = self.call_atom(S2, next(iter(key)), [probe], {}, e)
        return S2 is not None and r is not None and self.fitness_like(S2, r)

    def map_call(self, S, args, e):
        if len(args) < 2:
            return S, TOP
        el, _ = self.seq_elems(S, args[1])
        S.env["$map"] = el
        res = frozenset()
        for f in args[0]:
            S, v = self.call_atom(S, f, [el], {}, e)
            if S is None:
                return None, None
            res = res | v
        return S, self.new_li(S, res)

    def np_call(self, S, n, args, kw, e):
        if n.startswith("random."):
            self.event("global-random", e, f"draws from numpy's global random state (np.{n})")
            return S, self.new_sto(S, NO, why=snip(e))
        if n in ("array", "asarray", "copy", "vstack", "stack", "asfarray", "ascontiguousarray", "row_stack", "ma.array"):
            if not args:
                return S, self.new_sto(S, UNK)
            V = args[0]
            v = self.single(V, "v")
            if v:
                s = S.sto[v[1]]
                if n in ("asarray",) and len(args) == 1 and not kw:
                    return S, V
                if n in ("array", "copy", "asfarray", "ascontiguousarray", "asarray"):
                    c = s.cor
                    if (len(args) > 1 or "dtype" in kw) and c == YES:
                        c = UNK
                    return S, self.new_sto(S, c, why=s.why, vn=s.vn if c == s.cor else None, fit=s.fit, rows=s.rows)
            if self.has(V, "l") or self.has(V, "tu"):
                el, _ = self.seq_elems(S, V)
                fit = bool(el) and all(a[0] == "n" and a[2] for a in el)
                rows = None
                if el and all(a[0] == "v" for a in el):
                    for a in el:
                        rows = S.sto[a[1]].cor if rows is None else join_cor(rows, S.sto[a[1]].cor)
                    why = next((S.sto[a[1]].why for a in el if S.sto[a[1]].cor == NO), "")
                    return S, self.new_sto(S, UNK if len(el) else NO, why=why, rows=rows)
                if el and all(a[0] in ("n", "c") for a in el):
                    return S, self.new_sto(S, NO, why=snip(e), fit=fit)
                return S, self.new_sto(S, UNK, why=snip(e), fit=fit)
            if self.has(V, "v"):
                return S, self.new_sto(S, UNK, why=snip(e), fit=any(S.sto[a[1]].fit for a in V if a[0] == "v"))
            return S, self.new_sto(S, UNK, why=snip(e))
        if n in ("argsort", "argmin", "argmax", "argpartition", "lexsort", "nanargmin", "nanargmax"):
            if args and self.fitness_like(S, args[0]):
                self.dir_event(S, e, n, n)
            if n in ("argmin", "argmax", "nanargmin", "nanargmax"):
                return S, self.num()
            return S, self.new_li(S, self.num())
        if n in ("sort", "msort"):
            f = bool(args) and self.fitness_like(S, args[0])
            return S, self.new_sto(S, NO, why=snip(e), fit=f)
        if n in ("min", "max", "amin", "amax", "nanmin", "nanmax"):
            f = bool(args) and self.fitness_like(S, args[0])
            if self.has(kw.get("axis", frozenset()), "c") or len(args) > 1:
                return S, self.new_sto(S, NO, why=snip(e))
            return S, self.num(fit=f)
        if n in ("less", "greater", "less_equal", "greater_equal", "minimum", "maximum"):
            if len(args) == 2 and all(self.fitness_like(S, a) for a in args):
                self.dir_event(S, e, n, n)
            return S, self.new_sto(S, NO, why=snip(e))
        if n in ("put", "copyto", "place", "putmask", "fill_diagonal"):
            for a in args[0]:
                if a[0] == "v":
                    self.mutate(S, a[1], e, f"np.{n}")
            return S, NONE
        if "out" in kw:
            for a in kw["out"]:
                if a[0] == "v":
                    self.mutate(S, a[1], e, f"np.{n}(out=)")
            return S, kw["out"]
        if n in ("ravel", "reshape", "squeeze", "transpose", "atleast_1d", "atleast_2d", "broadcast_to"):
            v = self.single(args[0], "v") if args else None
            if v:
                return S, self.view(S, v[1])
            return S, self.new_sto(S, UNK, why=snip(e))
        if n in ("any", "all", "isnan", "allclose", "array_equal", "isclose", "isinf", "isscalar"):
            return S, TRUE | FALSE
        if n in ("sum", "mean", "std", "prod", "ptp", "median", "var", "dot", "linalg.norm", "abs", "exp", "sqrt", "log", "power", "cos", "sin",
                 "floor", "ceil", "round", "tan", "tanh", "sign", "arctan", "log10", "log2", "square", "absolute", "fabs", "rint", "mod"):
            if all(all(x[0] in ("n", "c") for x in a) for a in args) and not kw:
                return S, self.num(vn=("np", n, tuple(self.vn_of(S, a) or self.fresh() for a in args)))
            if n in ("sum", "mean", "std", "prod", "ptp", "median", "var") and "axis" not in kw and len(args) == 1:
                el, _ = self.seq_elems(S, args[0])
                return S, self.num(fit=n in ("sum", "mean", "median") and self.fitness_like(S, args[0]))
            return S, self.new_sto(S, NO, why=snip(e))
        if n in ("concatenate", "hstack", "append", "delete", "unique", "take", "flip", "flipud", "roll", "repeat", "tile"):
            fit = bool(args) and self.fitness_like(S, args[0])
            if n in ("flip",) and fit:
                return S, self.new_sto(S, UNK, fit=True)
            return S, self.new_sto(S, NO, why=snip(e), fit=fit)
        if n in ("where", "nonzero", "flatnonzero") and len(args) == 1:
            return S, self.new_li(S, self.new_li(S, self.num()))
        if n in ("random",):
            return S, TOP
        if n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like", "empty_like", "eye", "arange", "linspace", "identity"):
            return S, self.new_sto(S, NO, why=snip(e))
        if n in ("float64", "int64", "float32", "int32", "float_", "int_", "uint8"):
            return S, self.num()
        if n in ("inf", "pi", "e"):
            return S, self.num()
        return S, self.new_sto(S, NO, why=snip(e))

    # ------------------------------------------------------------------ the lifecycle
    def boundary(self, S):
        """End of a phase: everything the population and records hold becomes shared history."""
        S = S.copy()
        self.fold_all(S)
        ags = set(self.pop_agents(S, S.sa.get("pop", NONE))) | set(self.agents_of(S.sa.get("g_best", NONE))) | \
            set(self.agents_of(S.sa.get("g_worst", NONE)))
        for a in ags:
            for n, V in S.ag[a].fields.items():
                if n == "solution":
                    work = [x[1] for x in V if x[0] == "v"]
                    seen = set()
                    while work:
                        x = work.pop()
                        if x in seen or x not in S.sto:
                            continue
                        seen.add(x)
                        S.sto[x] = S.sto[x].w(shared=True)
                        work += list(S.sto[x].alts)
        return S

    def gc(self, S):
        """Drop unreachable heap objects and compress the population."""
        seen = set()
        S2 = State()
        S2.env, S2.sa, S2.df = {}, S.sa, S.df
        work = [V for V in S.sa.values() if V]
        while work:
            V = work.pop()
            for a in V:
                if a in seen:
                    continue
                seen.add(a)
                if a[0] == "v" and a[1] in S.sto:
                    s = S.sto[a[1]]
                    S2.sto[a[1]] = s
                    for x in s.alts:
                        if ("v", x) not in seen:
                            work.append(frozenset([("v", x)]))
                elif a[0] == "a":
                    S2.ag[a[1]] = S.ag[a[1]]
                    work += [v for v in S.ag[a[1]].fields.values() if v]
                elif a[0] == "l":
                    S2.li[a[1]] = S.li[a[1]]
                    work.append(S.li[a[1]].all())
                elif a[0] == "d":
                    S2.di[a[1]] = S.di[a[1]]
                    work += list(S.di[a[1]].values())
                elif a[0] == "tu":
                    work += list(a[1])
                elif a[0] == "lam":
                    work += [v for _, v in a[2]]
        return S2

    def check_pop(self, S, phase):
        V = S.sa.get("pop", NONE)
        for aid in self.pop_agents(S, V):
            for pre in ("",):
                lab = self.label(S, aid, pre)
                self.stats["agents_checked"] += 1
                site = S.ag[aid].site
                if lab in ("STALE", "NONE"):
                    e = Event(rule="pop-" + lab.lower(), where=site.split(": ", 1)[0], what=site.split(": ", 1)[-1],
                              detail=f"after {phase} in mode '{self.mode}' a member of self.pop holds "
                                     + ("no objective value" if lab == "NONE" else "the objective value of a different solution"),
                              cls=self.cls.short, mode=self.mode, minmax=self.minmax, phase=phase)
                    self.events.setdefault(e.key(), e)
                elif lab == "UNK":
                    self.stats["agents_unknown"] += 1
            if S.ag[aid].fields.get("solution"):
                c = self.cor_of(S, S.ag[aid].fields["solution"])
                if c == NO and self.label(S, aid) == "OK":
                    pass
        if not self.pop_agents(S, V):
            self.stats["agents_unknown"] += 1

    def run(self):
        S = State()
        SELF = ("s", "self")
        init = self.cls.lookup("__init__")
        self.frames.append({"func": Func("solve", _DUMMY, self.base.module, self.base), "self": None, "loops": []})
        node = _DUMMY.body[0]
        # constructor with symbolic parameters
        self.phase = "init"
        for n in ("epoch", "pop_size", "mode", "n_workers", "name", "pop", "g_best", "g_worst", "problem", "logger", "history"):
            S.sa[n] = NONE
        a = init.node.args
        kw = {}
        for p in [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]:
            kw[p] = frozenset([("n", ("param", p), False)])
        for p, d in zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults):
            lv = self.lit(d)
            c = self.single(lv, "c")
            if c and isinstance(c[2], (str, bool)):
                kw[p] = lv if isinstance(c[2], str) else TRUE | FALSE
            elif c and c[2] is None:
                kw[p] = TOP
            elif c and isinstance(c[2], tuple):
                kw[p] = frozenset([("tu", tuple(self.num(vn=("param", p, i)) for i in range(len(c[2]))))])
            elif c is None and isinstance(d, (ast.List, ast.Tuple)):
                kw[p] = TOP
        S.sa.update({"validator": frozenset([("s", "validator")])})
        S2, _ = self.call_func(S, init, [], {k: v for k, v in kw.items()}, node)
        if S2 is None:
            return self
        S = S2
        S.sa.update({"problem": frozenset([("s", "problem")]), "generator": frozenset([("s", "generator")]), "rng": frozenset([("s", "rng")]),
                     "history": frozenset([("s", "history")]), "logger": frozenset([("s", "logger")]), "validator": frozenset([("s", "validator")]),
                     "mode": const(self.mode), "pop": NONE, "g_best": NONE, "g_worst": NONE, "nfe_counter": self.num(), "n_workers": self.num(),
                     "termination": TOP, "name": frozenset([("str",)]), "parameters": TOP, "params_name_ordered": TOP})
        S.df = frozenset(FRAMEWORK)
        S = self.gc(S)
        self.ctor = {a for a in S.sa if a not in FRAMEWORK}
        self.start_carry(S)

        def call(S, name, args, phase):
            self.phase = phase
            f = self.cls.lookup(name)
            if f is None:
                return S
            S2, v = self.call_func(S, f, args, {}, node)
            return S2
        S = call(S, "initialize_variables", [], "initialize_variables")
        if S is None:
            return self
        if self.given:          # starting positions, feasible as the caller promises
            row = self.new_sto(S, YES, shared=True)
            S = call(S, "before_initialization", [self.new_li(S, row)], "before_initialization")
        else:
            S = call(S, "before_initialization", [NONE], "before_initialization")
        if S is None:
            return self
        S = call(S, "initialization", [], "initialization")
        if S is None:
            return self
        self.check_pop(S, "initialization")
        S = call(S, "after_initialization", [], "after_initialization")
        if S is None:
            return self
        S = self.mark_records(self.boundary(S))
        S = call(S, "before_main_loop", [], "before_main_loop")
        if S is None:
            return self
        self.check_pop(S, "before_main_loop")
        S = self.mark_records(self.boundary(S))
        S = self.gc(S)
        self.phase = "loop"
        self.note_read(S, "epoch", None)        # the run loop reads the number of epochs
        head = S
        for k in range(self.epochs):
            H = head.copy()
            H.env = {}
            ep = frozenset([("n", ("epoch", k), False)])
            H = call(H, "evolve", [ep], "evolve")
            if H is None:
                break
            self.fold_all(H)
            self.check_pop(H, "evolve")
            # update_global_best_agent by solve
            ags = self.pop_agents(H, H.sa.get("pop", NONE))
            gb = self.agents_of(H.sa.get("g_best", NONE))
            if ags:
                H.sa["g_best"] = self.content_join(H, ags + gb, fresh_copy=False)
            H = self.mark_records(self.boundary(H))
            H = self.compress(H)
            H = self.gc(H)
            df = H.df if k == 0 else head.df        # at least one epoch ran before every further one
            head = self.join(head, H)
            head.df = df
            head = self.compress(head)
        return self

    def mark_records(self, S):
        for n in ("g_best", "g_worst"):
            for a in self.agents_of(S.sa.get(n, NONE)):
                g = S.ag[a]
                S.ag[a] = Ag(g.fields, g.site, True)
        return S

    def compress(self, S):
        V = S.sa.get("pop", NONE)
        ls = self.lists_of(V)
        if len(ls) >= 1 and len(V) == len(ls):
            el = frozenset()
            for l in ls:
                el = el | S.li[l].all()
            ags = [a[1] for a in el if a[0] == "a"]
            rest = frozenset(a for a in el if a[0] != "a")
            if len(ags) > 1 or len(ls) > 1:
                # merge into one list (identity of other holders of the lists is kept when only one list)
                j = self.content_join(S, ags, fresh_copy=False) if ags else frozenset()
                # keep storage sharing
                for a in self.agents_of(j):
                    for x in S.ag[a].fields.get("solution", ()):
                        if x[0] == "v":
                            S.sto[x[1]] = S.sto[x[1]].w(shared=True)
                if len(ls) == 1:
                    S.li[ls[0]] = Li(j | rest)
                else:
                    S.sa["pop"] = self.new_li(S, j | rest)
        return S


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    return t2


def _may(vn):
    """Value number of an array that some other name may (not must) have changed."""
    return isinstance(vn, tuple) and bool(vn) and vn[0] == "maymut"


def _hashable(v):
    if isinstance(v, list):
        return tuple(_hashable(x) for x in v)
    if isinstance(v, tuple):
        return tuple(_hashable(x) for x in v)
    if isinstance(v, (dict, set)):
        raise ValueError
    return v


LIST_MUT = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "fill", "put", "resize")
# attributes the framework sets at the start of every run (the check of C07 verifies it)
FRAMEWORK = ("problem", "generator", "rng", "history", "logger", "mode", "pop", "g_best", "g_worst", "nfe_counter", "n_workers", "termination",
             "validator", "name", "parameters", "params_name_ordered")
_DUMMY = ast.parse("def solve(self):\n    pass").body[0]
import builtins as _b  # noqa: E402
BUILTINS = set(dir(_b))
