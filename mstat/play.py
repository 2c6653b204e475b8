"""Unfolding the event summary of a function over a finite configuration.

core.py summarises a function as paths of events (calls, stores, appends) with loops kept as one generic iteration.  Given values for the parameters
and a meaning for the calls that leave the analysed function, the summary determines a finite sequence of ground events; the specification of the
function is stated over that sequence.  Only terms and events are evaluated, never the analysed code.  Whatever has no meaning raises NoValue.
"""
from .model import Model, NoValue, Rejected, key, vec
from .checks.c08 import EXT            # noqa: F401


class Obj:
    """An object of the configuration, with fields."""

    def __init__(self, cls, **f):
        self.cls, self.f = cls, f

    def fields(self, name):
        if name not in self.f:
            raise NoValue(f"{self.cls}.{name}")
        return self.f[name]

    def __repr__(self):
        return f"<{self.cls} {self.f.get('name', '')}>"


class Opaque:
    pass


UNKNOWN = Opaque()


class Returned(Exception):
    def __init__(self, kind, value):
        self.kind, self.value = kind, value


def arm(core):
    """Makes the interpretation keep what the unfolding needs."""
    import itertools
    core.births = True
    core.lasts = {}
    core.uid = itertools.count(1000)
    return core


class Player(Model):
    """world: handles calls (call), object types (kind) and the state restored after a worker process (snapshot, restore)."""

    def __init__(self, core, env, world):
        super().__init__(env)
        self.core, self.world = core, world
        self.b, self.store, self.results, self.lv, self.unks, self.yields = {}, {}, {}, {}, {}, []
        self.pooled = False
        self.made = []
        self.steps = 0

    # ---- values
    def now(self, t):
        return self.ev(t, self.b)

    def value(self, t, b):
        o = t[0]
        if t in b:
            return b[t]
        if t in self.env:
            return self.env[t]
        if o == "new":
            if t in self.store:
                return self.store[t]
            raise NoValue(t)
        if o == "lv":
            at = (t[1], t[2]) + tuple(t[4:5])
            if at in self.lv:
                if self.lv[at] is UNKNOWN:
                    raise NoValue(t)
                return self.lv[at]
            return self.value(t[3], b)
        if o == "unk":
            if t in self.unks:
                return self.unks[t]
            raise NoValue(t)
        if o == "after":
            return self.value(t[2], b)
        if o == "fmt":
            return "".join(self.text(self.value(x, b)) for x in t[1:])
        if o == "dict":
            r = {}
            for x in t[1:]:
                if x[1] == ("star",):
                    r.update(self.value(x[2], b))
                else:
                    r[key(self.value(x[1], b))] = self.value(x[2], b)
            return r
        if o == "filter":
            r = []
            for i in range(int(self.value(t[1], b))):
                bb = {**b, ("ix", t[4]): i}
                if self.value(t[2], bb):
                    r.append(self.value(t[3], bb))
            return r
        if o == "flat":
            return [y for i in range(int(self.value(t[1], b))) for y in self.value(t[2], {**b, ("ix", t[3]): i})]
        if o == "attr":
            v = self.value(t[1], b)
            if isinstance(v, Obj):
                return v.fields(t[2])
            return self.world.attr(v, t[2])
        if o == "setat":
            v, i = self.value(t[1], b), self.value(t[2], b)
            if hasattr(v, "put"):
                return v.put(i, self.value(t[3], b))
            if isinstance(v, dict):
                return {**v, key(i): self.value(t[3], b)}
        if o == "at":
            v = self.value(t[1], b)
            if isinstance(v, Obj) and "[]" not in v.f:
                raise Rejected          # an object of the library takes no subscript
            if isinstance(v, Obj):
                return v.f["[]"][int(self.value(t[2], b))]
            if isinstance(v, dict):
                i = key(self.value(t[2], b))
                if i not in v and isinstance(i, int) and 0 <= i < len(v):
                    return list(v)[i]           # iterating over a dictionary
                if i not in v:
                    raise Rejected
            if hasattr(v, "at"):
                return v.at(self.value(t[2], b))
        if o == "len":
            v = self.value(t[1], b)
            if isinstance(v, Obj) and "[]" in v.f:
                return len(v.f["[]"])
        if o == "future":
            return self.value(t[1], b)
        if o == "cls":
            return t
        if o == "app":
            r = self.world.app(self, t, b)
            if r is not None:
                return r
        return super().value(t, b)

    def text(self, v):
        from fractions import Fraction
        if isinstance(v, Fraction):
            return str(int(v)) if v.denominator == 1 else str(float(v))
        if isinstance(v, (str, int)):
            return str(v)
        raise NoValue(v)

    def app(self, t, b):
        if t[1] == "isinstance" and t[2][0] != "k":
            v = self.value(t[2], b)
            ks = t[3][1:] if t[3][0] in ("tup", "list") else (t[3],)
            return any(self.world.isinst(v, k) for k in ks)
        if t[1] == "bool":
            v = self.value(t[2], b)
            return bool(v)
        if t[1] == "dictset":
            c = dict(self.value(t[2], b))
            c[key(self.value(t[3], b))] = self.value(t[4], b)
            return c
        if t[1] == "dictmerge":
            return {**self.value(t[2], b), **self.value(t[3], b)}
        return super().app(t, b)

    def result(self, t, b):
        at = (t[1], tuple(self.value(x, b) for x in t[2:]))
        v = self.results.get(at, UNKNOWN)
        if v is UNKNOWN:
            raise NoValue(t)
        return v

    def setresult(self, r, v):
        if r[0] == "res":
            self.results[(r[1], tuple(self.value(x, self.b) for x in r[2:]))] = v
        elif r[0] == "new":
            self.store[r] = v

    # ---- events
    def holds(self, conds):
        """True, False, or None while a condition has no value yet."""
        open_ = False
        self.fails = False
        for c, want in conds:
            try:
                if bool(self.now(c)) != want:
                    return False
            except Rejected:
                self.fails = self.fails or not open_
                open_ = True
            except NoValue:
                open_ = True
        return None if open_ else True

    def choose(self, cands, final):
        """Plays the candidate (conds, events, tag) whose conditions hold; returns its tag."""
        cands = list(cands)
        i = 0
        while True:
            live, fails = [], []
            for c in cands:
                h = self.holds(c[0])
                if h is not False:
                    live.append((c, h))
                    fails.append(h is None and self.fails)
            cands = [c for c, _ in live]
            if not cands:
                return None
            done = [c for c in cands if len(c[1]) <= i]
            if len(done) == len(cands):
                sure = [c for c, h in live if h]
                if len(sure) == 1:
                    return sure[0][2]
                if not sure and all(fails):
                    raise Rejected          # evaluating the condition is an error
                if len(cands) == 1 and not sure:
                    raise NoValue(f"condition {[str(c)[:80] for c, _ in cands[0][0]]}")
                if len(sure) > 1 and final is not None:
                    return final([c[2] for c in sure])
                raise NoValue("which way is taken")
            if done:
                # a way that ends here needs all its conditions to hold
                sure = [c for c, h in live if h and len(c[1]) <= i]
                if len(sure) == 1 and len(cands) == 1:
                    return sure[0][2]
                cands = [c for c in cands if c not in done] if not sure else cands
                if sure:
                    raise NoValue("which way is taken")
                continue
            nxt = [c[1][i] for c in cands]
            if any(x != nxt[0] for x in nxt[1:]):
                if all(fails):
                    raise Rejected
                raise NoValue("which way is taken")
            self.event(nxt[0])
            i += 1

    def play(self, ps):
        """(kind, value term, path) of the way taken through the function."""
        cands = [(p.conds, p.eff, p) for p in ps if "inloop" not in p.st.flags]
        try:
            p = self.choose(cands, lambda tags: tags[0])
        except Returned as r:
            return r.kind, r.value
        if p is None:
            raise NoValue("no path")
        return p.kind, (self.now(p.val) if p.kind == "return" and p.val is not None else p.val)

    def event(self, e):
        self.steps += 1
        if self.steps > 20000:
            raise NoValue("too long")
        o = e[0]
        if o == "loop":
            return self.loop(e)
        if o == "birth":
            try:
                v = self.now(e[2])
            except NoValue:
                self.store.pop(e[1], None)
                return None
            self.store[e[1]] = list(v) if isinstance(v, (list, tuple)) else dict(v) if isinstance(v, dict) else v
        elif o in ("call", "construct"):
            args, kw = [], {}
            for a in e[2]:
                if a[0] == "kw":
                    kw[a[1]] = self.soft(a[2])
                else:
                    args.append(self.soft(a))
            self.setresult(e[3], self.world.call(self, ("new " if o == "construct" else "") + (e[1] if isinstance(e[1], str) else "dyn"), args, kw))
        elif o == "read":
            try:
                v = self.now(("attr", e[1], e[2]))
            except NoValue:
                v = UNKNOWN
            self.setresult(e[3], v)
        elif o == "append":
            self.container(e[1], list).append(self.soft(e[2]))
        elif o == "extend":
            self.container(e[1], list).extend(self.now(e[2]))
        elif o == "dictset":
            self.container(e[1], dict)[key(self.now(e[2]))] = self.soft(e[3])
        elif o == "dictupdate":
            self.container(e[1], dict).update(self.now(e[2]))
        elif o == "setitem":
            c = self.now(e[1])
            if isinstance(c, list):
                c[int(self.now(e[2]))] = self.now(e[3])
            elif hasattr(c, "cols"):
                c.cols[self.now(e[2])] = self.now(e[3])
            elif isinstance(c, dict):
                c[key(self.now(e[2]))] = self.now(e[3])
            else:
                raise NoValue(e)
        elif o == "setattr":
            v = self.now(e[1])
            if not isinstance(v, Obj):
                raise NoValue(e)
            v.f[e[2]] = self.soft(e[3])
            if self.soft(e[3]) is UNKNOWN:
                v.f.pop(e[2])
        elif o == "yield":
            self.yields.append(self.frozen(self.now(e[1])))
        elif o == "yieldfrom":
            self.yields.extend(map(self.frozen, self.now(e[1])))
        elif o == "pool":
            self.pooled = True
        elif o in ("print", "caught", "popitem"):
            pass
        else:
            raise NoValue(o)
        return None

    @staticmethod
    def frozen(v):
        return dict(v) if isinstance(v, dict) else v

    def container(self, t, kind):
        v = self.now(t)
        if not isinstance(v, kind):
            raise NoValue(t)
        return v

    def soft(self, t):
        try:
            return self.now(t)
        except NoValue:
            return UNKNOWN

    def softest(self, t):
        try:
            return self.soft(t)
        except Rejected:
            return UNKNOWN

    def loop(self, e):
        _, seq, ix, infos = e[:4]
        worker = self.pooled and infos and infos[0][0] == "next"
        self.pooled = False
        state = self.world.snapshot() if worker else None
        for k in [k for k in self.lv if k[0] == ix]:
            del self.lv[k]
        keys = {}
        for info in infos:
            for k in info[3]:
                keys[k] = True
        if seq == ("while",):
            n = 4096
        elif seq[0] in ("tup", "list"):
            n = len(seq) - 1
        else:
            s = self.now(("len", seq)) if seq[0] not in ("map", "perm") else self.now(seq[1])
            n = int(s)
        if n > 4096:
            raise NoValue("long loop")
        set_here = self.made
        self.made = []
        first = {u: self.softest(v[3]) for u, v in self.core.lasts.items() if v[0] == ix and len(v) > 3}
        taken = None
        i = -1
        for i in range(n):
            self.b[ix] = i
            for k in keys:
                if k[0] == "c" and k[1] in self.store:
                    v = self.store[k[1]]
                    self.lv[(ix, "c", k[1])] = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
            tag = self.choose([(info[1], info[2], (j, info)) for j, info in enumerate(infos)], None)
            if tag is None:
                if seq == ("while",):
                    i -= 1
                    break
                raise NoValue("iteration without a way")
            j, info = tag
            taken = (j, info)
            new = {}
            for k, t in info[3].items():
                if k[0] == "n":
                    new[(ix, "n:" + k[1])] = self.softest(t)
                elif k[0] == "a":
                    new[(ix, "a:" + k[1][1])] = self.softest(t)
            self.lv.update(new)
            if info[0] in ("return", "raise"):
                raise Returned(info[0], self.now(info[4]) if info[0] == "return" and info[4] is not None else info[4])
            if info[0] == "break":
                break
        new_unks = {}
        for u, (ix2, k, vals, *_) in self.core.lasts.items():
            if ix2 != ix:
                continue
            self.unks.pop(u, None)
            if vals is not None:
                if taken is not None and vals[taken[0]] is not None:
                    v = self.softest(vals[taken[0]])
                    if v is not UNKNOWN:
                        new_unks[u] = v
            elif k[0] == "c":
                if k[1] in self.store:
                    new_unks[u] = self.store[k[1]]
            else:
                at = (ix, k[0] + ":" + (k[1] if k[0] == "n" else k[1][1]))
                v = self.lv.get(at, first.get(u, UNKNOWN))
                if v is not UNKNOWN:
                    new_unks[u] = v
        if i > 0:               # a value of one iteration says nothing about the others
            for u in self.made:
                self.unks.pop(u, None)
        self.unks.update(new_unks)
        self.made = set_here + self.made + list(new_unks)
        self.b.pop(ix, None)
        if worker:
            self.world.restore(state)
        return None


# ------------------------------------------------------------------ tables
class Series(list):
    pass


class Table:
    """A data frame: named columns of equal length."""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, k):
        if isinstance(k, str):
            return Series(self.cols[k])
        return Table({c: self.cols[c] for c in k})

    def put(self, k, v):
        return Table({**self.cols, k: v})

    def rows(self):
        n = max([len(c) for c in self.cols.values()], default=0)
        return [{c: v[i] for c, v in self.cols.items()} for i in range(n)]

    @staticmethod
    def of(data):
        if isinstance(data, Table):
            return Table(dict(data.cols))
        for v in (data.values() if isinstance(data, dict) else data if isinstance(data, list) else ()):
            if v is UNKNOWN or isinstance(v, dict) and any(x is UNKNOWN for x in v.values()):
                raise NoValue("table")
        if isinstance(data, dict):
            if data and all(isinstance(v, Series) for v in data.values()):      # aligned by position
                n = max(map(len, data.values()))
                return Table({k: list(v) + [float("nan")] * (n - len(v)) for k, v in data.items()})
            if len({len(v) for v in data.values()}) > 1:
                raise Rejected
            return Table({k: list(v) for k, v in data.items()})
        if isinstance(data, list) and all(isinstance(r, dict) for r in data):
            names = list(dict.fromkeys(k for r in data for k in r))
            return Table({k: [r.get(k, float("nan")) for r in data] for k in names})
        raise NoValue(data)


def isnan(v):
    return isinstance(v, float) and v != v


def rank(values, method="average", ascending=True):
    """pandas.Series.rank"""
    have = [v for v in values if not isnan(v)]
    order = sorted(set(have))
    if not ascending:
        order = order[::-1]
    out = []
    for v in values:
        if isnan(v):
            out.append(v)
            continue
        if method == "dense":
            out.append(order.index(v) + 1)
            continue
        before = sum(1 for w in have if order.index(w) < order.index(v))
        same = sum(1 for w in have if w == v)
        if method in ("average", "min", "max"):
            from fractions import Fraction
            out.append(before + {"average": Fraction(same + 1, 2), "min": 1, "max": same}[method])
        else:
            raise NoValue(method)
    return Series(out)


def key_in(k, d):
    return key(k) in d


__all__ = ["Obj", "Player", "Table", "Series", "UNKNOWN", "Returned", "arm", "rank", "vec", "isnan", "NoValue", "Rejected"]
