"""Equivalent spellings of a loop are read as one.

A loop that counts --

    i = lo
    while i < n:
        ...
        i += 1

-- is read as ``for i in range(lo, n)`` when the two mean the same: the counter moves by a constant step exactly once per
pass, nothing reads it between that move and the end of the pass, no ``continue`` skips the move, the end is a value the
body does not change, and nothing reads the counter after the loop.
"""
import ast
import copy

LIMIT_CALLS = {"len", "int", "max", "min", "abs", "round"}


def normalise(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            _Loops(fn).run()
            _Collect(fn).run()
    return tree


class _Loops:
    def __init__(self, fn):
        self.fn = fn

    def run(self):
        if not any(isinstance(n, ast.While) for n in ast.walk(self.fn)):
            return
        self.block(self.fn.body, [])

    def block(self, body, outer):
        i = 0
        while i < len(body):
            st = body[i]
            for field in ("body", "orelse", "finalbody"):
                sub = getattr(st, field, None)
                if isinstance(sub, list) and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    self.block(sub, outer + [(body, i)])
            for h in getattr(st, "handlers", ()):
                self.block(h.body, outer + [(body, i)])
            if isinstance(st, ast.While):
                new = self.counting(body, i)
                if new is not None:
                    at, loop = new
                    body[i] = loop
                    del body[at]
                    i -= 1
            i += 1

    def counting(self, body, i):
        """(index of the counter's first assignment, the loop as a for loop) or None"""
        st = body[i]
        got = _limit(st.test)
        if got is None or st.orelse:
            return None
        var, op, end = got
        step = None
        for k, s in enumerate(st.body):
            if var in _stores(s):
                d = _move(s, var)
                if d is None or step is not None:
                    return None
                step, at = d, k
        if step is None or (step > 0) != (op in ("<", "<=", "!=")) or (op == "!=" and step != 1):
            return None
        if op == "!=":
            return None
        if any(_reads(s, var) for s in st.body[at + 1:]) or any(_continues(s) for s in st.body[:at]):
            return None
        if _changes(end, st.body):
            return None
        start = None
        for k in range(i - 1, -1, -1):
            s = body[k]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == var:
                start = k
                break
            if var in _stores(s) or _reads(s, var):
                return None
        if start is None or not _still(body[start].value) or _changes(body[start].value, body[start + 1:i]):
            return None
        if self.read_after(st, var):
            return None
        lo = body[start].value
        stop = end if op in ("<", ">") else ast.BinOp(end, ast.Add() if op == "<=" else ast.Sub(), ast.Constant(1))
        args = [lo, stop] + ([] if step == 1 else [ast.Constant(step)])
        loop = ast.For(ast.Name(var, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []),
                       [s for k, s in enumerate(st.body) if k != at] or [ast.Pass()], [], None)
        ast.copy_location(loop, st)
        ast.copy_location(loop.target, st.test)
        ast.copy_location(loop.iter, st.test)
        ast.fix_missing_locations(loop)
        return start, loop

    def read_after(self, loop, var):
        """the counter is read somewhere a value left by the loop can reach (any read outside the loop that is not inside
        another loop or block that sets it first)"""
        inside = {id(n) for n in ast.walk(loop)}
        last = max((n.end_lineno or 0) for n in ast.walk(loop) if hasattr(n, "end_lineno"))
        sets = sorted(n.lineno for n in ast.walk(self.fn)
                      if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store) and id(n) not in inside)
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Load) and id(n) not in inside and n.lineno > last:
                if not any(last < k <= n.lineno for k in sets):
                    return True
        return False


class _Collect:
    def __init__(self, fn):
        self.fn = fn

    def run(self):
        self.block(self.fn.body)

    def block(self, body):
        i = 0
        while i < len(body):
            st = body[i]
            if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                for field in ("body", "orelse", "finalbody"):
                    sub = getattr(st, field, None)
                    if isinstance(sub, list):
                        self.block(sub)
                for h in getattr(st, "handlers", ()):
                    self.block(h.body)
            if isinstance(st, ast.For) and not st.orelse:
                got = self.collecting(body, i)
                if got is not None:
                    at, new = got
                    body[i] = new
                    del body[at]
                    i -= 1
            i += 1

    def collecting(self, body, i):
        loop = body[i]
        ifs, stmts, lets = [], loop.body, []
        while True:
            for s in stmts[:-1]:
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                    return None
                lets.append((s.targets[0].id, s.value))
            last = stmts[-1]
            if isinstance(last, ast.If) and not last.orelse and not lets:
                ifs.append(last.test)
                stmts = last.body
                continue
            break
        if not (isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Attribute)
                and last.value.func.attr == "append" and isinstance(last.value.func.value, ast.Name)
                and len(last.value.args) == 1 and not last.value.keywords):
            return None
        acc, elt = last.value.func.value.id, last.value.args[0]
        # a name set in the pass and used at once, as the first thing evaluated
        for name, value in reversed(lets):
            uses = sum(isinstance(n, ast.Name) and n.id == name for n in ast.walk(elt))
            if isinstance(value, (ast.Name, ast.Constant)) and not any(isinstance(n, ast.Lambda) for n in ast.walk(elt)):
                elt = _Put(name, value).visit(copy.deepcopy(elt))
            elif uses == 1 and isinstance(elt, ast.Name):
                elt = value
            else:
                return None
        temps = {n for n, _ in lets}
        if len(temps) != len(lets):
            return None
        vars_ = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        if any(not isinstance(n, (ast.Name, ast.Tuple, ast.Store, ast.List)) for n in ast.walk(loop.target)):
            return None
        if acc in vars_ or acc in temps or _reads(loop.iter, acc) or _reads(elt, acc) or any(_reads(c, acc) for c in ifs):
            return None
        if any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(loop)):
            return None
        if vars_ & temps or any(_reads(loop.iter, v) for v in vars_ | temps):
            return None
        start = None
        for k in range(i - 1, -1, -1):
            s = body[k]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == acc:
                start = k
                break
            if acc in _stores(s) or _reads(s, acc):
                return None
        if start is None or not _empty_list(body[start].value):
            return None
        inside = {id(n) for n in ast.walk(loop)}
        if any(isinstance(n, ast.Name) and n.id in vars_ | temps and isinstance(n.ctx, ast.Load) and id(n) not in inside
               and not _sheltered(n, n.id, self.fn, loop) for n in ast.walk(self.fn)):
            return None
        comp = ast.ListComp(elt, [ast.comprehension(loop.target, loop.iter, ifs, 0)])
        new = ast.Assign([ast.Name(acc, ast.Store())], comp)
        ast.copy_location(new, loop)
        ast.copy_location(new.targets[0], last)
        ast.copy_location(comp, last)
        ast.fix_missing_locations(new)
        return start, new


class _Put(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return ast.copy_location(copy.deepcopy(self.value), n) if n.id == self.name else n


def _sheltered(read, name, fn, loop):
    """the read cannot see a value the loop left in the name: it comes before the loop, or every way to it sets the name"""
    chain = _chain(fn, read)
    for node, field, k in chain:
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if any(name in {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)} for g in node.generators):
                return True
        if isinstance(node, ast.Lambda) and name in {a.arg for a in node.args.args}:
            return True
        if isinstance(node, ast.For) and field == "body" and name in {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}:
            return True
        if field in ("body", "orelse") and isinstance(getattr(node, field), list):
            for s in getattr(node, field)[:k]:
                if isinstance(s, ast.Assign) and any(isinstance(n, ast.Name) and n.id == name for t in s.targets for n in ast.walk(t)) \
                        and not any(n is loop for n in ast.walk(s)):
                    # set on the way, after the loop unless the loop comes later in the same block
                    blk = getattr(node, field)
                    inner = [j for j, x in enumerate(blk) if any(n is loop for n in ast.walk(x))]
                    if not inner or blk.index(s) > inner[0] or k < inner[0]:
                        return True
    return False


def _chain(fn, target):
    out = []

    def go(node):
        for field, val in ast.iter_fields(node):
            vals = val if isinstance(val, list) else [val]
            for k, v in enumerate(vals):
                if not isinstance(v, ast.AST):
                    continue
                if v is target or go(v):
                    out.append((node, field, k))
                    return True
        return False
    go(fn)
    return out


def _empty_list(e):
    return (isinstance(e, ast.List) and not e.elts) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and not e.args and not e.keywords)


def _limit(test):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        got = _limit(test.operand)
        flip = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}
        return got and got[1] in flip and (got[0], flip[got[1]], got[2]) or None
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
    op = ops.get(type(test.ops[0]))
    if op is None:
        return None
    a, b = test.left, test.comparators[0]
    for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op])):
        if isinstance(x, ast.Name) and _still(y) and not _reads(y, x.id):
            return x.id, o, y
    return None


def _still(e):
    """an expression whose value depends on nothing but the names and attributes in it"""
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in LIMIT_CALLS and not n.keywords):
            return False
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return False
    return True


def _move(s, var):
    """the constant a statement adds to the counter, or None"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == var:
        v, op = s.value, s.op
    elif (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
          and isinstance(s.value, ast.BinOp)):
        b = s.value
        v, op = b.right, b.op
        if not (isinstance(b.left, ast.Name) and b.left.id == var):
            if isinstance(b.op, ast.Add) and isinstance(b.right, ast.Name) and b.right.id == var:
                v = b.left
            else:
                return None
    else:
        return None
    if isinstance(v, ast.Constant) and type(v.value) is int and v.value > 0 and isinstance(op, (ast.Add, ast.Sub)):
        return v.value if isinstance(op, ast.Add) else -v.value
    return None


def _stores(s):
    out = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    for n in ast.walk(s):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out |= set(n.names)
    return out


def _reads(s, var):
    return any(isinstance(n, ast.Name) and n.id == var and (isinstance(n.ctx, ast.Load)) for n in ast.walk(s))


def _continues(s):
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
        return any(_continues(x) for x in getattr(s, "orelse", ()))
    return any(_continues(x) for f in ("body", "orelse", "finalbody") for x in getattr(s, f, ()) or ()) \
        or any(_continues(x) for h in getattr(s, "handlers", ()) for x in h.body)


def _changes(e, body):
    """some statement of the body may change the value of the expression"""
    names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} - LIMIT_CALLS
    attrs = {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)}
    sized = {ast.dump(a) for n in ast.walk(e) if isinstance(n, ast.Call) for a in n.args}
    for s in body:
        if names & (_stores(s) - {"self"}):
            return True
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in attrs:
                return True
            if sized and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ("append", "extend", "pop", "remove", "insert", "clear") and ast.dump(n.func.value) in sized:
                return True
            if sized and isinstance(n, ast.Delete):
                return True
    return False
