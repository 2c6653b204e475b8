"""Specifications of framework functions and their comparison with the canonical terms found by core.py."""
from __future__ import annotations

from .core import Core, GiveUp
from .program import AnalysisError, Class
from .terms import *            # noqa: F401,F403
from . import terms as T

OPAQUE_OPS = {"unk", "lv", "after", "res", "lastiter", "fold", "flat", "future", "dyn", "psum", "sumover"}


class Fw:
    """The framework classes of the analysed tree."""

    def __init__(self, prog):
        self.prog = prog
        g = prog.cls
        self.O, self.A, self.T = g("mealpy.optimizer.Optimizer"), g("mealpy.utils.agent.Agent"), g("mealpy.utils.target.Target")
        self.H, self.P = g("mealpy.utils.history.History"), g("mealpy.utils.problem.Problem")
        self.Te, self.V = g("mealpy.utils.termination.Termination"), g("mealpy.utils.validator.Validator")
        for n, c in (("Optimizer", self.O), ("Agent", self.A), ("Target", self.T), ("History", self.H), ("Problem", self.P),
                     ("Termination", self.Te)):
            if c is None:
                raise AnalysisError(f"class {n} not found where the package keeps it")
        A = ("list", self.A)
        self.types = {("Optimizer", "history"): self.H, ("Optimizer", "problem"): self.P, ("Optimizer", "pop"): A,
                      ("Agent", "target"): self.T, ("Optimizer", "g_best"): self.A, ("Optimizer", "g_worst"): self.A,
                      ("Optimizer", "termination"): self.Te, ("Optimizer", "validator"): self.V}
        for n in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
            self.types[("History", n)] = A

    def core(self, opaque=(), types=None, attr_types=None, special=None, pure=()):
        op = {("Target", "fitness"), ("Target", "objectives"), ("Target", "weights")} | set(opaque)
        at = dict(self.types)
        at.update(attr_types or {})
        return Core(self.prog, lambda f: f.cls is not None and any((k.name, f.name) in op for k in f.cls.mro if isinstance(k, Class))
                    or f.cls is None and ("", f.name) in op,
                    at, {S(k) if isinstance(k, str) else k: v for k, v in (types or {}).items()},
                    pure=lambda f: f.cls is not None and (f.cls.name, f.name) in set(pure), special=special)


def undecidable(t):
    """Does the term contain something the rules give no meaning to?"""
    return any(x[0] in OPAQUE_OPS or x[0] == "new" for x in T.walk(t))


def fit(x):
    return attr(attr(x, "target"), "fitness")


def method(ctx, cls, name):
    f = cls.lookup(name) if cls is not None else None
    if f is None:
        ctx.undec(f"{cls.name if cls else '?'}.{name} not found")
    return f


def paths(ctx, core, f, *a, **k):
    """Paths of f, or None when the interpreter gives up."""
    try:
        ps = core.run(f, *a, **k)
    except (GiveUp, RecursionError) as e:
        ctx.undec(f"{f.where}: {e}")
        return None
    ctx.count("functions")
    ctx.count("paths", len(ps))
    if not ps:
        ctx.undec(f"{f.where}: no path")
        return None
    return ps


def cname(f):
    """Construct name of a function, without line numbers."""
    return f"{f.module.rel.split('/')[-1]}:{(f.cls.name + '.') if f.cls else ''}{f.name}"


def differs(ctx, got, want):
    """True: definitely different; False: equal; None: undecided."""
    if got == want:
        return False
    if undecidable(got):
        return None
    return True


def check(ctx, rule, f, got, want, what, conds=()):
    """One obligation: the term computed by the source equals the specified one."""
    ctx.count("obligations")
    d = differs(ctx, got, want)
    if d:
        on = " and ".join(("" if b else "not ") + show(c) for c, b in conds)
        ctx.find(rule, cname(f), f.where, f"{what}: is {show(got)}, should be {show(want)}" + (f" when {on}" if on else ""))
    elif d is None:
        ctx.undec(f"{f.where}: {what}: {show(got)[:200]}")
    return d
