"""Runs the candidate-flow interpreter (interp.py) over every optimizer class, in parallel."""
from __future__ import annotations
import multiprocessing as mp
import os
import traceback

from .interp import Interp
from .program import AnalysisError

QUICK = [(m, d) for d in ("min", "max") for m in ("single", "swarm")] + [("thread", "min"), ("process", "max"), ("single", "min", True), ("swarm", "max", True)]
THOROUGH = [(m, d) for d in ("min", "max") for m in ("single", "swarm", "thread", "process")] + [(m, d, True) for d in ("min", "max") for m in ("single", "swarm", "process")]

_P = None


def _job(a):
    qual, combos, passes, epochs = a
    c = _P.cls(qual)
    out = []
    for mode, mm, *given in combos:
        try:
            I = Interp(_P, c, mode, mm, passes=passes, epochs=epochs, given=bool(given)).run()
            out.append(dict(cls=c.short, mode=mode, minmax=mm,
                            events=[dict(rule=e.rule, where=e.where, what=e.what, detail=e.detail, phase=e.phase, extra=e.extra,
                                         caller=e.caller)
                                    for e in I.events.values()],
                            reads=dict(I.run_reads), unknown=list(I.unknown.items()), carried=[(a, I.run_reads[a], I.run_writes[a]) for a in sorted(I.run_reads.keys() & I.run_writes.keys())], stats=dict(I.stats),
                            cmps={k: v for k, v in I.cmps.items()}))
        except Exception:
            out.append(dict(cls=c.short, mode=mode, minmax=mm, events=[], unknown=[], stats={}, cmps={},
                            crash=traceback.format_exc()[-400:]))
    return out


def run_all(ctx, classes=None):
    """Results for every optimizer class x mode x direction."""
    global _P
    _P = ctx.prog
    cl = classes or _P.optimizers()
    if not cl:
        raise AnalysisError("no optimizer classes found")
    deep = ctx.tier == "thorough"
    combos = THOROUGH if deep else QUICK
    jobs = [(c.qual, combos, 5 if deep else 3, 3 if deep else 2) for c in cl]
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = [r for rs in pool.imap_unordered(_job, jobs, chunksize=3) for r in rs]
    res.sort(key=lambda r: (r["cls"], r["mode"], r["minmax"]))
    crashed = [r for r in res if "crash" in r]
    ctx.count("classes", len(cl))
    ctx.count("runs_interpreted", len(res) - len(crashed))
    for r in crashed:
        ctx.undec(f"{r['cls']} {r['mode']}/{r['minmax']}: interpreter gave up ({r['crash'].strip().splitlines()[-1]})")
    if len(crashed) * 4 > len(res):
        raise AnalysisError(f"{len(crashed)} of {len(res)} interpretations failed: {crashed[0]['crash']}")
    for r in res:
        for k in ("stmts", "sinks", "evals", "stores", "agents_checked", "cmps", "prims"):
            ctx.count(k, r["stats"].get(k, 0))
        ctx.count("unknown_calls", r["stats"].get("unknown_calls", 0))
    return res


def events(res, rules):
    """(rule, where, what) -> (event, set of classes, set of configurations).  An event inside a framework function is charged to the
    algorithm function on whose behalf it ran, unless so many classes are affected that the framework function is to blame."""
    n = len({r["cls"] for r in res}) or 1
    hit = {}
    for r in res:
        for e in r["events"]:
            if e["rule"] in rules:
                hit.setdefault((e["rule"], e["where"], e["what"]), set()).add(r["cls"])
    agg = {}
    for r in res:
        for e in r["events"]:
            if e["rule"] in rules:
                w = e["where"]
                if e["caller"] and len(hit[(e["rule"], w, e["what"])]) <= max(4, n // 10):
                    w = e["caller"]
                a = agg.setdefault((e["rule"], w, e["what"]), [e, set(), set()])
                a[1].add(r["cls"])
                a[2].add(f"{r['mode']}/{r['minmax']}")
    return agg


def report(ctx, res, rules, by="function"):
    for (rule, where, what), (e, classes, confs) in sorted(events(res, rules).items()):
        cl = sorted(classes)
        who = ", ".join(cl[:4]) + (f" and {len(cl) - 4} more" if len(cl) > 4 else "")
        # a construct is the function it happens in; the statement is part of the report only
        ctx.find(rule, construct(where) if by == "function" else construct(where).rsplit(".", 1)[0], where,
                 f"`{what}`: {e['detail']} [{who}; {', '.join(sorted(confs))}; phase {e['phase']}]")


def construct(where):
    file, _, fn = where.partition(":")
    return f"{file.split('/')[-1]}:{fn}" if fn else where
