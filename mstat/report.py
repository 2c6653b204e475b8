"""Findings, known findings, evidence."""
from __future__ import annotations
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding:
    """A violated rule instance.  key identifies rule + construct and never contains a line number."""

    def __init__(self, rule, construct, where, message):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message
        self.key = f"{rule}:{construct}"


class Ctx:
    def __init__(self, prop, tier, seed, prog):
        self.prop, self.tier, self.seed, self.prog = prop, tier, seed, prog
        self.findings, self.counts, self.notes, self.assumptions = {}, {}, [], []
        self.undecided = []
        self.broken = []
        self.explanation = ""
        self.t0 = time.time()

    def find(self, rule, construct, where, message):
        f = Finding(rule, construct, where, message)
        self.findings.setdefault(f.key, f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)

    def part(self, name, fn, *args):
        """Run one part of a check.  Code the part cannot read leaves that part undecided; the other parts still answer."""
        from .program import AnalysisError
        try:
            return fn(self, *args)
        except AnalysisError:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.broken.append(name)
            self.undec(f"part {name} could not be completed: {type(e).__name__}: {str(e)[:120]} ({os.path.basename(tb.filename)}:{tb.lineno})")
            print(f"INCOMPLETE property={self.prop} part={name}: {type(e).__name__}: {str(e)[:200]} ({os.path.basename(tb.filename)}:{tb.lineno})")

    def need(self, name, least):
        """Guard against a rule that matches nothing."""
        if self.counts.get(name, 0) < least and not self.broken:
            from .program import AnalysisError
            raise AnalysisError(f"only {self.counts.get(name, 0)} {name} analysed, at least {least} expected")


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                rest = line.split(f"property={prop} ", 1)[1]
                key = rest.split("key=", 1)[1].split(" ", 1)[0]
                out[key] = rest.split(" -- ", 1)[1] if " -- " in rest else key
    return out


def _class_key(key):
    """The key with the method left out: a listed defect whose code was moved to another method of the same class (and which
    is no longer found where it was listed) is still the listed one."""
    parts = key.split(":")
    if len(parts) >= 3 and parts[1].endswith(".py") and parts[2].count(".") == 1:
        return (parts[0], parts[1], parts[2].split(".")[0], *parts[3:])
    return None


def finish(ctx, level="other"):
    kn = known(ctx.prop)
    viol, hit = [], []
    moved = {_class_key(k) for k in kn if k not in ctx.findings} - {None}
    for k, f in sorted(ctx.findings.items()):
        ck = _class_key(k)
        if k in kn:
            hit.append(f)
        elif ck in moved:
            moved.discard(ck)
            hit.append(f)
        else:
            viol.append(f)
    ev = os.environ.get("MSTAT_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for f in hit:
        print(f"KNOWN-FINDING: property={ctx.prop} {f.key} {f.where}: {f.message}")
    for i, f in enumerate(viol):
        path = os.path.join(ev, "replay", f"{ctx.prop}-{i}.txt")
        with open(path, "w", encoding="utf-8") as h:
            h.write(f"property {ctx.prop}\nrule      {f.rule}\nconstruct {f.construct}\nat        {f.where}\n{f.message}\n"
                    f"\nre-run: cd {VERIF} && python3 check.py {ctx.prop}\n")
        print(f"  {f.where}: [{f.rule}] {f.construct}: {f.message}")
        print(f"VIOLATION property={ctx.prop} replay={path}")
    doc = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {"explanation": ctx.explanation, **ctx.counts, "undecided": len(ctx.undecided),
                     "undecided_sites": ctx.undecided[:40], "known_findings": [f.key for f in hit]},
        "wall_s": round(time.time() - ctx.t0, 2),
        "assumptions": ctx.assumptions,
        "violations": [{"rule": f.rule, "construct": f.construct, "where": f.where, "message": f.message} for f in viol],
    }
    with open(os.path.join(ev, f"{ctx.prop}.json"), "w", encoding="utf-8") as h:
        json.dump(doc, h, indent=1)
    print(f"{ctx.prop}: {len(viol)} violation(s), {len(hit)} known, {len(ctx.undecided)} undecided; "
          + ", ".join(f"{k}={v}" for k, v in ctx.counts.items() if isinstance(v, int)) + f"; {time.time() - ctx.t0:.1f}s")
    return 1 if viol else 0
