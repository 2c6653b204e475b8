"""C09: a run uses the current hyper-parameters, not values computed from them by the constructor."""
from ..spec import Fw
from ..flow import run_all
from .. import terms as T
from ..terms import S, show
from .prims import ME, flat
from .c08 import constructors, named, param_checks, reporting


def depends(t, params):
    return sorted({x[1] for x in T.walk(t) if x[0] == "s" and x[1] in params})


def derived(f, params, ps):
    """{attribute: hyper-parameters it is computed from} over all constructor paths; parameters kept under their own name are not derived."""
    out, vals, cond = {}, {}, set()
    for p in ps:
        checks = param_checks(p, params)
        names = {e[3]: x for x, l in checks.items() for e, _ in l}
        for x in params:
            cond |= {y for c, _ in p.conds for y in depends(named(p.res(c), names), params)}
        attrs = {e[2] for e, loops in flat(p.eff) if e[0] == "setattr" and e[1] == ME} | {a for o, a in p.st.attrs if o == ME}
        for a in attrs:
            if a in params:
                continue
            v = named(p.res(p.held(ME, a)), names)
            vals.setdefault(a, set()).add(v)
            d = depends(v, params)
            if d:
                out.setdefault(a, set()).update(d)
    for a, vs in vals.items():
        if len(vs) > 1 and cond:
            out.setdefault(a, set()).update(cond)
    return out


def run(ctx):
    ctx.explanation = ("Every constructor path of every optimizer: attributes whose value (or choice of value) depends on a hyper-parameter and that are not "
                       "the hyper-parameter itself; interpretation of initialisation and search steps: whether a run may read such an attribute before "
                       "computing it anew; the functions that assign hyper-parameters by name.")
    F = Fw(ctx.prog)
    ctx.part("reporting", reporting, F)
    ctx.part("frozen", frozen, F)
    ctx.need("classes", 200)


def frozen(ctx, F):
    made = constructors(ctx, F)
    der = {}
    for c, (f, params, ps) in made.items():
        d = ctx.part(f"constructor of {c.short}", lambda ctx: derived(f, params, ps))
        der[c.short] = (c, f, d or {})
        ctx.count("derived_attributes", len(d or {}))
    hit = {}
    for r in run_all(ctx):
        c, f, d = der.get(r["cls"], (None, None, {}))
        for a in d:
            if a in r.get("reads", {}):
                hit.setdefault((f.cls.short, a), (f, sorted(d[a]), r["reads"][a], set()))[3].add(r["cls"])
    for (w, a), (f, ps, rd, cl) in sorted(hit.items()):
        cl = sorted(cl)
        who = ", ".join(cl[:4]) + (f" and {len(cl) - 4} more" if len(cl) > 4 else "")
        ctx.find("frozen", f"{w}.{a}", rd[0], f"`{rd[1]}` reads self.{a}, which only the constructor computes from {', '.join(ps)}; a later assignment of {ps[0]} is ignored [{who}]")
