from ..spec import Fw
from . import prims
from ..flow import run_all, report


def run(ctx):
    ctx.explanation = ("Alias analysis inside the abstract interpretation of every optimizer class: element assignments, augmented "
                       "assignments and in-place numpy calls on arrays that a population member, a recorded best/worst or the "
                       "history may share; attribute assignments to recorded candidates.")
    ctx.part("copies", prims.copies, Fw(ctx.prog))
    res = run_all(ctx)
    report(ctx, res, {"inplace-shared", "rec-agent-store"})
    ctx.need("classes", 200)
    ctx.need("stores", 5000)
