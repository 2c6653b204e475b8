from ..spec import Fw
from . import prims
from ..flow import run_all, report


def run(ctx):
    ctx.explanation = ("Abstract interpretation of every optimizer class with value numbers for (solution, target) pairs: at the end of "
                       "initialisation and of every search step each population member must hold the target computed from the very "
                       "solution it holds; comparisons must not read a missing or foreign target.")
    ctx.part("evaluation", prims.evaluation, Fw(ctx.prog))
    res = run_all(ctx)
    report(ctx, res, {"pop-stale", "pop-none", "none-target", "stale-compare", "inplace-shared"})
    ctx.need("classes", 200)
    ctx.need("agents_checked", 5000)
