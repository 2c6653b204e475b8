from ..spec import Fw
from . import prims
from ..flow import run_all, report


def run(ctx):
    ctx.explanation = ("Abstract interpretation of every optimizer class (constructor, initialisation, search step) with a provenance "
                       "domain for solution vectors: each evaluation sink requires a vector that is generated by the problem, corrected "
                       "since its last change, or an unmodified copy of such a vector.")
    ctx.part("correction", prims.correction, Fw(ctx.prog))
    res = run_all(ctx)
    report(ctx, res, {"uncorrected"})
    ctx.need("classes", 200)
    ctx.need("sinks", 5000)
