from ..spec import Fw
from . import prims
from ..flow import run_all, report


def run(ctx):
    ctx.explanation = ("Abstract interpretation of every optimizer class: batch evaluation of candidates that all already carry the "
                       "value of their solution (a second evaluation), evaluations that bypass or switch off the counting, and counting by hand; the counting "
                       "functions themselves are compared with their specification.")
    ctx.part("counting", prims.counting, Fw(ctx.prog))
    res = run_all(ctx)
    report(ctx, res, {"double-eval", "bypass-eval", "uncounted", "hand-count"})
    ctx.need("classes", 200)
    ctx.need("evals", 5000)
