"""P02: conditional directives keep exactly the live lines (spec/Cpp.tla and CppCond.tla)."""
from common import *
import pp, gen_pp, condenum

def run(ctx):
    ctx.level = "model_checking"
    tool = os.path.join(build_tools(ctx, ("scpp",)), "scpp")
    ctx.samples += condenum.run(ctx, tool, ctx.scale(6, 7), ctx.scale(1500, 30000))
    cases = []
    n = ctx.scale(160, 2400)
    while n > 0:
        cases += gen_pp.p02(ctx.seed + len(cases), min(n, 600)); n -= 600
    res = pp.validate(ctx, tool, cases, "p02")
    pp.cover(ctx, cases, res)
