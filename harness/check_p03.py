"""P03: #include splices files in place, __LINE__ and __FILE__ tell the truth (spec/Cpp.tla)."""
from common import *
import pp, gen_pp

def run(ctx):
    ctx.level = "model_checking"
    tool = os.path.join(build_tools(ctx, ("scpp",)), "scpp")
    cases = []
    n = ctx.scale(260, 4000)
    while n > 0:
        cases += gen_pp.p03(ctx.seed + len(cases), min(n, 600)); n -= 600
    res = pp.validate(ctx, tool, cases, "p03")
    pp.cover(ctx, cases, res)
