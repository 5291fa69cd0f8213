"""P04: preprocessing preserves the program's tokens (spec/Cpp.tla)."""
from common import *
import pp, gen_pp

def run(ctx):
    ctx.level = "model_checking"
    tool = os.path.join(build_tools(ctx, ("scpp",)), "scpp")
    cases = []
    n = ctx.scale(260, 4000)
    while n > 0:
        cases += gen_pp.p04(ctx.seed + len(cases), min(n, 600)); n -= 600
    res = pp.validate(ctx, tool, cases, "p04")
    pp.cover(ctx, cases, res)
