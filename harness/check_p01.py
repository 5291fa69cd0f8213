"""P01: macro expansion replaces exactly what C's rules replace (spec/Cpp.tla)."""
from common import *
import pp, gen_pp

def run(ctx):
    ctx.level = "model_checking"
    tool = os.path.join(build_tools(ctx, ("scpp",)), "scpp")
    cases = []
    n = ctx.scale(300, 3000)
    while n > 0:
        cases += gen_pp.p01(ctx.seed + len(cases), min(n, 600)); n -= 600
    res = pp.validate(ctx, tool, cases, "p01")
    pp.cover(ctx, cases, res)
