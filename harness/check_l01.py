"""L01: lib.h functions do what their C namesakes do (spec/Lib.tla)."""
from common import *
import lib, gen_lib

def run(ctx):
    ctx.level = "model_checking"
    binp = build_tools(ctx, ("scc", "scpp", "sim86"))
    cases = []
    for k in range(ctx.scale(1, 8)): cases += gen_lib.programs(ctx.seed + 100 * k, ctx.scale(200, 800))
    lib.validate(ctx, binp, cases)
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"],
                    "traces_validated_against_impl": c.get("programs", 0), "samples": [{"case": x.tag, "calls": x.c[:4]} for x in cases[:3]]})
    ctx.assumptions = ["the programs are compiled by scc and run by sim86, whose own correctness the C and S properties cover",
                       "calls stay within the objects; conversions are those lib.h documents: d with +, x, X, c, s, % with width and zero fill"]
