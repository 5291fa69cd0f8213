"""C08: image, map and BSS (CImage, CImgOrd)."""
from common import *
import cimg

def run(ctx):
    ctx.level = "model_checking"
    b = build_tools(ctx, tools=("scc", "sim86"))
    cimg.orders(ctx, b, ctx.scale(4, 6))
    cimg.family_random(ctx, b, ctx.seed, ctx.scale(250, 6000), 8, "small")
    cimg.family_random(ctx, b, ctx.seed, ctx.scale(60, 1500), 40, "large")
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"], "traces_validated_against_impl": c.get("programs", 0), "samples": ctx.samples[:3]})
    ctx.assumptions = ["static locals that no reached code refers to need not appear in the map", "at most 3 static locals and functions called before they are declared per function (the compiler's GLOBAL_RESERVE)",
                       "arrays of unknown bound are defined, not declared extern"]
