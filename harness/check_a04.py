"""A04: invalid assembly is rejected, not mis-assembled (spec/Asm.tla)."""
from common import *
import asm, gen_asm

def run(ctx):
    ctx.level = "translation_validation"
    tool = os.path.join(build_tools(ctx, ("sas",)), "sas")
    cases = []
    for k in range(ctx.scale(1, 8)): cases += gen_asm.a04(ctx.seed + 100 * k, ctx.scale(600, 1500))
    asm.validate(ctx, tool, cases, "a04", batch=60)
    g = gen_asm.grid(ctx.tier == "thorough")
    asm.validate(ctx, tool, g, "grid", batch=600 if ctx.tier == "quick" else 3000)
    cases += g
    ctx.cov["programs"] = len(cases); ctx.cov["disagreements_checked"] = ctx.counts.get("rejected", 0)
    asm.cover(ctx, cases)
