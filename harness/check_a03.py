"""A03: data and layout directives emit exactly the specified bytes (spec/Asm.tla)."""
from common import *
import asm, gen_asm

def run(ctx):
    ctx.level = "translation_validation"
    tool = os.path.join(build_tools(ctx, ("sas",)), "sas")
    cases = []
    for k in range(ctx.scale(1, 6)): cases += gen_asm.a03(ctx.seed + 100 * k, ctx.scale(200, 800))
    asm.validate(ctx, tool, cases, "a03", batch=40)
    ctx.cov["programs"] = len(cases); ctx.cov["disagreements_checked"] = ctx.counts.get("statements", 0)
    asm.cover(ctx, cases)
