"""A01: assembled instructions decode to the source instruction (spec/Asm.tla)."""
from common import *
import asm, gen_asm

def run(ctx):
    ctx.level = "translation_validation"
    tool = os.path.join(build_tools(ctx, ("sas",)), "sas")
    cases = []
    for k in range(ctx.scale(1, 6)): cases += gen_asm.a01(ctx.seed + 100 * k, ctx.scale(150, 800))
    p = os.path.join(REPO, "test/sas/sasm.asm")
    if os.path.exists(p): cases.append(asm.Case(open(p, "rb").read(), "sasm"))
    asm.validate(ctx, tool, cases, "a01", batch=40)
    ctx.cov["programs"] = len(cases); ctx.cov["disagreements_checked"] = ctx.counts.get("statements", 0)
    asm.cover(ctx, cases)
