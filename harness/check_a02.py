"""A02: labels and fixups resolve to the right address everywhere (spec/Asm.tla, spec/AsmLab.tla)."""
from common import *
import asm, gen_asm, labenum

def run(ctx):
    ctx.level = "model_checking"
    tool = os.path.join(build_tools(ctx, ("sas",)), "sas")
    for s in labenum.run(ctx, tool, ctx.scale(5, 6), ctx.scale(1500, 40000)): ctx.samples.append({"trace": s})
    cases = []
    for k in range(ctx.scale(1, 6)): cases += gen_asm.a02(ctx.seed + 100 * k, ctx.scale(160, 400))
    p = os.path.join(REPO, "test/sas/scc-self.asm")
    if ctx.tier == "thorough" and os.path.exists(p): cases.append(asm.Case(open(p, "rb").read(), "scc-self"))
    asm.validate(ctx, tool, cases, "a02", batch=40)
    asm.cover(ctx, cases)
