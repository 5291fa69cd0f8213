"""C07: invalid programs are rejected with a diagnostic (CSyn, CRules)."""
import glob, os, random
from common import *
import csyn, crules

def run(ctx):
    ctx.level = "model_checking"
    # bounds are part of the property: the compiler runs with its memory accesses checked
    os.environ["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:strict_memcmp=0"
    b = build_tools(ctx, tools=("scc",), sanitize=True)
    r = random.Random("rules/%d" % ctx.seed)
    g = crules.check(ctx, b, crules.grid(list(crules.CTX) if not ctx.quick() else ["plain", ["loop", "nest", "dead"][ctx.seed % 3]]), "grid")
    crules.check(ctx, b, crules.rules(r, ctx.scale(3, 30)), "rules")
    crules.check(ctx, b, crules.limits(), "limits")
    crules.check(ctx, b, crules.literals(r, ctx.scale(400, 20000)), "literals")
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cbase")
    bases = [(os.path.basename(p)[:-2], open(p).read()) for p in sorted(glob.glob(d + "/*.c"))]
    csyn.mutants(ctx, b, bases, ctx.scale(300, 6000), ctx.seed, "m")
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"],
                    "traces_validated_against_impl": c.get("grid", 0) + c.get("rules", 0) + c.get("limits", 0) + c.get("literals", 0) + c.get("programs", 0), "samples": [g[100], g[2000]] + ctx.samples[:3]})
    ctx.assumptions = ["rules of C the dialect does not have (types of operands of binary operators, argument counts, redeclaration in a scope, duplicate case values) are not judged",
                       "names used only in code that is never reached need not be declared"]
