"""Common run of a family of C programs through the real compiler and simulator against spec/CSem.tla."""
import random
from common import *
import crun, cast

ASSUME = ["the program is executed by the sim86 built from the same tree (its own behaviour is the subject of S01-S03)",
          "programs whose behaviour C leaves undefined (found by the specification) are not judged",
          "TLC integers are 32 bits; 16-bit arithmetic is modelled without overflowing them"]

def suite(ctx, rounds, rule, maxsteps=20000):
    ctx.level = "translation_validation"
    build_tools(ctx)
    nprog = 0
    for tag, progs, parens in rounds:
        srcs = [crun.render(p, random.Random("%s/%d/%d" % (tag, ctx.seed, i)), parens) for i, p in enumerate(progs)]
        nprog += len(progs)
        if len(ctx.samples) < 4 and srcs: ctx.samples.append({"family": tag, "source": srcs[0][len(crun.PRELUDE):][:700]})
        crun.validate(ctx, progs, srcs, tag, maxsteps=maxsteps)
        if ctx.counts.get("programs_fuel", 0) > nprog // 5: raise CheckError("too many programs run out of fuel")
    c = ctx.counts
    ctx.cov.update({"programs": nprog, "disagreements_checked": c.get("observations", 0), "samples": ctx.samples,
                    "rule": rule, "programs_ok": c.get("programs_ok", 0), "programs_undefined_not_judged": c.get("programs_undef", 0)})
    ctx.assumptions = ASSUME
    if c.get("programs_ok", 0) + len(ctx.violations) < nprog // 2: raise CheckError("fewer than half of the programs were judged: %s" % c)
