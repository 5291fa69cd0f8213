"""S02: DOS services (I8086/Int21, conformance of recorded runs, console bytes and files)."""
from common import *
import s86, gen_s02

def run(ctx):
    ctx.level = "model_checking"
    b = build_tools(ctx, ("sim86",))
    sim = os.path.join(b, "sim86")
    progs = []
    for k in range(ctx.scale(3, 40)):
        s = ctx.seed + 1000 * k
        progs += [gen_s02.script(s, i) for i in range(ctx.scale(60, 120))] + [gen_s02.otherseg(s, i) for i in range(ctx.scale(16, 30))]
        progs += gen_s02.args_programs(s) + gen_s02.handles_programs(s) + gen_s02.stdin_programs(s)
    s86.validate(ctx, sim, progs, "s02", batch=30)
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": c.get("instructions", 0), "traces_validated_against_impl": c["programs"],
                    "samples": [{"program": p.tag, "files": {n: len(x) for n, x in p.files.items()}, "args": p.args} for p in progs[:3]],
                    "rule": "random interleavings of create/open/read/write/close/console calls on up to 12 handles with transfer sizes around 512 and the end of the file, "
                            "failing calls (missing files and directories, closed handles, wrong access), buffers in other segments, command tails of 0 to 200 characters, redirected input"})
    ctx.assumptions = ["zero-length writes (which truncate under DOS) and transfers that wrap the segment are not exercised",
                       "handle numbers and error codes are the implementation's choice"]
    if c.get("programs_ok", 0) + c.get("programs_failed", 0) < len(progs) // 2: raise CheckError("too few programs judged: %s" % c)
