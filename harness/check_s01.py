"""S01: each simulated instruction has the 8086's effect (I8086, conformance of recorded instruction traces and final memory)."""
import random
from common import *
import s86, gen_s01

def run(ctx):
    ctx.level = "model_checking"
    b = build_tools(ctx, ("sim86",))
    sim = os.path.join(b, "sim86")
    progs = []
    for k in range(ctx.scale(2, 24)):
        s = ctx.seed + 1000 * k
        def rng(x): return random.Random("s01/%s/%d" % (x, s))
        progs += gen_s01.pack("alu", gen_s01.alu_items(rng("a")), rng("a1"), 24, s)
        progs += gen_s01.pack("pair16", gen_s01.pair_items(rng("p"), 1), rng("p1"), 60, s)
        progs += gen_s01.pack("pair8", gen_s01.pair_items(rng("q"), 0), rng("q1"), 60, s)
        progs += gen_s01.pack("mem", gen_s01.mem_items(rng("m")), rng("m1"), 24, s)
        progs += gen_s01.pack("misc", gen_s01.misc_items(rng("x")), rng("x1"), 60, s)
        progs += gen_s01.pack("string", gen_s01.string_items(rng("s")), rng("s1"), 10, s)
        progs += gen_s01.pack("stack", gen_s01.stack_items(rng("t")), rng("t1"), 12, s)
        progs += gen_s01.pack("flow", gen_s01.flow_items(rng("f")), rng("f1"), 24, s)
        progs += gen_s01.wrap_programs(s)
        if k == 0: progs += gen_s01.bad_programs(s)
        progs += gen_s01.random_programs(s, ctx.scale(12, 40))
    s86.validate(ctx, sim, progs, "s01", batch=40)
    # PUSH SP stores the decremented value on the 8086 and the original one on later processors: either will do
    a = gen_s01.Asm(random.Random(1)); a.segs(); a.movr(4, 0x1000); a.e(0x54, 0x58, 0x54, 0x5B); gen_s01.epilogue(a)
    va = []
    for how in ("old", "new"):
        p = s86.Prog(bytes(a.b), dump=True, tag="pushsp", pushsp=how)
        r = s86.record(ctx, sim, p); j, bad = s86.jrec(ctx, p, r)
        va.append(s86.check_batches(ctx, [j], "pushsp", 1)[0])
    if not any(v[0] == "ok" for v in va): ctx.violation("pushsp", "PUSH SP: %s" % (va[0],), {"prog.com": p.img})
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": c.get("instructions", 0), "traces_validated_against_impl": c["programs"],
                    "samples": [{"program": p.tag, "bytes": p.img[:40].hex()} for p in progs[:3]],
                    "rule": "ALU op x form x boundary operands, all addressing modes x segment override x wrapping offsets, shifts by 0..255, products, quotients, "
                            "string instructions x repeat prefix x count, stack wrap, jumps on every condition, calls, all unimplemented encodings; final memory compared whole"})
    ctx.assumptions = ["the registers are read from sim86 -v, the final memory from a run without -v by a dump the program itself makes",
                       "flags and values the 8086 leaves undefined are not compared; PUSH SP may behave as on the 8086 or the 80286",
                       "the direction flag does not exist in the simulator and is taken as clear"]
    if c.get("programs_ok", 0) + c.get("programs_failed", 0) < 50: raise CheckError("too few programs judged: %s" % c)
