"""S03: -v and -p change nothing and tell the truth (I8086, recorded runs in all four modes)."""
import random
from common import *
import s86, gen_s01, gen_s02

def run(ctx):
    ctx.level = "model_checking"
    b = build_tools(ctx, ("sim86",))
    sim = os.path.join(b, "sim86")
    progs = []
    for k in range(ctx.scale(2, 24)):
        s = ctx.seed + 1000 * k
        progs += [gen_s02.script(s + 50, i, modes=True) for i in range(ctx.scale(30, 80))]
        q = gen_s01.random_programs(s + 77, ctx.scale(16, 60)) + gen_s01.pack("flow", gen_s01.flow_items(random.Random(s)), random.Random(s), 24, s) + \
            gen_s01.pack("mem", gen_s01.mem_items(random.Random(s + 1)), random.Random(s + 1), 40, s + 1) + gen_s01.wrap_programs(s)
        if k % 2 == 0:
            for nm, f, per in (("alu", gen_s01.alu_items, 40), ("misc", gen_s01.misc_items, 60), ("string", gen_s01.string_items, 16), ("stack", gen_s01.stack_items, 12)):
                q += gen_s01.pack(nm, f(random.Random("s03/%s/%d" % (nm, s))), random.Random("s03p/%s/%d" % (nm, s)), per, s)
        for p in q: p.modes = True; p.names = True; p.syms = [("_start", 0x100), ("f", 0x180), ("g", 0x1A3), ("data", 0x300)]
        progs += q
        r = gen_s02.args_programs(s)
        for p in r: p.names = True; p.modes = len(" ".join(p.args)) < 60 and not (p.args and p.args[0] in ("-v", "-p"))
        progs += r + gen_s02.handles_programs(s)
    s86.validate(ctx, sim, progs, "s03", batch=25)
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": c.get("instructions", 0), "traces_validated_against_impl": c["programs"],
                    "samples": [{"program": p.tag, "bytes": p.img[:40].hex()} for p in progs[:3]],
                    "rule": "programs of S01 and S02 run plain, with -v, with -p and with both: same console, files, memory and exit code; trace checked step by step (address, mnemonic, operands, registers, flags) against the specification; "
                            "the profile lists exactly the executed addresses with their instruction and symbol, its totals add up, program size and lowest stack pointer are right"})
    ctx.assumptions = ["operands are compared as registers, addresses and values, not as text; the override of a plain address and the operand size need not be shown",
                       "how many cycles the profile counts for an instruction is up to the simulator, but at least one"]
    ctx.cov["profiles"] = sum(p.modes for p in progs)
    if c.get("programs_ok", 0) + c.get("programs_failed", 0) < len(progs) // 2: raise CheckError("too few programs judged: %s" % c)
