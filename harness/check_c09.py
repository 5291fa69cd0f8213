"""C09: self-hosted tools behave like the native ones (SelfHost, SelfBoot)."""
import concurrent.futures, glob, os, random
from common import *
import asm, cast, cimg, clex, crules, crun, csyn, gen_asm, gen_c01, gen_c02, gen_c03, gen_c04, gen_c05, gen_pp, gen_s01, gen_s02, s86, selfhost
from selfhost import Job

def c_sources(ctx, n):
    s = ctx.seed + 900
    for tag, ps in (("expr", gen_c01.family_random(s, n)), ("flow", gen_c02.family_random(s, n)), ("call", gen_c03.family_random(s, n)), ("obj", gen_c04.family_random(s, n)),
                    ("str", gen_c04.family_strings(s, n)), ("names", gen_c05.family_random(s, n)), ("spell", gen_c05.family_spelling(s, max(1, n // 3))), ("tab", gen_c05.family_tables(s, max(1, n // 3)))):
        for i, p in enumerate(ps): yield "%s%d" % (tag, i), crun.render(p, random.Random("c09/%s/%d" % (tag, i)), .05)
    for i in range(n):
        its, src = cimg.random_program(random.Random("c09img/%d/%d" % (s, i)), 20); yield "img%d" % i, src

def bad_c(ctx, n):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cbase")
    bases = [(os.path.basename(p)[:-2], clex.tokens(open(p).read())) for p in sorted(glob.glob(d + "/*.c"))]
    for k in range(n):
        r = random.Random("c09bad/%d/%d" % (ctx.seed, k)); tag, toks = bases[k % len(bases)]
        if k % 5 == 0: t = toks[:r.randrange(len(toks))]
        else:
            t, i = csyn.mutate(r, toks)
        yield "bad:%s:%d" % (tag, k), csyn.text(r, t, r.randrange(3))[0]

def sim_jobs(ctx, n):
    """machine code: instruction traces, and programs that use DOS"""
    def rng(x): return random.Random("c09/%s/%d" % (x, ctx.seed))
    s = ctx.seed + 31
    progs = []
    for nm, its, per in (("alu", gen_s01.alu_items(rng("a")), 30), ("mem", gen_s01.mem_items(rng("m")), 30), ("misc", gen_s01.misc_items(rng("x")), 60),
                         ("string", gen_s01.string_items(rng("s")), 12), ("stack", gen_s01.stack_items(rng("t")), 20), ("flow", gen_s01.flow_items(rng("f")), 30)):
        rng(nm + "o").shuffle(its); progs += gen_s01.pack(nm, its[:per * n], rng(nm), per, s)
    progs += gen_s01.wrap_programs(s) + gen_s01.random_programs(s, n) + gen_s01.bad_programs(s)
    for p in progs:
        img = p.img
        if p.dump:      # not the part of memory the simulators are in
            k = img.rfind(b"\x31\xED\x8E\xDD")
            img = img[:k] + b"\x90\x90" + img[k + 2:]; img = img.replace(b"\x90\x90\x8E\xDD", b"\x90\x90\x8E\xDD")
            pre = b"\xBD\x00\x50"      # MOV BP,5000 ahead of the epilogue; INT 21 keeps it
            e = img.rfind(b"\x8C\xC8\x8E\xD8"); img = img[:e] + pre + img[e:]
            q = img.rfind(b"\xBA", 0, e + 3 + 10); o = img[q + 1] | img[q + 2] << 8; img = img[:q + 1] + gen_s01.w(o + 3) + img[q + 3:]
        yield Job("sim86", ["-v", "p.com"], {"p.com": img}, "sim:" + p.tag, keep=selfhost.nocs if p.dump else None)
        if p.tag.startswith("bad"): yield Job("sim86", ["p.com"], {"p.com": img}, "simq:" + p.tag)
    dos = [gen_s02.script(s, i) for i in range(12 * n)] + [gen_s02.otherseg(s, i, (0x5000, 0x6789, 0x7fff)) for i in range(6 * n)]
    for p in dos: yield Job("sim86", ["p.com"] + p.args, {"p.com": p.img, **p.files}, "dos:" + p.tag)
    for p in dos[:4 * n] + dos[-3 * n:]: yield Job("sim86", ["-v", "p.com"] + p.args, {"p.com": p.img, **p.files}, "dosv:" + p.tag)

def run(ctx):
    ctx.level = "model_checking"
    b = build_tools(ctx)
    failed = selfhost.build_hosted(ctx, b)
    for t, m in failed.items(): ctx.violation("build:" + t, "the native tools can't build %s.com: %s" % (t, m[-200:]), {"message.txt": m})
    c = ctx.counts
    if not failed:
        ex = concurrent.futures.ThreadPoolExecutor(1)
        boot = ex.submit(selfhost.boot, ctx, b)
        n = ctx.scale(8, 150); every = 20
        jobs = []
        for i, (t, src) in enumerate(c_sources(ctx, n)): jobs.append(Job("scc", ["p.c", "p.com"] if i % 3 else ["p.c"], {"p.c": src}, "scc:" + t, nested=i % (every * 2) == 0))
        for i, (t, src) in enumerate(bad_c(ctx, ctx.scale(120, 4000))): jobs.append(Job("scc", ["p.c", "p.com"], {"p.c": src, "p.com": b"kept"}, "scc:" + t, nested=i % (every * 2) == 0))
        r = random.Random("c09r/%d" % ctx.seed)
        for i, j in enumerate(crules.rules(r, 1) + [x for x in crules.limits() if x[0]["n"] < 700 or len(x[1]) < 6000]):
            if i % ctx.scale(3, 1) == ctx.seed % ctx.scale(3, 1): jobs.append(Job("scc", ["p.c", "p.com"], {"p.c": crules_source(j)}, "scc:rule%d" % i))
        pps = gen_pp.p01(ctx.seed, ctx.scale(60, 1500)) + gen_pp.p02(ctx.seed, ctx.scale(50, 1000)) + gen_pp.p03(ctx.seed, ctx.scale(60, 1500)) + gen_pp.p04(ctx.seed, ctx.scale(50, 1500))
        for i, x in enumerate(pps): jobs.append(Job("scpp", [x.files[0][0], "out.i"] if i % 3 else [x.files[0][0]], dict(x.files), "scpp:%s:%d" % (x.tag, i), nested=i % every == 0))
        as_ = gen_asm.a01(ctx.seed, ctx.scale(30, 800)) + gen_asm.a02(ctx.seed, ctx.scale(30, 800)) + gen_asm.a03(ctx.seed, ctx.scale(30, 800)) + gen_asm.a04(ctx.seed, ctx.scale(60, 3000))
        for i, x in enumerate(as_): jobs.append(Job("sas", ["t.asm", "o.com"] if i % 3 else ["t.asm"], {"t.asm": x.src, "o.com": b"kept"}, "sas:%s:%d" % (x.tag, i), nested=i % every == 0))
        for t in ("scc", "scpp", "sas"):
            ext = {"scc": "c", "scpp": "c", "sas": "asm"}[t]
            for k, a in enumerate(([], ["nosuch." + ext], ["nosuch." + ext, "x.out"], ["in." + ext, "d/x.out"], ["in." + ext, "x.out", "extra"], ["in." + ext, "in." + ext], ["in", "y"], ["in"], ["a.b." + ext])):
                f = {"scc": "void _start(void) { }\n", "scpp": "a\n", "sas": "nop: ret\n"}[t]
                jobs.append(Job(t, a, {"in." + ext: f, "in": f, "a.b." + ext: f}, "%s:args%d" % (t, k), nested=True))
        for k, a in enumerate(([], ["nosuch.com"], ["-v"], ["-v", "nosuch.com"])): jobs.append(Job("sim86", a, {}, "sim86:args%d" % k))
        jobs += list(sim_jobs(ctx, ctx.scale(1, 12)))
        step = 800
        for i in range(0, len(jobs), step): selfhost.validate(ctx, b, jobs[i:i + step], "j%d" % i)
        boot.result()
        ctx.samples = [{"input": j.tag, "tool": j.tool, "args": j.args} for j in jobs[:: max(1, len(jobs) // 6)]]
        if not ctx.violations and c.get("inputs", 0) < 500: raise CheckError("too few inputs")
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"], "traces_validated_against_impl": c.get("runs", 0) + c.get("builds_recorded", 0),
                    "samples": ctx.samples[:6] or [{"build": "failed"}]})
    ctx.assumptions = ["messages are compared without the native tools' own source line, the hosted ones' dump of return addresses, and what a failed assertion prints",
                       "inputs are within the memory of the hosted tools; a segment of the traced program may be relative to where the program was put",
                       "-p exists in the native simulator only"]

def crules_source(j): return j["src"] if isinstance(j, dict) else j[1]
