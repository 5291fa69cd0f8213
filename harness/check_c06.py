"""C06: meaning does not depend on layout (CLex, CLayout, CMunch)."""
import os, random
from common import *
import cast, clex, crun, gen_c01, gen_c02, gen_c03, gen_c04, gen_c05

ALL = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "alltokens.c")).read()

def run(ctx):
    ctx.level = "model_checking"
    build_tools(ctx)
    b = ctx.path("bin")
    trs = clex.munch(ctx, b, 3, "full")
    if not ctx.quick(): clex.munch(ctx, b, 5, "small")
    clex.literals(ctx, b, ctx.seed, ctx.scale(40, 1200))
    small = clex.layout(random.Random("x"), clex.tokens(ALL), "tight", False)
    clex.shifts(ctx, b, ALL, range(0, ctx.scale(514, 1200)), "all")
    clex.shifts(ctx, b, small, range(0, ctx.scale(130, 1200)), "tight")
    progs = [("alltokens", ALL)]
    n = ctx.scale(4, 60)
    for tag, ps in families(ctx, n):
        for i, p in enumerate(ps): progs.append(("%s%d" % (tag, i), crun.render(p)))
    clex.layouts(ctx, b, progs[:1], ctx.scale(24, 400), "alltok")
    clex.layouts(ctx, b, progs[1:], ctx.scale(4, 12), "lay")
    c = ctx.counts
    ctx.cov.update({"states": ctx.tlc_stats["states"], "transitions": ctx.tlc_stats["states"] - ctx.tlc_stats["runs"],
                    "traces_validated_against_impl": c.get("layouts", 0) + c.get("shifts", 0) + c.get("munch_enumerated", 0) + c.get("literals", 0),
                    "samples": [{"operators": t[0], "meaning": t[1], "r_a_b": t[2]} for t in trs[100:103]] + [{"program": progs[1][1][:300]}]})
    ctx.assumptions = ["source text has no NUL characters; a hexadecimal escape has at most two digits", "numbers have at most eight digits after the prefix"]

def families(ctx, n):
    s = ctx.seed + 77
    yield "expr", gen_c01.family_random(s, n)
    yield "flow", gen_c02.family_random(s, n)
    yield "call", gen_c03.family_random(s, n)
    yield "obj", gen_c04.family_random(s, n)
    yield "strs", gen_c04.family_strings(s, n)
    yield "names", gen_c05.family_random(s, n)
    yield "spell", gen_c05.family_spelling(s, max(1, n // 4))
