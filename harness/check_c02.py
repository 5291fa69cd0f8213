"""C02: control flow (CSem, translation validation of generated programs)."""
from csuite import suite
import gen_c02

def run(ctx):
    def rounds():
        q = ctx.scale(1, 0)
        if q:
            for i in range(2): yield "dist%d" % i, gen_c02.family_distance(ctx.seed, i, 2, 104, 136), 0
        else:
            for k in range(4):
                for i in range(2): yield "dist%d_%d" % (k, i), gen_c02.family_distance(ctx.seed + k, i, 2, 60, 180), 0
        yield "rand", gen_c02.family_random(ctx.seed, ctx.scale(240, 5000)), 0.05
        yield "deep", gen_c02.family_random(ctx.seed + 1000, ctx.scale(40, 1200), 6, 50), 0.05
    suite(ctx, rounds(), "every control construct x code size around the short/near jump limits; random nestings of all statements "
          "with locals at every level, goto and switch included; each function called with several arguments")
