"""C04: objects keep their values, layout, pointer arithmetic (CSem, translation validation)."""
from csuite import suite
import gen_c04

def run(ctx):
    def rounds():
        yield "rand", gen_c04.family_random(ctx.seed, ctx.scale(330, 6000)), 0.03
        for i in range(ctx.scale(1, 8)): yield "frame%d" % i, gen_c04.family_frames(ctx.seed + i, 0, 1), 0.03
        yield "edge", gen_c04.family_edges(ctx.seed, ctx.scale(86, 900)), 0.03
        yield "big", gen_c04.family_big(ctx.seed, ctx.scale(3, 40)), 0.03
        yield "union", gen_c04.family_unions(ctx.seed, ctx.scale(30, 400)), 0.03
        yield "str", gen_c04.family_strings(ctx.seed, ctx.scale(80, 1500)), 0.03
    suite(ctx, rounds(), "random struct/union/array/pointer types, objects of every storage class; random stores through every form of path, "
          "all objects observed afterwards; sizes, offsets, pointer arithmetic, walks, struct assignment, initialisers, literals, statics; objects up to 4096 elements")
