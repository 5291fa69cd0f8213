"""C01: compiled expressions compute the C value (CSem, translation validation of generated programs)."""
from csuite import suite
import gen_c01

def run(ctx):
    def rounds():
        s0 = ctx.seed
        n = ctx.scale(4, 24)
        yield "inc", gen_c01.family_incdec(s0, ctx.scale(3, 24)), 0.1
        for i in range(ctx.scale(1, 4)): yield "const%d" % i, gen_c01.family_consts(s0 + i, 0, 1), 0.1
        for i in range(n): yield "pairs%d" % i, gen_c01.family_pairs(s0 + i // 4, i % 4, 4), 0.15
        yield "rand", gen_c01.family_random(s0, ctx.scale(220, 6000)), 0.15
        yield "deep", gen_c01.family_random(s0 + 500, ctx.scale(40, 1500), (4, 6), 3), 0.3
    suite(ctx, rounds(), "every operator x operand kind x operand kind and every compound assignment x lvalue kind x operand kind, "
          "++/-- on every type, storage and form; operators with constants around every encoding boundary, "
          "with boundary values, in 22 syntactic contexts; random expressions of depth 2-6 with side effects")
