"""C05: names denote the innermost declaration (CSem, translation validation)."""
from csuite import suite
import gen_c05

def run(ctx):
    def rounds():
        yield "rand", gen_c05.family_random(ctx.seed, ctx.scale(400, 8000)), 0.0
        yield "spell", gen_c05.family_spelling(ctx.seed, ctx.scale(24, 500)), 0.0
        yield "tab", gen_c05.family_tables(ctx.seed, ctx.scale(30, 600)), 0.0
    suite(ctx, rounds(), "random programs over a small pool of confusable spellings declared at file scope, as parameters and in nested blocks as variables, "
          "enumerators, typedefs, tags, members, labels, statics; programs with many colliding identifiers")
