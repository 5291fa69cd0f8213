"""C03: calls, arguments, recursion, varargs, function pointers (CSem, translation validation)."""
from csuite import suite
import gen_c03

def run(ctx):
    def rounds():
        yield "rand", gen_c03.family_random(ctx.seed, ctx.scale(400, 6000)), 0.05
        yield "rec", gen_c03.family_recursion(ctx.seed, ctx.scale(120, 2500)), 0.05
    suite(ctx, rounds(), "random call graphs: 0-8 arguments of every type (up to 19 variable ones), nested calls in arguments and operands, undeclared, declared and defined functions, "
          "varargs, function pointers in locals, parameters, members and conditional expressions, recursion to depth 60 with locals")
