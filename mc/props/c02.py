"""C02: dimensional coherence of expressions."""
from .. import expr as E, exprcheck as X, sut

CHUNK = 4
RULE = ("every expression of <=2 (thorough: <=3) operations, of 3 operations with two composed sides, and long ones of 5 (thorough: 6) operands joined in every way by + - * /, over variables, specified/unspecified parameters, constants, "
        "a derivative and plain numbers; + - * / **, 8 functions, Min/Max; each built with the real operators and "
        "compared with 7-component exponent arithmetic")


def bounds(tier):
    return "operations per expression <= %d" % (3 if tier == 'thorough' else 2)


def cases(tier):
    return X.cases('units', tier)


def run_case(case, ctx):
    def check(world, prog, r, node):
        if r.d is None:
            return
        got = sut.dims(node.unit_object)
        ctx.check(E.same(got, r.d), lambda: "dimension of %s: expected %r, got %r" % (E.show(prog), r.d, got))
        ctx.state(tuple(sorted(E._norm(r.d).items())))
    snap = sut.template_snapshot()
    X.run('units', case, ctx, check)
    ctx.eq(sut.template_snapshot(), snap, "predefined units after building the expressions")
