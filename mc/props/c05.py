"""C05: classification linear / nonlinear / differential."""
from .. import expr as E, exprcheck as X, sut

CHUNK = 4
RULE = ("every expression of <=2 (thorough: <=3) operations, of 3 operations with two composed sides, and long ones of 5 (thorough: 6) operands joined in every way by + - * /: differential iff a derivative occurs; nonlinear whenever "
        "unspecified objects are multiplied together, divided by, raised or passed to a function; linear for sums, "
        "differences and scalings of unspecified objects")


def bounds(tier):
    return "operations per expression <= %d" % (3 if tier == 'thorough' else 2)


def cases(tier):
    return X.cases('type', tier)


def run_case(case, ctx):
    def check(world, prog, r, node):
        got = E.key_type(node)
        want = ('differential',) if r.diff else {True: ('linear',), False: ('nonlinear',),
                                                 None: ('linear', 'nonlinear')}[r.lin]
        ctx.check(got in want, "class of %s: expected %s, got %s" % (E.show(prog), '/'.join(want), got))
        eq = sut.Equation('eq', '', node)
        ctx.check(eq.type in want, "class of the equation %s = 0: expected %s, got %s" % (
            E.show(prog), '/'.join(want), eq.type))
        ctx.state((got, want, tuple(sorted(r.vmap))))
    X.run('type', case, ctx, check)
