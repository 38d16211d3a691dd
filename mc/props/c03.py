"""C03: value of expressions."""
import cmath

from .. import expr as E, exprcheck as X, sut

CHUNK = 4
FUN = {'log': cmath.log, 'sqrt': cmath.sqrt, 'exp': cmath.exp, 'Abs': abs, 'sin': cmath.sin, 'cos': cmath.cos,
       'tan': cmath.tan, 'Min': lambda *a: min(a, key=lambda v: complex(v).real),
       'Max': lambda *a: max(a, key=lambda v: complex(v).real), 'pi': cmath.pi, 'E': cmath.e}
RULE = ("every expression of <=2 (thorough: <=3) operations, of 3 operations with two composed sides, and long ones of 5 (thorough: 6) operands joined in every way by + - * /, over variables, specified/unspecified parameters, constants "
        "and plain numbers, evaluated by the real code at two assignments and compared with Python arithmetic; the "
        "textual form of each expression is evaluated too, with the names of the specified objects")


def bounds(tier):
    return "operations per expression <= %d, 2 assignments" % (3 if tier == 'thorough' else 2)


def cases(tier):
    return X.cases('value', tier)


def run_case(case, ctx):
    def check(world, prog, r, node):
        if r.diff:
            return
        eq = sut.Equation('eq', '', node)
        for i, env in enumerate(E.ENVS):
            try:
                want = r.f(env)
            except E.Undefined:
                ctx.skip()
                continue
            given = {n: env[n] for n in r.vmap}
            got = eq.eval(given)
            ctx.close(got, want, "value of %s at %r" % (E.show(prog), env), 1e-9, 1e-9)
            full = {n: float(E.SPEC[n] if n in E.SPEC else env[n]) for n in r.smap}
            try:
                got = eval(repr(node), {'__builtins__': {}}, {**FUN, **full})
            except (ZeroDivisionError, OverflowError):        # the text was rearranged through an undefined step
                continue
            ctx.close(got, want, "value of the textual form %r of %s at %r" % (repr(node), E.show(prog), env),
                      1e-9, 1e-9)
            ctx.state((i, round(want, 9)))
    X.run('value', case, ctx, check)
