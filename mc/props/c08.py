"""C08: equations: forms, sides, evaluation."""
import itertools
import math
import numpy as np
from .. import expr as E, sut

CHUNK = 4
RULE = ("every pair (left, right) of 27 expressions and 4 numbers, declared as residual (left-right) and as left==right; "
        "type, objects, value of residual and sides at given values, at current values before and after re-assignment, "
        "and through the compiled functions; plus every history of <=3 (thorough: <=4) redefinitions of one equation")
SIDES = ['x', 'y', 'q', 'p', 'w', 'k', 'h', 'e', 'z', 'l', 'Dx', 'Dw', ['+', 'x', 'y'], ['-', 'x', 3], ['*', 'x', 'w'],
         ['*', 'k', 'x'], ['*', 'p', 'w'], ['/', 'x', 'z'], ['/', 'p', 'z'], ['**', 'x', 2], ['Exp', 'w'], ['Abs', 'v'],
         ['Min', 'x', 'p'], ['Max', 'w', 2], ['+', ['*', 'l', 'z'], 'p'], ['-', ['*', 'k', 'w'], 'h'], ['*', 'h', 'k']]
NUMS = [2, -0.5, 0, 3.25, 1e-9, 98765.43210123]
REDEF = [('res', 'x', 'y'), ('res', ['*', 'x', 'w'], 'p'), ('elem', 'x', ['+', 'y', 'p']), ('elem', ['*', 'x', 'w'], 2),
         ('elem', 'w', ['Exp', 'v']), ('res', 'Dx', ['/', 'x', 'z']), ('elem', 'Dw', ['/', 'w', 'z']), ('bad', None, None),
         ('bad', 3.0, None), ('bad', 'x', None), ('elem', 'h', 'k')]


def bounds(tier):
    return "%d x %d sides, 2 forms; redefinition histories of <= %d" % (len(SIDES), len(SIDES) + len(NUMS),
                                                                       4 if tier == 'thorough' else 3)


def cases(tier):
    for l in SIDES:
        yield ['pair', l]
    for r in itertools.product(range(len(REDEF)), repeat=1 if tier != 'thorough' else 2):
        yield ['redef', list(r)]


def sub(l, r):
    return E.apply_ref('-', [E.ref(l), E.ref(r)])


def fun(eq, side, names, mech, vals):
    f = eq._convertToFunction({n: None for n in names}, side, mech)
    return f(*[vals[n] for n in names])


def observe(ctx, W, eq, form, L, R, what):
    rl, rr = E.ref(L), E.ref(R)
    r = sub(L, R)
    if r.diff:
        want = 'differential'
    else:
        want = {True: 'linear', False: 'nonlinear', None: None}[r.lin]
    if want is not None:
        ctx.eq(eq.type, want, "type of %s" % what)
    ctx.eq(set(eq.objects_declared), set(r.smap), "objects of %s" % what)
    for n in r.smap:
        ctx.check(eq.objects_declared[n] is W.obj[n], "%s refers to another object %s" % (what, n))
    node = eq(0)
    if form == 'res':
        ctx.check(eq() is node and eq(1) is node, "%s: the expression depends on the side" % what)
        for s in ('lhs', 'rhs'):
            ctx.raises(sut.AbsentRequiredObjectError, lambda: eq.eval({}, s), "%s: side %s of a residual" % (what, s))
        ctx.eq(set(node.symbolic_map), set(r.smap), "%s: objects of the expression" % what)
    else:
        ctx.check(eq() is eq(1), "%s: the default side is not the right one" % what)
        ctx.eq(set(node.symbolic_map), set(rl.smap), "%s: objects of the left side" % what)
        ctx.eq(set(eq(1).symbolic_map), set(rr.smap), "%s: objects of the right side" % what)
        ctx.raises(sut.UnexpectedValueError, lambda: eq(2), "%s: side 2" % what)
    if r.d is not None:
        for i in ((0, 1) if form != 'res' else (0,)):
            want_d = r.d if form == 'res' else (rl.d if i == 0 or rr.num else rr.d)
            ctx.check(E.same(sut.dims(eq(i).unit_object), want_d), "%s: unit of side %d: %r" % (what, i, sut.dims(
                eq(i).unit_object)))
    if r.diff:
        return
    for env in E.ENVS:
        vals = dict(env)
        vals.update(E.SPEC)
        for side, ref in [(None, r)] + ([('lhs', rl), ('rhs', rr)] if form == 'elem' else []):
            try:
                want = ref.f(env)
            except E.Undefined:
                ctx.skip()
                continue
            names = sorted(r.smap)
            given = {n: env[n] for n in r.vmap}
            ctx.close(eq.eval(given, side), want, "%s: value of side %s at %r" % (what, side, given))
            allv = {n: vals[n] for n in r.smap}
            ctx.close(eq.eval(allv, side), want, "%s: value of side %s at %r" % (what, side, allv))
            rev = dict(reversed(list(allv.items())))
            ctx.close(eq.eval(rev, side), want, "%s: value of side %s depends on the order of the values" % (what, side))
            for ns in (names, names[::-1]):
                for mech in ('numpy', 'math', 'mpmath'):
                    ctx.close(fun(eq, side, ns, mech, vals), want, "%s: %s function of side %s of %r at %r" % (
                        what, mech, side, ns, allv), 1e-9, 1e-9)
            ctx.state((side, round(want, 8)))
            ctx.step()
        # at the current values
        for n in r.vmap:
            W.obj[n].setValue(env[n])
        for side, ref in [(None, r)] + ([('lhs', rl), ('rhs', rr)] if form == 'elem' else []):
            try:
                want = ref.f(env)
            except E.Undefined:
                continue
            ctx.close(eq.eval(None, side), want, "%s: value of side %s at the current values %r" % (what, side, env))
            if side is None:
                ctx.close(eq.getResidual(), want, "%s: residual at the current values %r" % (what, env))
        for n in r.smap:
            ctx.eq(float(W.obj[n].value), float(vals[n]), "%s: evaluation altered %s" % (what, n))
    try:
        want, got = r.f(E.ENVS[0]), eq.eval({n: E.ENVS[0][n] for n in r.vmap})
    except E.Undefined:
        return
    ctx.close(got, want, "%s: value at %r after the objects were given values" % (what, E.ENVS[0]))


def reset(W):
    for n, (k, d, v) in E.LEAVES.items():
        if v is None:
            W.obj[n].value, W.obj[n].is_specified = 0, False


def defined(L, R):
    return E.constructible(E.ref(L)) and E.constructible(E.ref(R))


def pair(ctx, L):
    W = E.World()
    Lr = E.ref(L)
    for R in SIDES + NUMS:
        for form in ('res', 'elem'):
            reset(W)
            what = "%s %s %s" % (E.show(L), '-' if form == 'res' else '==', E.show(R))
            ctx.step(what)
            nl, nr = W.build(L), W.build(R)
            try:
                sub(L, R)
            except E.Rejected:
                def mk():
                    return sut.Equation('eq', '', nl - nr if form == 'res' else (nl == nr))
                ctx.raises(sut.DimensionalCoherenceError, mk, what)
                ctx.state('refused')
                continue
            except E.Undefined:
                ctx.skip()
                continue
            before = (E.contents(nl), E.contents(nr) if not isinstance(nr, (int, float)) else nr)
            eq = sut.Equation('eq', '', nl - nr if form == 'res' else (nl == nr))
            observe(ctx, W, eq, form, L, R, what)
            after = (E.contents(nl), E.contents(nr) if not isinstance(nr, (int, float)) else nr)
            ctx.check(before == after, "%s: declaring or evaluating the equation altered a side" % what)


def redef(ctx, prefix):
    for rest in itertools.product(range(len(REDEF)), repeat=2):
        W = E.World()
        eq = sut.Equation('eq', '')
        cur = None
        hist = []
        for i in list(prefix) + list(rest):
            form, L, R = REDEF[i]
            reset(W)
            if form == 'bad':
                hist.append('refused')
                bad = L if not isinstance(L, str) else W.obj['x']
                ctx.raises(sut.UnexpectedValueError, lambda: eq.setResidual(bad), "declaring %r" % (bad,))
            else:
                hist.append("%s %s %s" % (E.show(L), '-' if form == 'res' else '==', E.show(R)))
                nl, nr = W.build(L), W.build(R)
                eq.setResidual(nl - nr if form == 'res' else (nl == nr))
                cur = (form, L, R)
            ctx.step(hist[-1])
            if cur is not None and REDEF[i][0] != 'bad':
                light(ctx, W, eq, cur, ' ; '.join(hist))
        if cur is not None:
            reset(W)
            observe(ctx, W, eq, cur[0], cur[1], cur[2], ' ; '.join(hist))


def light(ctx, W, eq, cur, what):
    form, L, R = cur
    r = sub(L, R)
    ctx.eq(set(eq.objects_declared), set(r.smap), "objects of %s" % what)
    if not r.diff:
        env = E.ENVS[0]
        ctx.close(eq.eval({n: env[n] for n in r.vmap}), r.f(env), "value of %s" % what)
    ctx.state((what,))


def run_case(case, ctx):
    if case[0] == 'pair':
        pair(ctx, case[1])
    else:
        redef(ctx, case[1])
