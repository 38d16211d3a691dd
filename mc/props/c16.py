"""C16: simulation of differential-algebraic systems."""
import itertools
import math
import numpy as np
from .. import sut, dyn

CHUNK = 2
RULE = ("8 differential-algebraic systems of 2-4 unknowns (linear and nonlinear algebraic equations, two-sided and residual, "
        "derivatives in any place of the expression): every order of equations, declarations and domain columns, over one "
        "or two models; chains of 12-14 (thorough: 24) unknowns in different orders; output points, initial times, renamed columns and inconsistent algebraic initial values; histories "
        "of <=2 (thorough: <=3) changes and runs; oracle: the algebraic unknowns eliminated by hand and an independent "
        "Runge-Kutta integration, plus every algebraic equation at every output point")
f = sut.ops

# unknowns, differential states with initial values, [equations], rhs of the reduced system, algebraic unknowns from states
DAE = [
    ('xy', {'x': 1.}, [lambda o: o.x.Diff(o.t) == -1 * o.y(), lambda o: o.y() - 2 * o.x()],
     lambda t, s: [-2 * s[0]], lambda s: {'y': 2 * s[0]}),
    ('xy', {'x': 1.}, [lambda o: o.x.Diff(o.t) + o.y() * o.k(), lambda o: o.y() == o.x() ** 2 + 1.],
     lambda t, s: [-.5 * (s[0] ** 2 + 1)], lambda s: {'y': s[0] ** 2 + 1}),
    ('xyz', {'x': 1., 'y': -1.}, [lambda o: o.x.Diff(o.t) == o.z() - o.x(), lambda o: o.y.Diff(o.t) - o.x() * o.p(),
                                  lambda o: o.z() + o.y() - 3.],
     lambda t, s: [3 - s[1] - s[0], 1.25 * s[0]], lambda s: {'z': 3 - s[1]}),
    ('xyz', {'x': 0.5}, [lambda o: o.x.Diff(o.t) == o.y() + o.z(), lambda o: o.y() == f.Exp(o.x() * -1),
                         lambda o: o.z() * 2. == o.y() - o.k()],
     lambda t, s: [math.exp(-s[0]) + .5 * (math.exp(-s[0]) - .5)],
     lambda s: {'y': math.exp(-s[0]), 'z': .5 * (math.exp(-s[0]) - .5)}),
    ('xyz', {'x': 2., 'y': 1.}, [lambda o: 2 * o.x.Diff(o.t) - o.y.Diff(o.t) - o.z(), lambda o: o.y.Diff(o.t) + o.x(),
                                 lambda o: o.z() == o.x() * o.y()],
     lambda t, s: [(s[0] * s[1] - s[0]) / 2, -s[0]], lambda s: {'z': s[0] * s[1]}),
    ('wxyz', {'w': 1., 'z': 0.5}, [lambda o: o.w.Diff(o.t) == o.x() - o.w(), lambda o: o.x() == o.y() + o.z(),
                                   lambda o: o.y() - 2 * o.w(), lambda o: o.z.Diff(o.t) == o.p() * o.w() - o.y() * o.k()],
     lambda t, s: [2 * s[0] + s[1] - s[0], 1.25 * s[0] - s[0]], lambda s: {'y': 2 * s[0], 'x': 2 * s[0] + s[1]}),
    ('xy', {'y': 1.}, [lambda o: o.x() - o.y() * 3. + 1, lambda o: o.y.Diff(o.t) == -0.5 * o.x()],
     lambda t, s: [-.5 * (3 * s[0] - 1)], lambda s: {'x': 3 * s[0] - 1}),
    ('xyz', {'y': 1.}, [lambda o: f.Log(o.z()) == o.y(), lambda o: f.Sqrt(o.x()) - o.z(), lambda o: o.y.Diff(o.t) + o.x() / 9. - f.Sin(o.y())],
     lambda t, s: [-math.exp(2 * s[0]) / 9 + math.sin(s[0])], lambda s: {'z': math.exp(s[0]), 'x': math.exp(2 * s[0])}),
]
HIST = ['ic', 'p=2', 'resolve', 'run', 'again', 'reset', 'end', 'rename', 'start']


def bounds(tier):
    return "8 systems, all orders; histories of <= %d steps from %d" % (3 if tier == 'thorough' else 2, len(HIST))


def cases(tier):
    for k in range(len(DAE)):
        yield ['conf', k]
        yield ['missing', k]
        yield ['subset', k]
        for eo in itertools.permutations(range(len(DAE[k][2]))):
            yield ['order', k, list(eo)]
    for n in (6, 7) + ((12,) if tier == 'thorough' else ()):
        yield ['big', n]
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]


def build(k, eq_order=None, var_order=None, dom_order=None, split=False):
    names, y0, eqs, rhs, alg = DAE[k]
    n = len(names)
    un = sut.tu.dimless
    ms = [sut.Model('A', ''), sut.Model(dyn.SECOND, '')] if split else [sut.Model('A', '')]
    o = dyn.O()
    o.t = ms[0].createVariable(dyn.NM['t'], un, '')
    for i, j in enumerate(var_order or range(n)):
        setattr(o, names[j], ms[i % len(ms)].createVariable(dyn.NM[names[j]], un, ''))
    o.k = ms[0].createConstant('k', un, '')
    o.k.setValue(0.5)
    o.p = ms[-1].createParameter('p', un, '')
    o.p.setValue(1.25)
    dom = sut.Domain('D', un, [o.t])
    for i in (dom_order or range(n)):
        getattr(o, names[i]).distributeOnDomain(dom)
    for i, j in enumerate(eq_order or range(n)):
        ms[(i + 1) % len(ms)].createEquation('e%d' % j, '', eqs[j](o), check_equation=False)
    p = sut.Problem('P', '')
    p.addModels(ms)
    p.resolve()
    p.setTimeVariableName([o.t.name])
    initial(k, o, p)
    return o, dom, p


def initial(k, o, p, t0=0., off=0.):
    names, y0, eqs, rhs, alg = DAE[k]
    st = [v for v in names if v in y0]
    s = [y0[v] for v in st]
    p.setInitialConditions({o.t.name: t0})
    p.setInitialConditions({getattr(o, v).name: y0[v] for v in st})
    p.setInitialConditions({getattr(o, v).name: x + off for v, x in alg(s).items()})
    p.setInitialConditions({getattr(o, v).name + '_d': x + off for v, x in zip(st, rhs(t0, s))})
    if off:
        # derivatives of the others are of no use
        p.setInitialConditions({getattr(o, v).name + '_d': 5. + off for v in alg(s)})


def reference(k, times):
    names, y0, eqs, rhs, alg = DAE[k]
    st = [v for v in names if v in y0]
    rows = dyn.trajectory('dae%d' % k, rhs, [y0[v] for v in st], times)
    out = []
    for r in rows:
        v = dict(zip(st, r))
        v.update(alg(r))
        out.append([v[n] for n in names])
    return out


def compare(ctx, res, o, names, times, ref, what, rename=None):
    rename = rename or {}
    ctx.eq(list(res), [o.t.name], what + ': independent variables')
    cols = res[o.t.name]
    want = [rename.get(v, getattr(o, v).name) for v in ('t',) + tuple(names)]
    ctx.eq(sorted(cols), sorted(want), what + ': columns')
    ctx.eq(len(cols[want[0]]), len(times), what + ': rows')
    for i, x in enumerate(times):
        ctx.close(cols[want[0]][i], x, "%s: time of row %d" % (what, i), 1e-9, 1e-9)
        for j, v in enumerate(names):
            ctx.close(cols[want[1 + j]][i], ref[i][j], "%s: %s at t=%g" % (what, v, x), 2e-4, 2e-4)


def run_conf(k, ctx):
    names, y0 = DAE[k][:2]
    for n in (3, 1, None, 'points', 'short'):
        for t0 in (0., 0.5):
            for off in (0., 0.3, 1e-3):
                for rename in ({}, {'x': 'pos'}, {'t': 'T', 'x': 'a', 'y': 'b'}):
                    if n in (None, 'points', 'short') and rename:
                        continue
                    what = "system %d, %s steps from %g, algebraic offset %g, renaming %r" % (k, n, t0, off, rename)
                    ctx.step(what)
                    o, dom, p = build(k)
                    initial(k, o, p, t0, off)
                    s = sut.sim()('S', '', p)
                    t1 = t0 + (0.3 if n == 'short' else 1.)
                    steps = None if n == 'short' else n
                    if n == 'points':
                        times = [t0, t0 + .2, t0 + .7, t1]
                        extra = dict(times_for_solution=np.array(times))
                    else:
                        extra = dict(number_of_time_steps=steps)
                        times = None if steps is None else list(np.linspace(t0, t1, steps + 1))
                    s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name=o.t.name, initial_time=t0, end_time=t1,
                                        variable_name_map={getattr(o, v).name: x for v, x in rename.items()}, **extra)
                    s.runSimulation()
                    res = s.getResults('dict')
                    if times is None:
                        times = list(res[o.t.name][o.t.name])
                        ctx.check(len(times) > 1 and abs(times[0] - t0) < 1e-9 and abs(times[-1] - t1) < 1e-9 and
                                  times == sorted(times), "%s: times %r" % (what, times))
                    compare(ctx, res, o, names, times, reference(k, times), what, rename)
                    ctx.state((k, n, t0, off, str(rename)))


def run_order(k, eo, ctx):
    names, y0 = DAE[k][:2]
    n = len(names)
    perms = list(itertools.permutations(range(n)))
    for vi, vo in enumerate(perms):
        for di, do in enumerate(perms):
            if n > 2 and (vi + di + sum(i * e for i, e in enumerate(eo))) % {3: 1, 4: 8}[n] and ctx.tier == 'quick':
                continue
            if n == 4 and ctx.tier == 'thorough' and (vi + di) % 6:
                continue
            for split in (False, True):
                what = "system %d, equations %s, declarations %s, columns %s%s" % (k, eo, vo, do, ', two models' if split else '')
                ctx.step(what)
                o, dom, p = build(k, eo, vo, do, split)
                s = sut.sim()('S', '', p)
                s.setConfigurations(is_dynamic=True, domain=dom, end_time=0.4, number_of_time_steps=2)
                s.runSimulation(show_output_msg=False, show_final_residuals=False)
                times = [0., .2, .4]
                compare(ctx, s.getResults('dict'), o, names, times, reference(k, times), what)
                ctx.state((k, tuple(eo), vo, do, split))


def run_subset(k, ctx):
    """Algebraic variables left out of the domain are not in the results."""
    names, y0 = DAE[k][:2]
    n = len(names)
    alg = [i for i in range(n) if names[i] not in y0]
    for r in range(1, len(alg) + 1):
        for out in itertools.combinations(alg, r):
            for do in itertools.permutations([i for i in range(n) if i not in out]):
                for eo in (list(range(n)), list(reversed(range(n)))):
                    what = "system %d, equations %s, columns %s" % (k, eo, do)
                    ctx.step(what)
                    o, dom, p = build(k, eo, None, do)
                    s = sut.sim()('S', '', p)
                    s.setConfigurations(is_dynamic=True, domain=dom, end_time=0.4, number_of_time_steps=2)
                    s.runSimulation(show_output_msg=False, show_final_residuals=False)
                    times = [0., .2, .4]
                    kept = [i for i in range(n) if i in do]
                    ref = [[row[i] for i in kept] for row in reference(k, times)]
                    compare(ctx, s.getResults('dict'), o, [names[i] for i in kept], times, ref, what)
                    ctx.state((k, 'subset', do, tuple(eo)))


def run_big(n, ctx):
    """a chain of n states and n algebraic unknowns: xi' = yi - xi ; yi = 2 x(i-1) (y0 = 1.5)"""
    from .c15 import orders
    times = [0., 0.3, 0.7]
    x0 = [1. - 0.25 * i for i in range(n)]
    rows = dyn.trajectory('daechain%d' % n, lambda t, s: [1.5 - s[0]] + [2 * s[i - 1] - s[i] for i in range(1, n)], x0, times)
    ref = [r + [1.5] + [2 * v for v in r[:-1]] for r in rows]
    for eo, vo, do in itertools.product(orders(2 * n), repeat=3):
        if eo != vo and vo != do and eo != do:
            continue
        what = "chain of %d states, equations %s, declarations %s, columns %s" % (n, eo, vo, do)
        ctx.step(what)
        un = sut.tu.dimless
        ms = [sut.Model('A', ''), sut.Model(dyn.SECOND, '')]
        o = dyn.O()
        o.t = ms[0].createVariable('t', un, '')
        dom = sut.Domain('D', un, [o.t])
        names = ['x%d' % i for i in range(n)] + ['y%d' % i for i in range(n)]
        for i in vo:
            setattr(o, names[i], ms[i % 3 % 2].createVariable(names[i], un, ''))
        v = [getattr(o, k) for k in names]
        for i in do:
            v[i].distributeOnDomain(dom)
        for i in eo:
            if i < n:
                e = v[i].Diff(o.t) == v[n + i]() - v[i]()
            elif i == n:
                e = v[n]() - 1.5
            else:
                e = v[i]() == 2 * v[i - n - 1]()
            ms[i % 2].createEquation('e%d' % i, '', e, check_equation=False)
        p = sut.Problem('P', '')
        p.addModels(ms)
        p.resolve()
        p.setTimeVariableName([o.t.name])
        y0 = [1.5] + [2 * x for x in x0[:-1]]
        p.setInitialConditions({o.t.name: 0.})
        p.setInitialConditions({a.name: b for a, b in zip(v, x0 + y0)})
        p.setInitialConditions({a.name + '_d': y - x for a, x, y in zip(v, x0, y0)})
        s = sut.sim()('S', '', p)
        s.setConfigurations(is_dynamic=True, domain=dom, end_time=0.7, times_for_solution=times)
        s.runSimulation(show_output_msg=False, show_final_residuals=False)
        compare(ctx, s.getResults('dict'), o, names, times, ref, what)
        ctx.state((n, eo[0], vo[0], do[0], vo[1]))


def run_missing(k, ctx):
    names, y0 = DAE[k][:2]
    for absent in ('t',) + tuple(names) + tuple(v + '_d' for v in y0):
        o, dom, p = build(k)
        full = getattr(o, absent[0]).name + absent[1:]
        p.initial_conditions = {n: v for n, v in p.initial_conditions.items() if n != full}
        s = sut.sim()('S', '', p)
        what = "system %d without initial condition of %s" % (k, absent)
        ctx.step(what)

        def go():
            s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name=o.t.name, end_time=1., number_of_time_steps=2)
            s.runSimulation()
        ctx.raises(sut.AbsentRequiredObjectError if absent == 't' else (KeyError, sut.AbsentRequiredObjectError), go, what)
        ctx.eq(len(dom.values[o.t.name]), 0, what + ': rows of results')


def run_history(ops, ctx):
    class M(sut.Model):
        def __init__(self, name, d):
            super().__init__(name, d)
            un = sut.tu.dimless
            self.t, self.x, self.y, self.z = [self.createVariable(v, un, '') for v in 'txyz']
            self.p = self.createParameter('p', un, '')
            self.p.setValue(1.25)
            self.dom = sut.Domain('D', un, [self.t])
            for v in (self.z, self.x, self.y):
                v.distributeOnDomain(self.dom)

        def DeclareEquations(self):
            self.createEquation('ez', '', self.z() == self.p() * self.x() + 1.)
            self.createEquation('ex', '', self.x.Diff(self.t) == self.y())
            self.createEquation('ey', '', self.y.Diff(self.t) + self.z())
    m = M('M', '')
    pb = sut.Problem('P', '')
    pb.addModels(m)
    pb.resolve()
    pb.setTimeVariableName(['t_M'])
    ic, p, active = [1., 0.5], 1.25, 1.25
    conf = dict(end_time=0.5, initial_time=0., number_of_time_steps=2, variable_name_map={})

    def setic(ic, a, t0):
        pb.setInitialConditions({'t_M': t0, 'x_M': ic[0], 'y_M': ic[1], 'z_M': a * ic[0] + 1., 'x_M_d': ic[1],
                                 'y_M_d': -a * ic[0] - 1.})
    setic(ic, active, 0.)
    rows, names, s = [], {v: v + '_M' for v in 'txyz'}, sut.sim()('S', '', pb)
    what = 'start'
    for op in list(ops) + ['run']:
        what += ' ; ' + op
        ctx.step(what)
        if op == 'ic':
            ic = [-1., 2.]
            setic(ic, active, conf['initial_time'])
        elif op == 'p=2':
            p = 2.
            m.p.setValue(2.)
        elif op == 'resolve':
            pb.resolve()
            active = p
        elif op == 'reset':
            s.reset()
            if s.domain is not None:
                rows, names = [], {v: v + '_M' for v in 'txyz'}
        elif op == 'end':
            conf.update(end_time=0.8, number_of_time_steps=1)
        elif op == 'start':
            conf['initial_time'] = 0.25
            pb.setInitialConditions({'t_M': 0.25})
        elif op == 'rename':
            conf['variable_name_map'] = {'x_M': 'X'}
        else:
            if op == 'run':
                s = sut.sim()('S', '', pb)
            s.setConfigurations(is_dynamic=True, domain=m.dom, time_variable_name='t_M', **conf)
            s.runSimulation()
            times = list(np.linspace(conf['initial_time'], conf['end_time'], conf['number_of_time_steps'] + 1))
            a = active
            ref = dyn.trajectory('dhist%g' % a, lambda t, v: [v[1], -a * v[0] - 1], ic, times)
            rows += [[t, r[0], r[1], a * r[0] + 1] for t, r in zip(times, ref)]
            if conf['variable_name_map']:
                names['x'] = 'X'
            got = s.getResults('dict')
            ctx.eq(sorted(got['t_M']), sorted(names.values()), what + ': columns')
            for j, v in enumerate('txyz'):
                c = got['t_M'][names[v]]
                ctx.eq(len(c), len(rows), what + ': rows')
                for i, r in enumerate(rows):
                    ctx.close(c[i], r[j], "%s: %s of row %d (t=%g)" % (what, v, i, r[0]), 2e-4, 2e-4)
            ctx.state((tuple(sorted(conf.items(), key=str))[:3], active, len(rows), str(ic)))


def run_case(case, ctx):
    if case[0] == 'subset':
        return run_subset(case[1], ctx)
    if case[0] == 'big':
        run_big(case[1], ctx)
    elif case[0] == 'conf':
        run_conf(case[1], ctx)
    elif case[0] == 'order':
        run_order(case[1], case[2], ctx)
    elif case[0] == 'missing':
        run_missing(case[1], ctx)
    else:
        for k in range(0, 2 if ctx.tier == 'thorough' else 1):
            for more in itertools.product(HIST, repeat=k):
                run_history(case[1:] + list(more), ctx)
