"""C15: simulation of ordinary differential equations."""
import itertools
import numpy as np
from .. import sut, dyn

CHUNK = 4
RULE = ("12 systems of 1-3 differential equations (linear, nonlinear, with functions, constants, explicit time): every order "
        "of equations, declarations and domain columns, over one or two models; chains of 12 (thorough: up to 40) states in different orders; every combination of solver, compiled or "
        "not, output points, initial time and renamed columns; every history of <=3 (thorough: <=4) changes of initial "
        "conditions, values, end time, solver, resets and runs; oracle: independent fine-step Runge-Kutta integration")
POINTS = ['steps3', 'steps1', 'none', 'array', 'list', 'later']
MAPS = [{}, {'x': 'pos'}, {'t': 'Time', 'x': 'a', 'y': 'b'}]
CONF = list(itertools.product(('ODEINT', 'CVODE'), (False, True), POINTS, (0., 0.75), range(len(MAPS))))
HIST = ['ic', 'p=2', 'resolve', 'run', 'again', 'reset', 'CVODE', 'compile', 'end', 'rename', 'start']


def bounds(tier):
    return "12 systems x %d configurations, all orders; histories of <= %d steps from %d" % (
        len(CONF), 4 if tier == 'thorough' else 3, len(HIST))


def cases(tier):
    for n in (12,) + ((11, 21, 40) if tier == 'thorough' else ()):
        for solver in ('ODEINT', 'CVODE'):
            for comp in (False, True):
                yield ['big', n, solver, comp]
    for k in range(len(dyn.ODE)):
        for solver in ('ODEINT', 'CVODE'):
            for comp in (False, True):
                yield ['conf', k, solver, comp]
        yield ['missing', k]
    for k in range(len(dyn.ODE)):
        for eo in itertools.permutations(range(len(dyn.ODE[k][0]))):
            yield ['order', k, list(eo)]
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]
    yield ['times']


def build(k, eq_order=None, var_order=None, dom_order=None, split=False, hooks=False):
    names, y0, eqs = dyn.ODE[k]
    n = len(names)
    un = sut.tu.dimless
    ms = [sut.Model('A', ''), sut.Model(dyn.SECOND, '')] if split else [sut.Model('A', '')]
    o = dyn.O()
    vs = list(names)
    vs = [vs[i] for i in (var_order or range(n))]
    order = vs[:1] + ['t'] + vs[1:] if var_order else ['t'] + vs
    for i, v in enumerate(order):
        setattr(o, v, ms[i % len(ms)].createVariable(dyn.NM[v], un, ''))
    o.k = ms[0].createConstant('k', un, '')
    o.k.setValue(0.5)
    o.p = ms[-1].createParameter('p', un, '')
    o.p.setValue(1.25)
    dom = sut.Domain('D', un, [o.t])
    for i in (dom_order or range(n)):
        getattr(o, names[i]).distributeOnDomain(dom)
    for i, j in enumerate(eq_order or range(n)):
        v = names[j]
        ms[(i + 1) % len(ms)].createEquation('e' + v, '', getattr(o, v).Diff(o.t) == eqs[v][0](o), check_equation=False)
    p = sut.Problem('P', '')
    p.addModels(ms)
    p.resolve()
    p.setTimeVariableName(o.t.name if eq_order else [o.t.name])
    p.setInitialConditions({getattr(o, v).name: y0[v] for v in names})
    p.setInitialConditions({o.t.name: 0.})
    return o, dom, p


def compare(ctx, results, o, names, times, ref, what, rename=None):
    """results dict against the reference rows"""
    rename = rename or {}
    t = o.t.name
    ctx.eq(list(results), [t], what + ': independent variables of the results')
    cols = results[t]
    want = [rename.get(v, getattr(o, v).name) for v in ('t',) + tuple(names)]
    ctx.eq(sorted(cols), sorted(want), what + ': columns of the results')
    ctx.eq(len(cols[want[0]]), len(times), what + ': number of rows')
    for i, x in enumerate(times):
        ctx.close(cols[want[0]][i], x, "%s: time of row %d" % (what, i), 1e-9, 1e-9)
    for j, v in enumerate(names):
        c = cols[want[1 + j]]
        for i in range(len(times)):
            ctx.close(c[i], ref[i][j], "%s: %s at t=%g" % (what, v, times[i]), 2e-5, 2e-5)


def points(kind, t0, t1):
    """(configuration, times)"""
    if kind == 'later':                                                   # the first output after the initial time
        ts = [t0 + 0.3, t0 + 0.65, t1]
        return dict(times_for_solution=ts), ts
    if kind == 'array' or kind == 'list':
        ts = [t0, t0 + 0.2, t0 + 0.25, t0 + 0.9, t1]
        return dict(times_for_solution=np.array(ts) if kind == 'array' else ts), ts
    if kind == 'none':
        return dict(number_of_time_steps=None), list(np.linspace(t0, t1, 101))
    n = int(kind[5:])
    return dict(number_of_time_steps=n), list(np.linspace(t0, t1, n + 1))


def run_conf(k, solver, comp, ctx):
    names, y0, _ = dyn.ODE[k]
    for pk in POINTS:
        for t0 in (0., 0.75):
            for mk, mp in enumerate(MAPS):
                if (pk == 'none' and (mk or t0)) or (pk in ('list', 'later') and mk):
                    continue
                what = "system %d by %s%s, points %s from %g, renaming %r" % (k, solver, ' compiled' if comp else '', pk, t0, mp)
                ctx.step(what)
                o, dom, p = build(k)
                p.setInitialConditions({o.t.name: t0})
                conf, times = points(pk, t0, t0 + 1.)
                rename = {v: x for v, x in mp.items() if v in names or v == 't'}
                s = sut.sim()('S', '', p)
                s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name=o.t.name, initial_time=t0, end_time=t0 + 1.,
                                    differential_solver=solver, compile_equations=comp,
                                    variable_name_map={getattr(o, v).name: x for v, x in rename.items()}, **conf)
                s.runSimulation()
                ref = dyn.trajectory(k, dyn.ode_rhs(k), [y0[v] for v in names], [t0] * int(times[0] > t0) + times)[-len(times):]
                compare(ctx, s.getResults('dict'), o, names, times, ref, what, rename)
                ctx.eq(s.getStatus(), 0, what + ': status')
                ctx.state((k, solver, comp, pk, t0, mk))


def run_order(k, eo, ctx):
    names, y0, _ = dyn.ODE[k]
    n = len(names)
    perms = list(itertools.permutations(range(n)))
    for vo in perms:
        for do in perms:
            for split in (False, True):
                if n == 3 and ctx.tier == 'quick' and vo != do and not split:
                    continue
                comp = split and n < 3
                what = "system %d, equations %s, declarations %s, columns %s%s" % (k, eo, vo, do, ', two models' if split else '')
                ctx.step(what)
                o, dom, p = build(k, eo, vo, do, split)
                s = sut.sim()('S', '', p)
                times = [0., 0.3, 0.6]
                s.setConfigurations(is_dynamic=True, domain=dom, end_time=0.6, number_of_time_steps=2, compile_equations=comp,
                                    differential_solver='CVODE' if (vo == do) else 'ODEINT')
                s.runSimulation(show_output_msg=False, show_final_residuals=False)
                ref = dyn.trajectory(k, dyn.ode_rhs(k), [y0[v] for v in names], times)
                compare(ctx, s.getResults('dict'), o, names, times, ref, what)
                ctx.state((k, tuple(eo), vo, do, split))


def run_missing(k, ctx):
    names, y0, _ = dyn.ODE[k]
    for solver in ('ODEINT', 'CVODE'):
        for absent in ('t',) + tuple(names):
            o, dom, p = build(k)
            p.initial_conditions = {n: v for n, v in p.initial_conditions.items() if n != getattr(o, absent).name}
            s = sut.sim()('S', '', p)
            what = "system %d by %s without initial condition of %s" % (k, solver, absent)
            ctx.step(what)

            def go():
                s.setConfigurations(is_dynamic=True, domain=dom, end_time=1., number_of_time_steps=2, compile_equations=False,
                                    differential_solver=solver)
                s.runSimulation()
            ctx.raises(sut.AbsentRequiredObjectError if absent == 't' else (KeyError, sut.AbsentRequiredObjectError), go, what)
            ctx.eq(len(dom.values[o.t.name]), 0, what + ': rows of results')


class Hist:
    def __init__(self):
        class M(sut.Model):
            def __init__(self, name, d):
                super().__init__(name, d)
                un = sut.tu.dimless
                self.t, self.x, self.y = [self.createVariable(v, un, '') for v in 'txy']
                self.p = self.createParameter('p', un, '')
                self.p.setValue(1.25)
                self.dom = sut.Domain('D', un, [self.t])
                self.y.distributeOnDomain(self.dom)
                self.x.distributeOnDomain(self.dom)

            def DeclareEquations(self):
                self.createEquation('ex', '', self.x.Diff(self.t) == self.p() * self.y())
                self.createEquation('ey', '', self.y.Diff(self.t) == self.t() - self.x())
        self.m = M('M', '')
        self.pb = sut.Problem('P', '')
        self.pb.addModels(self.m)
        self.pb.resolve()
        self.pb.setTimeVariableName(['t_M'])


def run_history(ops, ctx):
    h = Hist()
    ic, p, active = {'x': 1., 'y': 0.5}, 1.25, 1.25
    conf = dict(end_time=0.5, initial_time=0., compile_equations=False, differential_solver='ODEINT', number_of_time_steps=2,
                variable_name_map={})
    h.pb.setInitialConditions({'t_M': 0., 'x_M': 1., 'y_M': 0.5})
    rows, names, s = [], {'t': 't_M', 'x': 'x_M', 'y': 'y_M'}, sut.sim()('S', '', h.pb)
    what = 'start'
    for op in list(ops) + ['run']:
        what += ' ; ' + op
        ctx.step(what)
        if op == 'ic':
            ic = {'x': -1., 'y': 2.}
            h.pb.setInitialConditions({'x_M': -1., 'y_M': 2.})
        elif op == 'p=2':
            p = 2.
            h.m.p.setValue(2.)
        elif op == 'resolve':
            h.pb.resolve()
            active = p
        elif op == 'reset':
            s.reset()
            if s.domain is not None:
                rows, names = [], {'t': 't_M', 'x': 'x_M', 'y': 'y_M'}
        elif op == 'CVODE':
            conf['differential_solver'] = 'CVODE'
        elif op == 'compile':
            conf['compile_equations'] = True
        elif op == 'end':
            conf['end_time'] = 0.8
            conf['number_of_time_steps'] = 1
        elif op == 'start':
            conf['initial_time'] = 0.25
            h.pb.setInitialConditions({'t_M': 0.25})
        elif op == 'rename':
            conf['variable_name_map'] = {'x_M': 'X'}
        else:
            if op == 'run':
                s = sut.sim()('S', '', h.pb)
            s.setConfigurations(is_dynamic=True, domain=h.m.dom, time_variable_name='t_M', **conf)
            s.runSimulation(show_output_msg=False, show_final_residuals=False)
            times = list(np.linspace(conf['initial_time'], conf['end_time'], conf['number_of_time_steps'] + 1))
            a = active
            ref = dyn.trajectory('hist%g' % a, lambda t, v: [a * v[1], t - v[0]], [ic['x'], ic['y']], times)
            rows += [[t] + r for t, r in zip(times, ref)]
            if conf['variable_name_map']:
                names['x'] = 'X'
            got = s.getResults('dict')
            ctx.eq(list(got), ['t_M'], what + ': results')
            ctx.eq(sorted(got['t_M']), sorted(names.values()), what + ': columns')
            for j, v in enumerate('txy'):
                c = got['t_M'][names[v]]
                ctx.eq(len(c), len(rows), what + ': rows')
                for i, r in enumerate(rows):
                    ctx.close(c[i], r[j], "%s: %s of row %d (t=%g)" % (what, v, i, r[0]), 2e-5, 2e-5)
            arr = s.getResults('list')
            ctx.eq([len(arr), arr[0].shape], [1, (len(rows), 3)], what + ': list of results')
            ctx.state((tuple(sorted(conf.items(), key=str))[:3], active, len(rows), str(ic)))


def orders(n):
    """different orders of n things"""
    return [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 7) % n), sorted(range(n), key=str)]


def run_big(n, solver, comp, ctx):
    """a chain of n states in different orders: x0' = t - x0 ; xi' = x(i-1) - (1 + i/10) xi"""
    times = [0., 0.4, 1.]
    y0 = [1. + 0.25 * i for i in range(n)]
    ref = dyn.trajectory('chain%d' % n, lambda t, y: [t - y[0]] + [y[i - 1] - (1 + i / 10) * y[i] for i in range(1, n)], y0, times)
    for c, (eo, vo, do) in enumerate(itertools.product(orders(n), repeat=3)):
        if not comp and ctx.tier == 'quick' and c % 5 != 2:
            continue                                         # slow
        if sum((eo != vo, vo != do, eo != do)) == 3 or (ctx.tier == 'quick' and eo == vo == do and eo[0]):
            continue
        what = "chain of %d states by %s%s, equations %s, declarations %s, columns %s" % (n, solver, ' compiled' if comp else '',
                                                                                          eo, vo, do)
        ctx.step(what)
        un = sut.tu.dimless
        ms = [sut.Model('A', ''), sut.Model(dyn.SECOND, '')]
        o = dyn.O()
        o.t = ms[0].createVariable('t', un, '')
        dom = sut.Domain('D', un, [o.t])
        for i in vo:
            setattr(o, 'x%d' % i, ms[i % 2].createVariable('x%d' % i, un, ''))
        x = [getattr(o, 'x%d' % i) for i in range(n)]
        for i in do:
            x[i].distributeOnDomain(dom)
        for i in eo:
            rhs = o.t() - x[0]() if i == 0 else x[i - 1]() - x[i]() * (1 + i / 10)
            ms[i % 3 % 2].createEquation('e%d' % i, '', x[i].Diff(o.t) == rhs, check_equation=False)
        p = sut.Problem('P', '')
        p.addModels(ms)
        p.resolve()
        p.setTimeVariableName([o.t.name])
        p.setInitialConditions({v.name: y for v, y in zip(x, y0)})
        p.setInitialConditions({o.t.name: 0.})
        s = sut.sim()('S', '', p)
        s.setConfigurations(is_dynamic=True, domain=dom, end_time=1., times_for_solution=times, compile_equations=comp,
                            differential_solver=solver)
        s.runSimulation(show_output_msg=False, show_final_residuals=False)
        compare(ctx, s.getResults('dict'), o, ['x%d' % i for i in range(n)], times, ref, what)
        ctx.state((n, solver, comp, eo[0], vo[0], do[0], vo[1]))


def run_times(ctx):
    """two models, each with a time variable of its own"""
    for comp in (False, True):
        for solver in ('ODEINT', 'CVODE'):
            for order in itertools.permutations(range(2)):
                un = sut.tu.dimless
                ms, v = [], []
                for i, n in enumerate('AB'):
                    m = sut.Model(n, '')
                    t, x = m.createVariable('t', un, ''), m.createVariable('x', un, '')
                    x.distributeOnDomain(sut.Domain('own' + n, un, [t]))
                    m.createEquation('e', '', x.Diff(t) == (i + 1.) * t() - x() * i)
                    ms.append(m)
                    v.append((t, x))
                p = sut.Problem('P', '')
                p.addModels([ms[i] for i in order])
                p.resolve()
                p.setTimeVariableName(['t_A', 't_B'])
                p.setInitialConditions({'t_A': 0., 't_B': 0., 'x_A': 1., 'x_B': 2.})
                d = sut.Domain('D', un, [v[0][0]])
                d._distributeOnDomain(v[0][1])
                d._distributeOnDomain(v[1][1])
                d()
                s = sut.sim()('S', '', p)
                s.setConfigurations(is_dynamic=True, domain=d, end_time=1., number_of_time_steps=2, compile_equations=comp,
                                    time_variable_name=['t_A', 't_B'], differential_solver=solver)
                s.runSimulation()
                times = [0., .5, 1.]
                ref = dyn.trajectory('times', lambda t, y: [t, 2 * t - y[1]], [1., 2.], times)
                got = s.getResults('dict')['t_A']
                what = 'two time variables, %s %s %s' % (comp, solver, order)
                ctx.step(what)
                for i in range(3):
                    ctx.close(got['t_A'][i], times[i], what)
                    ctx.close(got['x_A'][i], ref[i][0], what, 2e-5, 2e-5)
                    ctx.close(got['x_B'][i], ref[i][1], what, 2e-5, 2e-5)
                ctx.state(what)


def run_case(case, ctx):
    if case[0] == 'conf':
        run_conf(*case[1:], ctx)
    elif case[0] == 'order':
        run_order(case[1], case[2], ctx)
    elif case[0] == 'missing':
        run_missing(case[1], ctx)
    elif case[0] == 'times':
        run_times(ctx)
    elif case[0] == 'big':
        run_big(*case[1:], ctx)
    else:
        for k in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(HIST, repeat=k):
                run_history(case[1:] + list(more), ctx)
