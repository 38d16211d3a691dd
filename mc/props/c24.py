"""C24: work in several threads, under every schedule within a preemption bound."""
import copy
import math
import os
import shutil
import tempfile
from .. import sut, sched

CHUNK = 1
RULE = ("two threads run programs of the library (expressions, quantities, models, incorporation, problems with connections, "
        "simulations, unit operations, refusals, configurations, domains, reports) on objects of their own with the same names, under "
        "every schedule with one preemption at a line, entry or return of the library's code (thorough: two preemptions, at "
        "every n-th point), and each gets exactly what it gets alone; two threads declaring in one model lose nothing")
ASSUMPTIONS = ["threads switch at lines, function entries and returns of the library, not within foreign code",
               "optimizations and plots are not run in threads (pygmo and pyplot are not made for it)"]
SLOW = ('plant', 'dynamic', 'dae', 'cvode', 'sympy', 'newton')
OWN = {'problem': ['problem.py', 'equation_block.py', 'connection.py'], 'run': ['simulation.py', 'solvers.py', 'analysis.py', 'equation_block.py', 'problem.py'],
       'sympy': ['solvers.py', 'equation_block.py'], 'newton': ['solvers.py', 'equation_block.py'],
       'refuse': ['simulation.py', 'analysis.py'], 'report': ['analysis.py'], 'plant': ['unit_op_library.py'],
       'dae': ['solvers.py', 'equation_block.py'], 'cvode': ['solvers.py'],
       'dynamic': ['solvers.py', 'domain.py', 'simulation.py']}      # where these programs do what the others do not
MAXPTS = 45                       # points of the first preemption per case


def bounds(tier):
    return "2 threads, %d preemption%s" % ((1, '') if tier == 'quick' else (2, 's'))


def P(s):
    return (sut.tu.kg, sut.tu.m) if s == 'a' else (sut.tu.mol, sut.tu.s)


def val(s, k):
    return float(k) + (0. if s == 'a' else 0.5)


def node(e):
    return (repr(e), str(e), sut.dims(e.unit_object), [(n, o.name) for n, o in e.symbolic_map.items()],
            list(e.variable_map), sorted(k for k, v in e.equation_type.items() if v))


def p_expr(s):
    u, w = P(s)
    x, y, p = sut.Variable('x', u, ''), sut.Variable('y', u, ''), sut.Parameter('p', w, '')
    if s == 'b':
        p.setValue(2.5)
    r = [x() * p() + y() * p() * 2., (x() - y()) / p(), sut.ops.Exp(x() / y()), x()**2 - x() * y(), 1. / x() + 1. / y(), (x() == y())[1]]
    r += [sut.ops.Min(x(), y(), 3.), sut.ops.Max(x(), 4.), sut.ops.Sin(y() / x())] if s == 'a' else [
        sut.ops.Min(y() * 2., 7.), sut.ops.Max(y(), x() * 3., 5.), sut.ops.Sin(x() * 2. / y()), 3. - y() * 2.]
    try:
        x() + p()
        bad = 'accepted'
    except sut.DimensionalCoherenceError:
        bad = 'refused'
    return [node(e) for e in r], all(e.symbolic_map[n] is o for e in r for n, o in (('x', x), ('y', y), ('p', p))
                                     if n in e.symbolic_map), bad


def p_unit(s):
    u, w = P(s)
    r = [u * w, u / w, u**2, (u * w)**0.5 / w, u**2 / u + u]
    q = [sut.Quantity('q', u, '', val(s, 2)), sut.Quantity('q', w, '', val(s, 4))]
    r2 = [q[0] * q[1], q[0] / q[1], q[0] + q[0]]
    v = sut.Variable('v', u, '')
    v.setValue(val(s, 7), u)
    return [sut.dims(e) for e in r], [(e.value, sut.dims(e.units)) for e in r2], v.value, str(v())


def model(s, name='M', inc=False):
    u, w = P(s)

    class A(sut.Model):
        def __init__(self):
            super().__init__(name, 'model of ' + s)

        def DeclareVariables(self):
            self.x = self.createVariable('x', u, '', is_exposed=True, type='output')
            self.y = self.createVariable('y', u, '', is_exposed=True, type='input')

        def DeclareParameters(self):
            self.p = self.createParameter('p', u, '')
            self.p.setValue(val(s, 3))

        def DeclareEquations(self):
            self.createEquation('e', 'first', self.x() - self.p() * 2.)
            if s == 'a':
                self.createEquation('', 'second', self.x() + self.y() == self.p())
            else:
                self.createEquation('', 'second', self.y() == self.p() * 3.)

    return A()


def registers(m):
    eqs = sorted((repr(q.equation_expression), q.type, q.description, '' if q.description == 'second' else n,
                  sorted(q.objects_declared)) for n, q in m.equations.items())
    own = {**m.variables, **m.parameters, **m.constants}
    return (list(m.variables), [(n, o.value, o.is_specified) for n, o in m.parameters.items()], eqs,
            {k: [o.name for o in v] for k, v in m.exposed_vars.items()},
            all(q.objects_declared[n] is own[n] for q in m.equations.values() for n in q.objects_declared))


def p_model(s):
    m = model(s)
    m()
    m()
    return registers(m), m._infoDegreesOfFreedom_()


def p_inc(s):
    m, n = model(s), sut.Model('N', '')
    m()
    n.incorporateFromExternalModel(m)
    n.p.setValue(val(s, 9))
    n.createEquation('more', '', n.x() - n.y() * 2.)
    return registers(m), registers(n)


def problem(s):
    m, n = model(s), model(s, 'N')
    p = sut.Problem('P', '')
    p.addModels([m, n] if s == 'a' else [n, m])
    m(), n()
    p.resolve()
    return m, n, p


def p_problem(s):
    m, n, p = problem(s)
    for i in (1., 2.) if s == 'a' else (3., 2., 4.):
        p.createConnection('src', m, m.p() * i, n.y() * 1.)
    p.createConnection(m, n, m.x, n.y)
    p.resolve()
    b = p.equation_block
    return (sorted(repr(q.equation_expression) for q in b.equations), list(b.variable_dict), list(b.parameter_dict),
            all(b.variable_dict[k] is {**m.variables, **n.variables}[k] for k in b.variable_dict), p._getProblemType(),
            list(p.connections), [n for o in (m, n) for n in o.equations if n[:2] in ('e_', 'co') or '>' in n])


def p_run(s, solver='scipy'):
    m, n, p = problem(s)
    S = sut.sim()('S', '', p)
    S.setConfigurations(linear_solver=solver, print_output=False)
    S.runSimulation(show_output_msg=False, show_final_residuals=s == 'b')
    r = {k: round(float(v), 8) for k, v in S.getResults('dict').items()}
    v = val(s, 3)
    want = {'x_M': 2 * v, 'x_N': 2 * v}
    want.update({'y_M': -v, 'y_N': -v} if s == 'a' else {'y_M': 3 * v, 'y_N': 3 * v})
    return r, r == {k: round(x, 8) for k, x in want.items()}, S.getStatus()


def p_sympy(s):
    return p_run(s, 'sympy')


def p_newton(s):
    return p_run(s, 'symbolicsys')


def p_refuse(s):
    m, n, p = problem(s)
    S = sut.sim()('S', '', p)
    if s == 'a':
        m.createEquation('late', '', m.x() - m.y() * 5.)
    else:
        m.createEquation('late', '', m.x() - m.createVariable('z', P(s)[0], '')() - m.createVariable('w', P(s)[0], '')())
    p.resolve()
    S.setConfigurations(linear_solver='scipy')
    try:
        S.runSimulation(show_output_msg=False, show_final_residuals=False)
        return 'ran', S.output
    except Exception as e:
        return type(e).__name__, str(e).split('(')[0], S.output


def p_singular(s):
    u = P(s)[0]
    m = sut.Model('M', '')
    x, y = m.createVariable('x', u, ''), m.createVariable('y', u, '')
    m.createEquation('e1', '', x() + y() - val(s, 1))
    m.createEquation('e2', '', x() * (1. + 1e-16 if s == 'a' else 2.) + y() * (1. if s == 'a' else 2.00000000000000044) - 3.)
    p = sut.Problem('P', '')
    p.addModels(m)
    p.resolve()
    S = sut.sim()('S', '', p)
    S.setConfigurations(linear_solver='scipy')
    try:
        S.runSimulation(show_output_msg=False, show_final_residuals=False)
        return 'ran'
    except Exception as e:
        return 'refused'


def p_conf(s):
    p = sut.Problem('P', '')
    p.setTimeVariableName('t' if s == 'a' else ['t1', 't2'])
    S = sut.sim()('S', '', p)
    d = {'end_time': val(s, 8)}
    out = []
    S.setConfigurations(initial_guess={'x': val(s, 1)}, is_dynamic=s == 'a')
    out.append(dict(S.configurations))
    S.setConfigurations(definition_dict=d, is_dynamic=s == 'b')
    out.append(dict(S.configurations))
    f = os.path.join(DIR[0], 'conf-%s-%d.json' % (s, os.getpid()))
    S.dumpConfigurations(f)
    T = sut.sim()('T', '', p)
    T.setConfigurations(configurations_file=f)
    out.append(dict(T.configurations))
    return out, d


def p_domain(s):
    u, w = P(s)
    t, x, y = (sut.Variable(n, u, '') for n in ('t' if s == 'a' else 'tau', 'x', 'y'))
    d = sut.Domain('d', w, [t])
    for o in ((x, y) if s == 'a' else (y, x)):
        o.distributeOnDomain(d)
    d()
    d._register([[val(s, i + j) for i in range(3)] for j in range(2)])
    d._register([[val(s, 2 * i + j) for i in range(3)] for j in range(2)])
    a = d[(t.name, ['x', 'y'])].tolist()
    d._renameHeaders({'x': 'x of ' + s})
    return a, list(d.values[t.name].columns), d.values[t.name].values.tolist()


def p_report(s):
    m, n, p = problem(s)
    rows = sut.Analysis().modelReport(m).rows
    return sorted([('' if r[1] == 'second' else r[0],) + tuple(r[1:]) for r in rows]), [
        l for l in sut.Analysis().problemReport(p).split('\n') if l.startswith(('Problem', 'Model'))]


def p_plant(s):
    from . import c20
    par = c20.PARAMS[0] if s == 'a' else c20.PARAMS[1]
    feed = c20.FEEDS[0] if s == 'a' else c20.FEEDS[1]
    f = c20.Feed('F', feed)
    u = c20.make('SimplePump', 'U', c20.package(('water',)), par)
    for m in ((f, u) if s == 'a' else (u, f)):
        m()
    p = sut.Problem('P', '')
    p.addModels([f, u])
    for k in c20.FLOW:
        p.createConnection(f, u, getattr(f, k), getattr(u, k + '_in'))
    p.resolve()
    S = sut.sim()('S', '', p)
    S.setConfigurations(linear_solver='scipy')
    S.runSimulation(show_output_msg=False, show_final_residuals=False)
    res = S.getResults('dict')
    return {k: float('%.9g' % v) for k, v in sorted(res.items())}, res['P_out_U'] - feed['P'] - par['Delta_P']


def p_dynamic(s, solver='ODEINT'):
    from . import c15
    o, dom, p = c15.build(0 if s == 'a' else 3)
    S = sut.sim()('S', '', p)
    S.setConfigurations(is_dynamic=True, domain=dom, time_variable_name=o.t.name, differential_solver=solver,
                        compile_equations=s == 'b',
                        **(dict(times_for_solution=[0., val(s, 0.25), val(s, 0.5)]) if solver == 'ODEINT' else
                           dict(end_time=val(s, 0.5), number_of_time_steps=2)))
    S.runSimulation()
    res = S.getResults('dict')
    return {k: {n: [round(float(x), 6) for x in v] for n, v in c.items()} for k, c in res.items()}, S.getStatus()


def p_dae(s):
    from . import c16
    o, dom, p = c16.build(0 if s == 'a' else 6)
    S = sut.sim()('S', '', p)
    S.setConfigurations(is_dynamic=True, domain=dom, time_variable_name=o.t.name, compile_equations=s == 'a',
                        times_for_solution=[0., val(s, 0.25), val(s, 0.5)])
    S.runSimulation()
    res = S.getResults('dict')
    return {k: {n: [round(float(x), 5) for x in v] for n, v in c.items()} for k, c in res.items()}, S.getStatus()


def p_cvode(s):
    return p_dynamic(s, 'CVODE')


def p_package(s):
    pp = copy.deepcopy(_PACKAGES[0 if s == 'a' else 1])
    out = [list(pp.phase_names)]
    qq = copy.deepcopy(_PACKAGES[2])
    pp + qq
    out.append((list(pp.phase_names), list(pp.phases), pp.number_of_phases, list(qq.phase_names)))
    pp.set_T(val(s, 300))
    pp.calculate(val(s, 310), 2e5)
    out.append([(n, pp[n].T, pp[n].P, float('%.9g' % pp[n].rho)) for n in pp.phase_names] + [qq[n].T for n in qq.phase_names])
    return out


def p_infos(s):
    m = model(s)
    m()
    v = m.createVariable('late', P(s)[1], '')
    c = m.createConstant('c', P(s)[0], '')
    c.setValue(val(s, 2))
    m.x.setValue(val(s, 5))
    m.createEquation('sides', '', m.x() * c() == m.x()**2 - m.y() * c())
    m.y.setValue(val(s, 6), P(s)[0])
    e = m.equations['sides_M']
    return (float(m.equations['e_M'].eval()), [float(e.eval(side=i)) for i in ('lhs', 'rhs')], list(m.constants), list(m.variables),
            m._infoDegreesOfFreedom_(), v.value, m.x.value, m.y.value)


PROGRAMS = {f.__name__[2:]: f for f in (p_expr, p_unit, p_model, p_inc, p_problem, p_run, p_sympy, p_newton, p_refuse, p_singular, p_conf,
                                        p_domain, p_report, p_plant, p_dynamic, p_dae, p_cvode, p_package, p_infos)}
DIR = [None]
_PACKAGES = []
ALONE = {}
POINTS = {}
FILES = {}


def load():
    DIR[0] = tempfile.mkdtemp(prefix='c24-')
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(DIR[0], ignore_errors=True))
    sut.sim()
    from src.sloth.core.property_package import PropertyPackage
    _PACKAGES.extend(PropertyPackage(len(n), list(n)) for n in (['water'], ['toluene', 'hexane'], ['ethanol', 'water']))
    fd = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    try:
        for n, f in PROGRAMS.items():
            for s in 'ab':
                try:
                    ALONE[n, s] = ('value', f(s))
                except BaseException as e:
                    ALONE[n, s] = ('raised', type(e).__name__, str(e)[:200])
                sc = sched.Sched([lambda: f(s)])
                sc.run([])
                POINTS[n, s] = sc.ts[0].points
                FILES[n, s] = sc.files
        for s in 'ab':
            sc = sched.Sched([shared(s)[0]])
            sc.run([])
            POINTS['shared', s] = sc.ts[0].points
    finally:
        import sys
        sys.stdout.flush()
        os.dup2(fd, 1)


def pairs(tier):
    names = list(PROGRAMS)
    for a in names:
        yield a, a
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if i != j and (tier != 'quick' or (j - i) % len(names) in (1, 5)[:1 + (i % 2)]):
                yield a, b


def cases(tier):
    for order in ('ab', 'ba', 'aa'):
        n = POINTS['shared', order[0]]
        for k in range(0, n + 1, MAXPTS):
            yield ['shared', order, k, 1]
    for a, b in pairs(tier):
        for s in ('ab', 'ba') if a == b or tier != 'quick' else ('ab',):
            n = POINTS[a, s[0]]
            top = 1e9
            if a in SLOW or b in SLOW:
                top = 80 if tier == 'quick' else 600
            elif tier == 'quick' and a != b:
                top = 200
            elif tier == 'quick' and a in OWN:
                top = 400
            step = max(1 if a == b else 3, math.ceil(n / top))
            for k in range(0, n + 1, MAXPTS * step):
                yield ['pair', a, b, s, k, step]
    for a, fs in OWN.items():
        for f in fs:
            for s in ('ab', 'ba'):
                n = FILES[a, s[0]].get(f, 0)
                step = max(1, math.ceil(n / (50. if tier == 'quick' else 400.))) if a in SLOW else 1
                for k in range(0, n, MAXPTS * step):
                    yield ['own', a, f, s, k, min(n, k + MAXPTS * step), step]
    for a, f, n, st in focused(tier):
        for k in range(0, n, st):
            yield ['focus', a, f, k, st]
    if tier != 'quick':
        for a in PROGRAMS:
            n, m = POINTS[a, 'a'], POINTS[a, 'b']
            st = max(1, int((n * m / (400. if a in SLOW else 4000.))**.5))
            for k in range(0, n + 1, st):
                yield ['two', a, k, st]
        for k in range(0, POINTS['shared', 'a'], 4):
            yield ['shared2', k]


def focused(tier):
    for a in PROGRAMS:
        for f in sorted(FILES[a, 'a']):
            n, m = FILES[a, 'a'][f], FILES[a, 'b'].get(f, 0)
            if tier == 'quick':
                if (a, f) in (('singular', 'solvers.py'), ('domain', 'variable.py')):
                    yield a, f, n, 1
            elif m:
                yield a, f, n, max(1, int((n * m / (400. if a in SLOW else 5000.))**.5))


def shared(order):
    """two threads declare in the same model, and use its objects"""
    m = sut.Model('M', '')
    x = m.createVariable('x', sut.tu.kg, '')
    m.createEquation('', 'of nobody', x() - 9.)

    def body(s, k):
        def run():
            v = m.createVariable('v%d' % k, sut.tu.kg, '', is_exposed=True, type='input')
            q = [m.createEquation('', 'of %d' % k, x() * float(k + 2) - v()), m.createEquation('n%d' % k, '', x() == v()),
                 None]
            p = m.createParameter('p%d' % k, sut.tu.m, '')
            q2 = sut.Equation('', '', p() * 2.)
            q[2] = m.createEquation('', 'of %d' % k, x() + v() * float(k + 2))
            return [e.name for e in q], q2.name, repr(q[0].equation_expression)
        return run
    fs = [body(s, k) for k, s in enumerate(order)]
    return fs + [m]


def check_shared(ctx, order, plan):
    f, g, m = shared(order)
    sc = sched.Sched([f, g])
    res = sc.run(plan)
    ctx.step('schedule %r' % (plan,))
    for r in res:
        ctx.check(r[0] == 'value', "declaring in two threads, schedule %r: %r" % (plan, r))
    names = [n for r in res for n in r[1][0]]
    ctx.check(len(set(names)) == 6, "names of equations declared in two threads, schedule %r: %r" % (plan, names))
    ctx.check(len(set(names + [r[1][1] for r in res])) == 8, "names given to equations, schedule %r: %r" % (plan, names))
    ctx.eq(sorted(repr(q.equation_expression) for q in m.equations.values()),
           sorted(['x_M - 9.0', '-v0_M + 2.0*x_M', '-v0_M + x_M', '2.0*v0_M + x_M', '-v1_M + 3.0*x_M', '-v1_M + x_M',
                   '3.0*v1_M + x_M']), "equations of the model, schedule %r" % (plan,))
    ctx.eq((sorted(m.variables), sorted(m.parameters), sorted(o.name for o in m.exposed_vars['input'])),
           (['v0_M', 'v1_M', 'x_M'], ['p0_M', 'p1_M'], ['v0_M', 'v1_M']), "objects of the model, schedule %r" % (plan,))
    ctx.state(('shared', order, tuple(map(tuple, plan))))


def check_pair(ctx, a, b, s, plan, focus=None):
    fs = [lambda: PROGRAMS[a](s[0]), lambda: PROGRAMS[b](s[1])]
    sc = sched.Sched(fs, focus)
    res = sc.run(plan)
    ctx.step('schedule %r' % (plan,), sc.switches)
    for who, r, n in zip('12', res, (a, b)):
        w = ALONE[n, s[int(who) - 1]]
        ctx.check(r == w, lambda: "thread %s (program %s) with program %s in the other thread, schedule %r%s: expected %s" % (
            who, n, b if who == '1' else a, plan, focus and ' of ' + focus or '', diff(w, r)))
    ctx.eq(sut.template_snapshot(), TEMPLATES, "predefined units")
    ctx.state((a, b, s, tuple(map(tuple, plan)), focus))
    return sc


def diff(w, r):
    if isinstance(w, (tuple, list)) and isinstance(r, (tuple, list)) and len(w) == len(r):
        for x, y in zip(w, r):
            if x != y:
                return diff(x, y)
    return "%r, got %r" % (w, r)


TEMPLATES = sut.template_snapshot()


def run_case(case, ctx):
    if case[0] == 'shared':
        _, order, k, step = case
        for i in range(k, k + MAXPTS):
            check_shared(ctx, order, [[0, i]])
            check_shared(ctx, order, [[0, i], [1, 3]])
        return
    if case[0] == 'shared2':
        for j in range(0, POINTS['shared', 'b'], 2):
            check_shared(ctx, 'ab', [[0, case[1]], [1, j]])
        return
    if case[0] == 'pair':
        _, a, b, s, k, step = case
        for i in range(k, k + MAXPTS * step, step):
            sc = check_pair(ctx, a, b, s, [[0, i]])
            if sc.ts[0].points < i:
                break
        return
    if case[0] == 'own':
        _, a, f, s, k, end, step = case
        for i in range(k, end, step):
            check_pair(ctx, a, a, s, [[0, i]], f)
        return
    if case[0] == 'focus':
        _, a, f, k, st = case
        for j in range(0, FILES[a, 'b'].get(f, 0) + 1, st):
            check_pair(ctx, a, a, 'ab', [[0, k], [1, j]], f)
        return
    _, a, k, st = case
    for j in range(0, POINTS[a, 'b'] + 1, st):
        check_pair(ctx, a, a, 'ab', [[0, k], [1, j]])
