"""C18: configurations of simulations."""
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import tempfile
from .. import sut

CHUNK = 8
RULE = ("every pair of the 24 settings, each given as argument, dictionary entry, file entry or combinations, on a fresh "
        "simulation and after another configuration; pairs of arguments for the integrator, compared with the integrator itself; every history of <=3 (thorough: <=4) steps over two simulations: "
        "configure in each way, dump, load, change problem, run; the configuration in force is observed in the root that "
        "the run finds, and the results of the other simulation are compared after every step")
DEFAULT = dict(compile_equations=True, domain=None, time_variable_name=None, initial_time=0., end_time=None, is_dynamic=False,
               arg_names=[], initial_guess={}, initial_guess_solver=None, linear_solver='symbolicsys', nonlinear_solver='*',
               differential_solver='ODEINT', differential_algebraic_solver='IDA', problem_type=None, args=[], verbosity_solver=0,
               number_of_time_steps=100, configuration_args={}, print_output=False, output_headers=None, variable_name_map={},
               compilation_mechanism='numpy', number_parameters_to_optimize=0, times_for_solution=None)
OTHER = dict(compile_equations=False, domain='some domain', time_variable_name='t_M', initial_time=1.5, end_time=7., is_dynamic=True,
             arg_names=['g'], initial_guess={'x_M': 3.}, initial_guess_solver='hybr', linear_solver='sympy', nonlinear_solver='sympy',
             differential_solver='CVODE', differential_algebraic_solver='?', problem_type='linear', args=[4.], verbosity_solver=2,
             number_of_time_steps=5, configuration_args={'h0': 1.}, print_output=True, output_headers=['a', 'b'],
             variable_name_map={'x_M': 'X'}, compilation_mechanism='mpmath', number_parameters_to_optimize=2,
             times_for_solution=[0., 1.])
KEYS = sorted(DEFAULT)
SOURCES = [('arg', 'arg'), ('dict', 'dict'), ('file', 'file'), ('arg', 'dict'), ('dict', 'arg'), ('arg', 'file'), ('file', 'arg')]
OPS = ['A arg+', 'A arg-', 'A dict+', 'A dict-', 'A file-', 'A default', 'A bad', 'A dump', 'A run', 'A other', 'B load', 'B arg-',
       'B run', 'B dict+']


def bounds(tier):
    return "all pairs of 24 settings x %d sources; histories of <= %d steps from %d" % (
        len(SOURCES), 4 if tier == 'thorough' else 3, len(OPS))


def cases(tier):
    for a in KEYS:
        yield ['pair', a]
    for a in OPS:
        for b in OPS:
            yield ['hist', a, b]
    yield ['misc']
    for comp in (False, True):
        yield ['integrator', comp]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc18-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def problem(value=4., name='M'):
    m = sut.Model(name, '')
    x = m.createVariable('x', sut.tu.dimless, '')
    q = m.createParameter('q', sut.tu.dimless, '')
    q.setValue(value)
    m.createEquation('e', '', x() ** 2 == q())
    p = sut.Problem('P' + name, '')
    p.addModels(m)
    p.resolve()
    return p, x, q


def configure(s, given, d, n):
    """given: list of (setting, value, source)"""
    kw = {k: v for k, v, src in given if src == 'arg'}
    dic = {k: v for k, v, src in given if src == 'dict'}
    fil = {k: v for k, v, src in given if src == 'file'}
    if dic:
        kw['definition_dict'] = dic
    if fil:
        path = os.path.join(d, 'conf%d.json' % n)
        with open(path, 'w') as f:
            json.dump(fil, f)
        kw['configurations_file'] = path
    before = copy.deepcopy(dic)
    s.setConfigurations(**kw)
    return dic == before


def run_pair(a, ctx):
    with scratch() as d:
        for b in KEYS:
            for sa, sb in SOURCES:
                for again in (False, True):
                    what = "%s as %s, %s as %s%s" % (a, sa, b, sb, ' after another configuration' if again else '')
                    ctx.step(what)
                    if a == b and sa != sb:
                        # the dictionary or file prevails over the argument
                        if a == 'number_parameters_to_optimize':
                            continue
                        third = {'is_dynamic': False, 'compile_equations': True, 'print_output': False}.get(a, 'third')
                        given = [(a, third if sa == 'arg' else OTHER[a], sa), (b, third if sb == 'arg' else OTHER[b], sb)]
                    else:
                        given = [(a, OTHER[a], sa), (b, OTHER[b], sb)] if a != b else [(a, OTHER[a], sa)]
                    s = sut.sim()('S', '')
                    p = problem()[0]
                    p.setTimeVariableName('t_P')
                    s.setProblem(p)
                    if again:
                        s.setConfigurations(**{k: OTHER[k] for k in KEYS})
                        ctx.eq(s.configurations, OTHER, what + ': all given')
                    ctx.check(configure(s, given, d, 0), what + ': the dictionary given was altered')
                    want = dict(DEFAULT)
                    want.update({k: OTHER[k] for k, _, _ in given})
                    if want['is_dynamic'] and want['time_variable_name'] is None:
                        want['time_variable_name'] = ['t_P']
                    ctx.eq(s.configurations, want, what)
                    ctx.state((tuple(sorted((k, src) for k, _, src in given)), again))
                    if a == b and sa != sb and 'arg' in (sa, sb) and a not in ('number_parameters_to_optimize', 'time_variable_name'):
                        # also where the dictionary or file asks for the default
                        s.setConfigurations()
                        configure(s, [(a, OTHER[a] if src == 'arg' else DEFAULT[a], src) for src in (sa, sb)], d, 1)
                        ctx.eq(s.configurations, DEFAULT, what + ', which is the default')
                    other = sut.sim()('S2', '', p)
                    other.setConfigurations()
                    ctx.eq(other.configurations, DEFAULT, what + ': another simulation')


def run_history(ops, ctx):
    with scratch() as d:
        p1, p2 = problem(4.), problem(9., 'N')
        sims = {k: sut.sim()(k, '', p1[0]) for k in 'AB'}
        prob = {'A': p1, 'B': p1}
        conf = {'A': None, 'B': None}                    # None: not configured; else (guess sign, solver valid)
        out = {'A': None, 'B': None}
        dumped = None
        path = os.path.join(d, 'dump.json')
        what = 'start'
        for i, op in enumerate(list(ops) + ['A run', 'B run']):
            k, act = op.split()
            s = sims[k]
            what += ' ; ' + op
            ctx.step(what)
            name = prob[k][1].name
            if act in ('arg+', 'arg-', 'dict+', 'dict-', 'file-'):
                sign = 1. if act[-1] == '+' else -1.
                configure(s, [('initial_guess', {'x_M': 3. * sign, 'x_N': 3.5 * sign}, act[:-1])], d, i)
                conf[k] = (sign, True)
            elif act == 'default':
                s.setConfigurations()
                conf[k] = (1., True)
            elif act == 'bad':
                s.setConfigurations(definition_dict={'nonlinear_solver': 'no such solver', 'linear_solver': 'scipy'})
                conf[k] = (1., False)
            elif act == 'dump':
                if conf[k] is None:
                    continue
                s.dumpConfigurations(path)
                dumped = conf[k]
                with open(path) as f:
                    ctx.eq(json.load(f), s.configurations, what + ': file')
            elif act == 'load':
                if dumped is None:
                    continue
                s.setConfigurations(configurations_file=path)
                conf[k] = dumped
            elif act == 'other':
                prob[k] = p2 if prob[k] is p1 else p1
                s.setProblem(prob[k][0])
                out[k] = None
            elif act == 'run':
                if conf[k] is None:
                    continue
                sign, good = conf[k]
                if good:
                    s.runSimulation()
                    out[k] = {name: sign * (2. if prob[k] is p1 else 3.)}
                else:
                    ctx.raises(sut.AbsentRequiredObjectError, s.runSimulation, what)
            for q in 'AB':
                if out[q] is not None:
                    got = sims[q].getResults('dict')
                    ctx.eq(sorted(got), sorted(out[q]), "%s: results of %s" % (what, q))
                    for n, v in out[q].items():
                        ctx.close(got[n], v, "%s: %s of simulation %s" % (what, n, q), 1e-5, 1e-5)
                    lst = sims[q].getResults()
                    ctx.check(len(lst) == 1 and abs(lst[0] - v) < 1e-4, "%s: list of results %r" % (what, lst))
                par = prob[q][2]
                ctx.check(sims[q][par.name] is par and sims[q][par] is par, "%s: parameter looked up in %s" % (what, q))
            ctx.state((conf['A'], conf['B'], dumped, str(out), prob['A'] is p1))


TOL = [{}, {'rtol': 1e-2, 'atol': 1e-2}, {'rtol': 1e-4, 'atol': 1e-5, 'mxords': 2, 'mxordn': 2}, {'hmax': 0.01, 'rtol': 1e-3}]


def run_integrator(comp, ctx):
    """The arguments for the integrator reach it: the rows are those it gives by itself with these arguments."""
    from scipy.integrate import odeint
    import numpy as np
    times = np.linspace(0., 2., 5)
    ref = [odeint(lambda y, t: [y[1], -4. * y[0] + t], [1., 0.], times, **a) for a in TOL]
    for i, j in itertools.combinations(range(len(TOL)), 2):
        assert np.abs(ref[i] - ref[j]).max() > 1e-7
    for seq in itertools.product(range(len(TOL)), repeat=2):
        for src in ('arg', 'dict'):
            m = sut.Model('M', '')
            un = sut.tu.dimless
            t, x, v = [m.createVariable(n, un, '') for n in ('t', 'x', 'v')]
            dom = sut.Domain('D', un, [t])
            x.distributeOnDomain(dom)
            v.distributeOnDomain(dom)
            m.createEquation('e1', '', x.Diff(t) == 1. * v())
            m.createEquation('e2', '', v.Diff(t) == -4. * x() + t())
            p = sut.Problem('P', '')
            p.addModels(m)
            p.resolve()
            p.setTimeVariableName(['t_M'])
            p.setInitialConditions({'t_M': 0., 'x_M': 1., 'v_M': 0.})
            s = sut.sim()('S', '', p)
            for n, k in enumerate(seq):
                what = "arguments %r as %s%s" % (TOL[k], src, ' after %r' % TOL[seq[0]] if n else '')
                ctx.step(what)
                conf = dict(is_dynamic=True, domain=dom, end_time=2., number_of_time_steps=4, compile_equations=comp)
                if TOL[k]:
                    conf['configuration_args'] = dict(TOL[k])
                s.setConfigurations(**(conf if src == 'arg' else {'definition_dict': conf}))
                s.runSimulation(show_output_msg=False, show_final_residuals=False)
                from src.sloth.core.error_definitions import UnexpectedValueError
                ctx.raises(UnexpectedValueError, lambda: s.getResults('tuple'), what + ': results of unknown type')
                got = s.getResults('dict')['t_M']
                ctx.eq(len(got['x_M']), 5 * (n + 1), what + ': rows')
                for c, name in enumerate(('x_M', 'v_M')):
                    for row in range(5):
                        ctx.close(got[name][5 * n + row], ref[k][row][c], "%s: %s in row %d" % (what, name, row), 1e-8, 1e-8)
                ctx.state((seq[:n + 1], src, comp))


def run_misc(ctx):
    # dictionaries with every setting, as those of another simulation
    for dynamic in (False, True):
        p, x, q = problem()
        p.setTimeVariableName('t_P')
        full = dict(DEFAULT, initial_guess={'x_M': 3.}, is_dynamic=dynamic)
        before = copy.deepcopy(full)
        s, s2 = sut.sim()('S', '', p), sut.sim()('S2', '', p)
        s.setConfigurations(definition_dict=full)
        s2.setConfigurations(definition_dict=s.configurations)
        want = dict(before, time_variable_name=['t_P'] if dynamic else None)
        ctx.eq((full, s.configurations, s2.configurations), (before, want, want), "a dictionary with every setting")
        full['linear_solver'] = 'sympy'
        ctx.eq((s.configurations, s2.configurations), (want, want), "settings after a change of the dictionary given")
        ctx.state(('full', dynamic))
    p, x, q = problem()
    s = sut.sim()('S', '', p)
    s.setConfigurations()
    from src.sloth.core.error_definitions import UnexpectedValueError
    ctx.raises(AssertionError, s.showResults, 'results shown before running')
    ctx.raises(KeyError, lambda: s['nothing'], 'unknown parameter')
    ctx.raises(KeyError, lambda: s[x], 'a variable looked up as parameter')
    ctx.raises(UnexpectedValueError, lambda: s[3], 'parameter looked up by number')
    ctx.raises(UnexpectedValueError, lambda: s.report(s), 'report of something else')
    q2 = problem(9.)[2]
    ctx.check(s[q2] is q and s[q2.name] is q, "parameter of the same name of another problem looked up")
    s.runSimulation()
    ctx.raises(UnexpectedValueError, lambda: s.getResults('tuple'), 'results of unknown type')
    for f, words in ((s.showResults, ['x_M', '2.0']), (lambda: s.report(p), ['PM', 'nonlinear', 'e_M', 'x_M', 'q_M(*)']),
                     (lambda: s.report(p.models['M']), ['e_M', 'x_M', 'q_M(*)', 'nonlinear']),
                     (s.runSimulation, ['e_M'])):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            f()
        for w in words:
            ctx.check(w in b.getvalue(), "%r is not in the text printed: %s" % (w, b.getvalue()))
            ctx.step(w)
            ctx.state(w)


def run_case(case, ctx):
    if case[0] == 'pair':
        run_pair(case[1], ctx)
    elif case[0] == 'integrator':
        run_integrator(case[1], ctx)
    elif case[0] == 'misc':
        run_misc(ctx)
    else:
        for n in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(OPS, repeat=n):
                run_history(case[1:] + list(more), ctx)
