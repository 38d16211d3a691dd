"""C19: optimizations."""
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile
import numpy as np
from .. import sut
from src.sloth.core.error_definitions import UnexpectedValueError, AbsentRequiredObjectError

CHUNK = 4
RULE = ("every optimizer x number of dimensions x form and source of the bounds x direction x objective x 4 (thorough: 16) "
        "random seeds, 12 dimensions for one objective, all evaluations recorded: within bounds, the result the best of them, the value the objective's; every "
        "single setting of the configuration in every way to give it, read back from the algorithm's own description and "
        "compared with the same algorithm configured directly; objectives that run a simulation, compared with the closed "
        "form at each evaluation, the given simulation compared before and after; every history of <=3 (thorough: <=4) "
        "runs and changes of constraints, problem and direction over three studies of two simulations that share problems, one of them without constraints")
LOG = []
SIMS = []                                                          # what the simulation at hand has for q at each evaluation
LOW = [-2., 10., -30.] + [5. * i for i in range(3, 12)]
UP = [-1., 13., -25.] + [5. * i + 2. for i in range(3, 12)]
CENTER = [-1.4, 9., -26.] + [5. * i + 1.5 for i in range(3, 12)]                                          # the second is out of its bounds


def sphere(x):
    return float(sum((a - c) ** 2 for a, c in zip(x, CENTER)))


def plane(x):
    return float(sum((-1) ** i * a for i, a in enumerate(x))) + 100.


def waves(x):
    return float(sum(np.cos(9. * a) + .1 * a for a in x))


OBJ = {'sphere': sphere, 'plane': plane, 'waves': waves}


def make_problem(base, objective, **kw):
    class P(base):
        def DeclareObjectiveFunction(self, x):
            f = objective(x)
            SIMS.append(float(self.simulation_instance['q_M'].value))
            LOG.append((tuple(float(a) for a in x), f))
            return [f]
    return P(**kw)


def lib():
    from src.sloth import optimization
    return optimization


# form -> bounds from lists of limits
FORMS = {'flat': lambda lo, up: [lo[0], up[0]], 'flat tuple': lambda lo, up: (lo[0], up[0]), 'lists': lambda lo, up: [list(lo), list(up)],
         'tuple': lambda lo, up: (list(lo), list(up)), 'array': lambda lo, up: np.array([lo, up])}
OPTIMIZERS = ['ga', 'sade', 'de', 'pso']
SETTINGS = {  # name: (default, other values, algorithms and names in pygmo)
    'number_of_generations': (600, [3, 8], {o: 'gen' for o in OPTIMIZERS}),
    'crossover_rate': (.6, [.25, .9], {'ga': 'cr', 'de': 'CR'}),
    'mutation_rate': (.04, [.5, .11], {'ga': 'm'}),
    'crossover_type': ('exponential', ['sbx', 'single'], {'ga': 'crossover'}),
    'mutation_type': ('gaussian', ['uniform', 'polynomial'], {'ga': 'mutation'}),
    'selection_type': ('tournament', ['truncated'], {'ga': 'selection'}),
    'selection_param': (4, [2, 5], {'ga': 'param_s'}),
    'scale_factor': (.5, [.7, .31], {'de': 'F'}),
    'variant_de': (10, [1, 7], {'de': 'variant'}),
    'ftol_de': (1e-8, [1e-3, 0.], {'de': 'ftol', 'sade': 'ftol'}),
    'xtol_de': (1e-8, [1e-4, 0.], {'de': 'xtol', 'sade': 'xtol'}),
    'omega_pso': (.7298, [.5, .9], {'pso': 'omega'}),
    'eta1_pso': (2.05, [1., 3.], {'pso': 'eta1'}),
    'eta2_pso': (2.05, [1.5, .5], {'pso': 'eta2'}),
    'variant_pso': (5, [1, 6], {'pso': 'variant'}),
    'max_v_pso': (.5, [.3, .8], {'pso': 'max_vel'}),
    'neighborhood_type_pso': (2, [1, 3], {'pso': 'neighb_type'}),
    'neighborhood_param_pso': (4, [3, 5], {'pso': 'neighb_param'}),
    'number_of_individuals': (100, [12, 20], {}),
}
HIST = ['run A', 'run B', 'run C', 'bounds A', 'bounds B', 'bounds C', 'problem A', 'problem B', 'problem C', 'simulate']


def bounds(tier):
    return "4 optimizers, 1-3 dimensions, %d seeds; 19 settings; histories of <= %d steps from %d" % (
        16 if tier == 'thorough' else 4, 4 if tier == 'thorough' else 3, len(HIST))


def cases(tier):
    for o in OPTIMIZERS:
        for d in (1, 2, 3):
            for ob in OBJ:
                yield ['bounds', o, d, ob]
        yield ['bounds', o, 12, 'sphere']
    for k in SETTINGS:
        yield ['setting', k]
    for o in OPTIMIZERS:
        for how in ('None', 'dict', 'file'):
            yield ['simulation', o, how]
    yield ['dynamic']
    yield ['misc']
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc19-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Linear(sut.Model):
    """2 x = q - r"""

    def __init__(self, name):
        super().__init__(name, '')
        self.x = self.createVariable('x', sut.tu.dimless, '')
        self.q = self.createParameter('q', sut.tu.dimless, '')
        self.r = self.createParameter('r', sut.tu.dimless, '')
        self.q.setValue(4.)
        self.r.setValue(1.)

    def DeclareEquations(self):
        self.createEquation('e', '', self.x() * 2. == self.q() - self.r())


def simulation():
    m = Linear('M')
    m()
    p = sut.Problem('P', '')
    p.addModels(m)
    p.resolve()
    s = sut.sim()('S', '', p)
    s.setConfigurations()
    return s, m, m.x, m.q, m.r


def seed(n):
    import pygmo
    pygmo.set_global_rng_seed(n)


def inside(x, lo, up):
    return len(x) == len(lo) and all(a <= v <= b for a, v, b in zip(lo, x, up))


def judge(ctx, study, log, lo, up, f, maximize, what, individuals=None, generations=None):
    best, fit = study.getResults()
    ctx.eq(len(best), len(lo), what + ': number of parameters')
    ctx.check(inside(best, lo, up), "%s: result %r out of the bounds %r %r" % (what, list(best), lo, up))
    for x, y in log:
        ctx.check(inside(x, lo, up), "%s: evaluated at %r, out of the bounds %r %r" % (what, x, lo, up))
    ctx.close(fit[0], f(best), what + ': fitness of the result', 1e-12, 1e-12)
    ext = (max if maximize else min)(y for _, y in log)
    ctx.close(fit[0], ext, what + ': the result is not the best evaluated', 1e-12, 1e-12)
    if individuals:
        ctx.eq(len(log), individuals * (generations + 1), what + ': number of evaluations')


def run_bounds(o, d, ob, ctx):
    lo, up = LOW[:d], UP[:d]
    f = OBJ[ob]
    L = lib()
    s = simulation()[0]
    names = ['M%d' % i for i in range(d)]
    tools = sorted(n for n in FORMS if d == 1 or not n.startswith('flat'))
    combos = [(form, src) for form in tools for src in ('constraints', 'problem', 'set', 'both')] + \
             [('dict', 'constraints'), ('dict shuffled', 'constraints'), ('dict by parameter', 'constraints')]
    if d > 3:
        combos = [('lists', 'constraints'), ('array', 'set'), ('tuple', 'both')] + combos[-3:]
    for form, src in combos:
        for maximize in (None, 'study', 'problem', 'both'):
            for n in range(1, (17 if ctx.tier == 'thorough' else 5) if form == 'lists' else 3):
                what = "%s of %s in %d dimensions, bounds as %s by %s, maximization %s, seed %d" % (o, ob, d, form, src, maximize, n)
                ctx.step(what)
                pars = list(names)
                cons = b = None
                if form.startswith('dict'):
                    cons = {k: (lo[i], up[i]) for i, k in enumerate(names)}
                    if form == 'dict shuffled':
                        cons = dict(reversed(list(cons.items())))
                    if form == 'dict by parameter':
                        pars = [sut.Parameter(k, sut.tu.dimless) for k in names]
                else:
                    v = FORMS[form](lo, up)
                    if src == 'constraints':
                        cons = v
                    elif src == 'both':
                        cons, b = v, FORMS[form]([a - 50. for a in lo], [a - 40. for a in up])
                    elif src == 'problem':
                        b = v
                p = make_problem(L.OptimizationProblem, f, number_of_dimensions=d, bounds=b, is_maximization=maximize in ('problem', 'both'))
                p()
                if src == 'set':
                    p.setBounds(v)
                seed(n)
                st = L.Optimization(s, p, pars, constraints=cons, optimizer=o, is_maximization=maximize in ('study', 'both'),
                                    optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 4, 'ftol_de': 0.,
                                                                'xtol_de': 0.})
                del LOG[:]
                st.runOptimization(print_output=False)
                judge(ctx, st, list(LOG), lo, up, f, bool(maximize), what, 8, 4)
                ctx.state((o, d, ob, form, src, maximize, n))


def described(study):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        study.getOptimizationInfo()
    return b.getvalue()


def lines(text):
    return [x.strip() for x in text.splitlines() if x.strip() and 'Seed' not in x and 'Verbosity' not in x]


def reference(o, conf):
    import pygmo
    kw = {names[o]: conf[k] for k, (_, _, names) in SETTINGS.items() if o in names}
    if o == 'ga':
        kw.update(eta_c=1., param_m=1.)
    return pygmo.algorithm({'ga': pygmo.sga, 'sade': pygmo.de1220, 'de': pygmo.de, 'pso': pygmo.pso}[o](**kw))


def run_setting(k, ctx):
    L = lib()
    s = simulation()[0]
    with scratch() as d:
        path = os.path.join(d, 'c.json')
        for o in OPTIMIZERS:
            for v in [None] + SETTINGS[k][1]:
                for how in ('dict', 'file', 'full file', 'saved'):
                    what = "%s with %s = %r by %s" % (o, k, v, how)
                    ctx.step(what)
                    conf = {n: SETTINGS[n][0] for n in SETTINGS}
                    given = {}
                    if v is not None:
                        given[k] = conf[k] = v
                    if k == 'mutation_type' and v == 'polynomial':
                        given['crossover_rate'] = conf['crossover_rate'] = .9
                    kept = dict(given)
                    p = make_problem(L.OptimizationProblem, sphere, number_of_dimensions=2)
                    p()
                    arg = given
                    if how != 'dict':
                        if how == 'saved':
                            L.Optimization(s, p, ['M1', 'M2'], constraints=[LOW[:2], UP[:2]], optimizer=o,
                                           optimization_configuration=given).saveConfigurations(path)
                        else:
                            with open(path, 'w') as fh:
                                json.dump(conf if how == 'full file' else given, fh)
                        arg = path
                    seed(3)
                    st = L.Optimization(s, p, ['M1', 'M2'], constraints=[LOW[:2], UP[:2]], optimizer=o,
                                        **({} if v is None and how == 'dict' else {'optimization_configuration': arg}))
                    ctx.eq(given, kept, what + ': the dictionary given was altered')
                    text = described(st)
                    ref = reference(o, conf)
                    for line in [ref.get_name(), "Number of individuals: %s" % conf['number_of_individuals']]:
                        ctx.check(line in text, "%s: %r is not in the description %s" % (what, line, text))
                    got = lines(text)
                    for line in lines(ref.get_extra_info()):
                        ctx.check(line in got, "%s: %r is not in the description %s" % (what, line, text))
                    ctx.state((o, k, v, how))
                    # and the run itself
                    run = dict(conf)
                    if k != 'number_of_individuals' or v is None:
                        run['number_of_individuals'] = 14
                    if k != 'number_of_generations' or v is None:
                        run['number_of_generations'] = 3
                    st = L.Optimization(s, p, ['M1', 'M2'], constraints=[LOW[:2], UP[:2]], optimizer=o, optimization_configuration=run)
                    del LOG[:]
                    st.runOptimization(report_frequency=1, print_output=False)
                    judge(ctx, st, list(LOG), LOW[:2], UP[:2], sphere, False, what, run['number_of_individuals'], run['number_of_generations'])
                    log = st.getOptimizationLog()
                    gens = [int(g) for g in log['Gen']]
                    ctx.check(all(a < b for a, b in zip(gens, gens[1:])), "%s: generations %r of the log" % (what, gens))
                    ctx.check(o == 'ga' or gens == list(range(1, run['number_of_generations'] + 1)), "%s: generations %r of the log" % (what, gens))
                    ctx.check(all(0 < e <= len(LOG) for e in log['Fevals']), "%s: evaluations in the log" % what)
                    col = 'gbest' if o == 'pso' else 'Best'
                    best = [float(b) for b in log[col]]
                    vals = [y for _, y in LOG]
                    ctx.check(all(any(sut_close(b, y) for y in vals) for b in best), "%s: best values %r of the log" % (what, best))


def sut_close(a, b):
    return abs(a - b) <= 1e-9 * max(1., abs(a))


def run_simulation(o, how, ctx):
    """The objective runs the simulation for each parameter value: x = (q - r)/2."""
    L = lib()
    target = .75
    with scratch() as d:
        for lookup in ('name', 'quantity'):
            for sign in (1., -1.):
                for n in range(1, 9 if ctx.tier == 'thorough' else 3):
                    s, m, x, q, r = simulation()
                    if how == 'None':
                        s.setConfigurations(initial_guess={'x_M': 2.})
                        conf = None
                    else:
                        conf = dict(linear_solver='sympy' if n % 2 else 'scipy')
                        conf['initial_guess'] = {'x_M': 2.}
                        if how == 'file':
                            path = os.path.join(d, 's.json')
                            with open(path, 'w') as fh:
                                json.dump(conf, fh)
                            conf = path
                    s.setConfigurations()
                    s.runSimulation()
                    before = s.getResults('dict')
                    ctx.close(before['x_M'], 1.5, 'simulation before')
                    settings = dict(s.configurations)

                    class P(L.OptimizationProblem):
                        def DeclareObjectiveFunction(self, v):
                            sim = self.simulation_instance
                            sim['q_M' if lookup == 'name' else q].setValue(float(v[0]))
                            sim['r_M' if lookup == 'name' else r].setValue(float(v[1]))
                            sim.problem.resolve()
                            sim.setConfigurations(definition_dict=self.simulation_configuration)
                            sim.runSimulation()
                            f = sign * (sim.getResults('dict')['x_M'] - target) ** 2
                            LOG.append((tuple(float(a) for a in v), f))
                            return [f]
                    p = P(2)
                    p()
                    seed(n)
                    kw = {} if conf is None else {'simulation_configuration': conf}
                    st = L.Optimization(s, p, [q, r], constraints=[[2.5, .5], [4., .9]], optimizer=o, is_maximization=sign < 0,
                                        optimization_configuration={'number_of_individuals': 7, 'number_of_generations': 2}, **kw)
                    what = "%s of a simulation configured by %s, parameters by %s, sign %g, seed %d" % (o, how, lookup, sign, n)
                    ctx.step(what)
                    del LOG[:]
                    st.runOptimization(print_output=False)
                    log = list(LOG)
                    for v, f in log:
                        ctx.step(what)
                        ctx.close(f, sign * ((v[0] - v[1]) / 2. - target) ** 2, "%s: objective at %r" % (what, v), 1e-7, 1e-7)
                    best, fit = st.getResults()
                    ctx.check(inside(best, [2.5, .5], [4., .9]), what + ': result out of the bounds')
                    ctx.close(fit[0], (min if sign > 0 else max)(f for _, f in log), what + ': best', 1e-9, 1e-12)
                    ctx.close(fit[0], sign * ((best[0] - best[1]) / 2. - target) ** 2, what + ': fitness', 1e-7, 1e-7)
                    # the given simulation is as before
                    ctx.eq((float(q.value), float(r.value)), (4., 1.), what + ': values of the parameters given')
                    ctx.eq(s.getResults('dict'), before, what + ': results of the simulation given')
                    ctx.eq(s.configurations, settings, what + ': configuration of the simulation given')
                    s.runSimulation()
                    ctx.close(s.getResults('dict')['x_M'], 1.5, what + ': simulation afterwards')
                    s.problem.resolve()
                    s.runSimulation()
                    ctx.close(s.getResults('dict')['x_M'], 1.5, what + ': problem resolved afterwards')
                    ctx.state((o, how, lookup, sign, n))


def run_dynamic(ctx):
    """x' = -k x: x(1) = exp(-k)."""
    L = lib()

    class M(sut.Model):
        def __init__(self, name):
            super().__init__(name, '')
            self.t = self.createVariable('t', sut.tu.dimless, '')
            self.x = self.createVariable('x', sut.tu.dimless, '')
            self.k = self.createParameter('k', sut.tu.dimless, '')
            self.k.setValue(1.)
            self.dom = sut.Domain('dom', sut.tu.dimless, [self.t])
            self.x.distributeOnDomain(self.dom)

        def DeclareEquations(self):
            self.createEquation('e', '', self.x.Diff(self.t) == self.k() * self.x() * -1.)
    for o in OPTIMIZERS:
        for solver in ('ODEINT', 'CVODE'):
            m = M('M')
            m()
            p = sut.Problem('P', '')
            p.addModels(m)
            p.setTimeVariableName(['t_M'])
            p.resolve()
            p.setInitialConditions({'t_M': 0., 'x_M': 1.})
            s = sut.sim()('S', '', p)
            s.setConfigurations(is_dynamic=True, domain=m.dom, time_variable_name='t_M', end_time=1., number_of_time_steps=2,
                                differential_solver=solver)
            s.runSimulation()
            before = s.getResults('dict')
            end = list(before['t_M']['x_M'])[-1]
            ctx.close(end, np.exp(-1.), 'simulation before', 1e-4)

            class P(L.OptimizationProblem):
                def DeclareObjectiveFunction(self, v):
                    sim = self.simulation_instance
                    sim['k_M'].setValue(float(v[0]))
                    sim.problem.resolve()
                    sim.setConfigurations(definition_dict=self.simulation_configuration)
                    sim.reset()
                    sim.runSimulation()
                    res = sim.getResults('dict')['t_M']
                    f = (res['x_M'][-1] - .5) ** 2
                    LOG.append((float(v[0]), f, len(res['x_M'])))
                    return [f]
            pr = P(1)
            pr()
            seed(5)
            st = L.Optimization(s, pr, [m.k], constraints=[.2, 2.], optimizer=o,
                                optimization_configuration={'number_of_individuals': 7, 'number_of_generations': 2})
            del LOG[:]
            st.runOptimization(print_output=False)
            for v, f, rows in LOG:
                ctx.step('%s %s at %r' % (o, solver, v))
                ctx.close(f, (np.exp(-v) - .5) ** 2, "%s, %s: objective at k = %r" % (o, solver, v), 1e-3, 1e-5)
                ctx.eq(rows, len(before['t_M']['x_M']), '%s, %s: rows of the run' % (o, solver))
            ctx.close(st.getResults()[1][0], min(f for _, f, _ in LOG), '%s, %s: best' % (o, solver))
            ctx.eq(float(m.k.value), 1., '%s, %s: parameter given' % (o, solver))
            ctx.eq({k: list(v) for k, v in s.getResults('dict')['t_M'].items()}, {k: list(v) for k, v in before['t_M'].items()},
                   '%s, %s: results of the simulation given' % (o, solver))
            ctx.state((o, solver))


def run_misc(ctx):
    L = lib()
    s = simulation()[0]
    mk = lambda: make_problem(L.OptimizationProblem, sphere, number_of_dimensions=2)
    small = {'number_of_individuals': 7, 'number_of_generations': 1}
    ready = mk()
    ready()
    for o in OPTIMIZERS:
        st = L.Optimization(s, mk(), ['a', 'b'], constraints=[LOW[:2], UP[:2]], optimizer=o, optimization_configuration=small)
        ctx.raises(AbsentRequiredObjectError, st.runOptimization, 'unresolved optimization problem')
        ctx.raises(Exception, st.getResults, 'results before running')
        for cons, names in (({'a': (0., 1.)}, ['a', 'b']), ({'a': (0., 1.), 'c': (0., 1.)}, ['a', 'b']),
                            ({'a': (0., 1.)}, [sut.Parameter('a', sut.tu.dimless), sut.Parameter('b', sut.tu.dimless)])):
            st = L.Optimization(s, ready, names, constraints=cons, optimizer=o, optimization_configuration=small)
            ctx.raises(AbsentRequiredObjectError, st.runOptimization, 'parameter without constraints')
            ctx.step(o)
        bare = sut.sim()('S', '', s.problem)
        ctx.raises(AbsentRequiredObjectError, lambda: L.Optimization(bare, ready, ['a', 'b'], optimizer=o), 'simulation without configuration')
        ctx.raises(AbsentRequiredObjectError, lambda: L.Optimization(s, ready, ['a', 'b'], simulation_configuration=4, optimizer=o),
                   'simulation configuration of another kind')
        ctx.raises(AbsentRequiredObjectError, lambda: L.Optimization(s, ready, ['a', 'b'], optimizer=o, optimization_configuration=[1]),
                   'optimization configuration of another kind')
        ctx.state(o)
    for bad in ('simplex', '', 'GA', 3, None, ['ga']):
        ctx.raises(UnexpectedValueError, lambda: L.Optimization(s, ready, ['a', 'b'], optimizer=bad), 'optimizer %r' % (bad,))
        ctx.step(bad)
        ctx.state(repr(bad))
    ctx.raises(FileNotFoundError, lambda: L.Optimization(s, ready, ['a', 'b'], optimization_configuration='/nonexistent/x.json'), 'absent file')


def run_history(ops, ctx):
    L = lib()
    sims = {k: simulation() for k in 'AB'}
    sims['B'][3].setValue(10.)
    sims['B'][0].problem.resolve()
    s = sims['A'][0]
    own = [([-3., 8.], [-2., 9.5]), ([20., 30.], [21., 33.])]           # bounds of the problems themselves
    probs = [make_problem(L.OptimizationProblem, sphere, number_of_dimensions=2, bounds=own[0]),
             make_problem(L.OptimizationProblem, plane, number_of_dimensions=2, bounds=own[1])]
    for p in probs:
        p()
    fs = [sphere, plane]
    boxes = [([-2., 10.], [-1., 13.]), ([3., -7.], [4., -5.])]
    state = {'A': [0, 0, False], 'B': [0, 1, True], 'C': [0, None, False]}                    # problem, box, maximize
    seed(7)
    conf = {'number_of_individuals': 7, 'number_of_generations': 2, 'ftol_de': 0., 'xtol_de': 0.}
    sims['C'] = sims['A']
    studies = {k: L.Optimization(sims[k][0], probs[v[0]], ['a', 'b'], is_maximization=v[2],
                                 constraints=None if v[1] is None else [boxes[v[1]][0], boxes[v[1]][1]],
                                 optimizer={'A': 'de', 'B': 'pso', 'C': 'sade'}[k], optimization_configuration=conf) for k, v in state.items()}
    done = {'A': None, 'B': None, 'C': None}
    what = 'start'
    for op in ops:
        what += ' ; ' + op
        ctx.step(what)
        if op == 'simulate':
            s.runSimulation()
            ctx.close(s.getResults('dict')['x_M'], 1.5, what)
            continue
        act, k = op.split()
        v, st = state[k], studies[k]
        if act == 'bounds':
            if k == 'C':
                v[1] = 0 if v[1] is None else None
            else:
                v[1] = 1 - v[1]
            st.setConstraints(None if v[1] is None else [boxes[v[1]][0], boxes[v[1]][1]])
        elif act == 'problem':
            v[0] = 1 - v[0]
            st.setOptimizationProblem(probs[v[0]])
        elif act == 'run':
            del LOG[:], SIMS[:]
            st.runOptimization(print_output=False)
            ctx.eq(set(SIMS), {10. if k == 'B' else 4.}, what + ': parameter of the simulation of the study')
            lo, up = own[v[0]] if v[1] is None else boxes[v[1]]
            judge(ctx, st, list(LOG), lo, up, fs[v[0]], v[2], what, 7, 2)
            done[k] = tuple(st.getResults()[0]), float(st.getResults()[1][0])
        for n in 'ABC':
            if done[n] is None:
                ctx.raises(Exception, studies[n].getResults, what + ': results of %s before running' % n)
            else:
                g = studies[n].getResults()
                ctx.eq((tuple(g[0]), float(g[1][0])), done[n], what + ': results of ' + n)
        ctx.state((str(state), str(done)))


def run_case(case, ctx):
    if case[0] == 'bounds':
        run_bounds(*case[1:], ctx)
    elif case[0] == 'setting':
        run_setting(case[1], ctx)
    elif case[0] == 'simulation':
        run_simulation(case[1], case[2], ctx)
    elif case[0] == 'dynamic':
        run_dynamic(ctx)
    elif case[0] == 'misc':
        run_misc(ctx)
    else:
        for n in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(HIST, repeat=n):
                run_history(case[1:] + list(more), ctx)
