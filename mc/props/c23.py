"""C23: tables reported for models, problems and results."""
import contextlib
import io
import itertools
import math
import sympy
from .. import sut
from . import c14

CHUNK = 1
RULE = ("every sequence of <=3 (thorough: <=4) equations from a pool of 12, with all choices of which of two parameters and of one "
        "constant have values: rows, order, relation, objects and class of each equation in the report of the model, "
        "the problem and the simulation; reports of 2-12 models of 1-12 equations in different orders; tables of residuals and results of every system of a pool after every history of runs and changes; "
        "tables of 3-13 results in different units; tables of dynamic results (also of differential-algebraic problems) for every order of equations and variables")
VALS = [{'x': 1.3, 'y': -0.7, 'p': 0.9, 'q': 2.1, 'c': -1.6}, {'x': -2.2, 'y': 0.4, 'p': 3.3, 'q': 0.6, 'c': 1.1}]


def pool(f, x, y, p, q, c, k):
    """name: (expression, reference, variables, parameters, constants, class)"""
    return {'plain': lambda: x() - y(), 'sides': lambda: x() * 2. == y() + 1., 'param': lambda: x() == q(), 'const': lambda: x() * c() - y(),
            'square': lambda: x() ** 2 == q() * y(), 'prod': lambda: x() * y() - p(), 'exp': lambda: f.Exp(y()) - x() + c(),
            'quot': lambda: x() / q() - p() / c(), 'same': lambda: x() - x() + y() == y() * p(), 'one': lambda: y() == 4.,
            'left': lambda: p() * q() + c() == x(), 'sin': lambda: f.Sin(q() * x()) == f.Sin(y()) + p()}[k]()


REF = {'plain': (lambda x, y, p, q, c: x - y, 'xy', '', '', 'linear'),
       'sides': (lambda x, y, p, q, c: 2 * x - y - 1, 'xy', '', '', 'linear'),
       'param': (lambda x, y, p, q, c: x - q, 'x', 'q', '', 'linear'),
       'const': (lambda x, y, p, q, c: x * c - y, 'xy', '', 'c', None),
       'square': (lambda x, y, p, q, c: x * x - q * y, 'xy', 'q', '', 'nonlinear'),
       'prod': (lambda x, y, p, q, c: x * y - p, 'xy', 'p', '', 'nonlinear'),
       'exp': (lambda x, y, p, q, c: math.exp(y) - x + c, 'xy', '', 'c', 'nonlinear'),
       'quot': (lambda x, y, p, q, c: x / q - p / c, 'x', 'pq', 'c', None),
       'same': (lambda x, y, p, q, c: y - y * p, 'xy', 'p', '', None),
       'one': (lambda x, y, p, q, c: y - 4, 'y', '', '', 'linear'),
       'left': (lambda x, y, p, q, c: p * q + c - x, 'x', 'pq', 'c', None),
       'sin': (lambda x, y, p, q, c: math.sin(q * x) - math.sin(y) - p, 'xy', 'pq', '', 'nonlinear')}
POOL = list(REF)
NM = {'x': 'x', 'y': 'x1', 'p': 'p', 'q': 'pc', 'c': 'c'}               # names that contain each other
HEAD = ['Equation name', 'Description', 'Representation', 'Variables', 'Parameters', 'Constants', 'Equation type']
SYS = [([[2]], [3], 'residual'), ([[1, 2], [3, -1]], [4, 0.5], 'sides'), ([[0, 1], [2, 1]], [-1, 5], 'param'),
       ([[1, 2, 0], [0, 1, -1], [2, 0, 1]], [3, -1, 0.5], 'const'), ([[1, 1, 1], [1, -1, 1], [0, 1, 2]], [1, 2, 3], 'swapped'),
       ([[1, 1], [1, 1]], [1, 2], 'residual')]
UNITS = ['dimless', 'm', 'm_s', 'Pa', 'J', 'mol_s']
HIST = ['run', 'quiet', 'show', 'list', 'break', 'repair']


def bounds(tier):
    return "sequences of <= %d equations from %d x 10 choices of values; %d systems x %d units, histories of <= %d steps" % (
        4 if tier == 'thorough' else 3, len(POOL), len(SYS), len(UNITS), 5 if tier == 'thorough' else 4)


def cases(tier):
    for a in POOL:
        for given in ('', 'p', 'q', 'c', 'pq', 'pc', 'qc', 'pqc', 'P', 'Pc'):
            yield ['report', a, given]
    for n in (2, 3, 12):
        yield ['many', n]
    for n in (3, 8, 13):
        for nonlinear in (False, True):
            yield ['wide', n, nonlinear]
    for o in itertools.permutations('abc'):
        yield ['dae', ''.join(o)]
    for k in range(len(SYS)):
        for u in UNITS:
            yield ['tables', k, u]
    for a in HIST:
        yield ['hist', a]
    for o in itertools.permutations('abc'):
        yield ['dyn', ''.join(o)]


def table(text):
    """Rows of cells of a printed table, the header first"""
    rows = [[c.strip() for c in l.strip().split('|')[1:-1]] for l in text.split('\n') if l.strip().startswith('|')]
    return rows


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# -------------------------------------------------------------------------------------------- reports

def cell(objs, given):
    return sorted('%s_M%s' % (NM[o], '(*)' if o in given.lower() else '') for o in objs)


def judge_report(ctx, text, seq, given, what):
    rows = table(text)
    ctx.eq(rows[0], HEAD, what + ': header')
    ctx.eq([r[0] for r in rows[1:]], ['e%d_M' % i for i in range(len(seq))], what + ': names')
    for i, (k, r) in enumerate(zip(seq, rows[1:])):
        ref, vs, ps, cs, typ = REF[k]
        w = '%s: %s' % (what, k)
        ctx.eq(r[1], 'equation %d %s' % (i, k), w + ': description')
        for col, objs in ((3, vs), (4, ps), (5, cs)):
            ctx.eq(sorted(v for v in r[col].split(', ') if v), cell(objs, given), '%s: %s' % (w, HEAD[col]))
        ctx.check(r[6] in ('linear', 'nonlinear') and (typ is None or r[6] == typ), '%s: class %s' % (w, r[6]))
        expr = sympy.sympify(r[2])
        names = {str(s) for s in expr.free_symbols}
        ctx.check(names <= {n + '_M' for n in NM.values()}, '%s: %s' % (w, r[2]))
        for v in VALS:
            got = expr.subs({NM[n] + '_M': a for n, a in v.items()})
            ctx.close(float(got), ref(**v), '%s: representation %s' % (w, r[2]))


def run_report(ctx, seq, given):
    un = sut.tu.dimless
    m = sut.Model('M', '')
    x, y = m.createVariable('x', un, ''), m.createVariable(NM['y'], un, '', is_exposed=True, type='output')
    p, q, c = m.createParameter('p', un, ''), m.createParameter(NM['q'], un, '', value=.25), m.createConstant('c', un, '', value=1.5)
    for o, n in ((p, 'p'), (q, 'q'), (c, 'c')):
        if n in given.lower():
            o.setValue(0. if n.upper() in given else VALS[0][n])          # upper case: given the value zero
    for i, k in enumerate(seq):
        m.createEquation('e%d' % i, 'equation %d %s' % (i, k), pool(sut.ops, x, y, p, q, c, k))
    what = '%s with values of %s' % (' ; '.join(seq), given)
    ctx.step(what)
    text = str(sut.Analysis().modelReport(m))
    judge_report(ctx, text, seq, given, what)
    ctx.eq(str(sut.Analysis().modelReport(m)), text, what + ': second report')
    ctx.state((tuple(seq), given))
    with captured() as out:
        m._infoModelReport_()
    ctx.eq(out.getvalue().strip(), text.strip(), what + ': printed report')
    with captured() as out:
        dof = m._infoDegreesOfFreedom_()
    t = table(out.getvalue())
    ctx.eq(t[:2], [['Nb. Equations', 'Nb. Variables', 'Nb. Parameters'], [str(len(seq)), '2', '2']], what + ': counts')
    ctx.eq(t[-1], [str(a) for a in dof], what + ': degrees of freedom')
    over = m._getModelOverviewForGraph()
    ctx.eq(over.split('\n\n'), ['M', ' ->input: ', ' ->output: %s_M' % NM['y'], ' ->parameters: p_M, %s_M' % NM['q']], what + ': overview')
    s = sut.sim()('S', '')
    with captured() as out:
        s.report(m)
    ctx.eq(out.getvalue().strip(), text.strip(), what + ': report of the simulation')
    prob = sut.Problem('P', '')
    prob.addModels(m)
    prob.resolve()
    with captured() as out:
        s.report(prob)
    rep = out.getvalue()
    ctx.eq([l.strip() for l in rep.split('\n')][:2], ['Problem: P (%s)' % prob._getProblemType(), 'Model: M'], what + ': heading')
    judge_report(ctx, rep, seq, given, what + ': report of the problem')
    for bad in (None, 'M', s, x, [m]):
        ctx.raises(sut.UnexpectedValueError, lambda: s.report(bad), what + ': report of something else')


def run_many(ctx, n):
    """The report of a problem of several models with 1-12 equations each, in the order in which the models were added"""
    un = sut.tu.dimless
    for rot in range(min(n, 4)):
        for back in (False, True):
            sizes = [(1, 12, 3, 11)[i % 4] for i in range(n)]
            names = ['M%d' % i for i in range(n)]
            names = names[rot:] + names[:rot]
            if back:
                names.reverse()
            ms = []
            for k, (name, size) in enumerate(zip(names, sizes)):
                m = sut.Model(name, '')
                xs = [m.createVariable('x%d' % i, un, '') for i in range(size)]
                q = m.createParameter('q', un, '')
                if k % 2:
                    q.setValue(2.5)
                for i in reversed(range(size)):
                    m.createEquation('e%d' % i, 'about %d' % i, xs[0]() * q() - 3. if i == 0 else xs[i]() * xs[i - 1]() == 2. + i if i % 4 == 2
                                     else xs[i]() - xs[i - 1]() * (2. + i) == 1.)
                ms.append(m)
            p = sut.Problem('P', '')
            p.addModels(ms)
            p.resolve()
            what = '%d models, named %r' % (n, names)
            ctx.step(what)
            text = sut.Analysis().problemReport(p)
            parts = text.split('Model: ')
            ctx.eq([t.split('\n')[0].strip() for t in parts[1:]], names, what + ': models')
            for k, (m, size, t) in enumerate(zip(ms, sizes, parts[1:])):
                rows = table(t)[1:]
                ctx.eq([r[0] for r in rows], ['e%d_%s' % (i, m.name) for i in reversed(range(size))], what + ': equations of ' + m.name)
                for i, r in zip(reversed(range(size)), rows):
                    w = '%s: equation %d of %s' % (what, i, m.name)
                    ctx.eq(r[1], 'about %d' % i, w)
                    used = ['x%d_%s' % (j, m.name) for j in ([i, i - 1] if i else [0])]
                    ctx.eq(sorted(r[3].split(', ')), sorted(used), w)
                    ctx.eq(r[4], '' if i else 'q_%s%s' % (m.name, '(*)' if k % 2 else ''), w)
                    ctx.eq(r[5], '', w)
                    e = sympy.sympify(r[2])
                    v = {'x%d_%s' % (j, m.name): 1.5 + .25 * j for j in range(size)}
                    v['q_' + m.name] = 2.5
                    ctx.close(float(e.subs(v)), 2.5 * v[used[0]] - 3. if i == 0 else v[used[0]] * v[used[1]] - 2. - i if i % 4 == 2
                              else v[used[0]] - v[used[1]] * (2. + i) - 1., w + ': ' + r[2])
                    ctx.check(r[6] == ('nonlinear' if i % 4 == 2 else 'linear') or i == 0 and r[6] == 'nonlinear', w + ': class ' + r[6])
            ctx.eq(sut.Analysis().problemReport(p), text, what + ': second report')
            ctx.state((n, rot, back))


# ------------------------------------------------------------------------------------- results of runs

def judge_results(ctx, s, names, unit, what):
    with captured() as out:
        s.showResults()
    ctx.check('Result summary' in out.getvalue(), what + ': heading of the results')
    t = table(out.getvalue())
    ctx.eq(t[0], ['Variable', 'Unit', 'Value'], what + ': header of the results')
    res = s.getResults('dict')
    ctx.eq(sorted(r[0] for r in t[1:]), sorted(names), what + ': variables shown')
    for n, u, v in t[1:]:
        d = {a.split('^')[0]: float(a.split('^')[1]) for a in u.split()} if '^' in u else {}
        ctx.eq({k: a for k, a in d.items() if a}, sut.dims(unit), what + ': unit of %s: %s' % (n, u))
        ctx.close(float(v), float(res[n]), what + ': value of ' + n, 1e-12, 1e-12)
    lst = s.getResults('list')
    ctx.eq(len(lst), len(t) - 1, what + ': list of results')
    for r, v in zip(t[1:], lst):
        ctx.close(float(r[2]), v, what + ': list of results', 1e-12, 1e-12)


def judge_run(ctx, s, prob, show, what):
    with captured() as out:
        s.runSimulation(show_output_msg=show, show_final_residuals=show)
    txt = out.getvalue()
    ctx.eq('ended sucessfully' in txt, show, what + ': message')
    ctx.check('unsucessfully' not in txt, what + ': message of a failure')
    ctx.eq('Final residuals' in txt, show, what + ': residuals printed')
    if show:
        t = table(txt)
        ctx.eq(t[0], ['Equation', 'Residual'], what + ': header of the residuals')
        ctx.eq([r[0] for r in t[1:]], [e.name for e in prob.equation_block.equations], what + ': equations of the residuals')
        for n, r in t[1:]:
            ctx.close(float(r), 0., what + ': residual of ' + n, 1e-7, 1e-7)


def run_tables(ctx, k, u):
    A, b, form = SYS[k]
    unit = getattr(sut.tu, u)
    if u != 'dimless' and form in ('sides', 'param', 'swapped'):
        form = 'residual'
    what = 'system %d in %s' % (k, u)
    n = len(A)
    m = sut.Model('A', '')
    xs = [m.createVariable('xyz'[i], unit, '') for i in range(n)]
    one = m.createConstant('one', unit, '')
    one.setValue(1.)
    for i in range(n):
        terms = [float(A[i][j]) * xs[j]() for j in range(n) if A[i][j]]
        m.createEquation('e%d' % i, '', sum(terms[1:], terms[0]) - float(b[i]) * one())
    prob = sut.Problem('P', '')
    prob.addModels(m)
    prob.resolve()
    names = [x.name for x in xs]
    for solver in c14.LIN:
        s = sut.sim()('S', '', prob)
        s.setConfigurations(linear_solver=solver)
        w = '%s by %s' % (what, solver)
        ctx.step(w)
        ctx.state((k, u, solver))
        ctx.raises(AssertionError, s.showResults, w + ': results before the run')
        if c14.solve_exact(A, b) == 'none':
            with captured() as out:
                ctx.raises(Exception, s.runSimulation, w + ': no solution')
            ctx.check('ended sucessfully' not in out.getvalue(), w + ': message of success')
            ctx.raises(AssertionError, s.showResults, w + ': results of a failed run')
            continue
        for show in (True, False, True):
            judge_run(ctx, s, prob, show, w)
            judge_results(ctx, s, names, unit, w)
        for a, v in zip(c14.solve_exact(A, b), names):
            ctx.close(float(s.getResults('dict')[v]), a, w + ': ' + v, 1e-6, 1e-6)


def run_wide(ctx, n, nonlinear):
    """n unknowns, each with a unit of its own, in two models; the rows of the tables in several orders of equations"""
    from .c14 import orders
    units = ['m', 's', 'dimless', 'K', 'kg', 'Pa', 'J', 'mol_s', 'N', 'W']
    for vo, eo in itertools.product(orders(n), repeat=2):
        ms = [sut.Model('A', ''), sut.Model('A1', '')]
        xs, un = {}, {}
        for k, i in enumerate(vo):
            un[i] = getattr(sut.tu, units[(i * 3) % len(units)], sut.tu.m)
            xs[i] = ms[k % 2].createVariable('x%d' % i, un[i], '')
        for k, i in enumerate(eo):
            if i == 0:
                e = xs[0]() == 2.
            elif nonlinear and i % 3 == 1:
                e = xs[i]() * xs[i - 1]() == i + 1.
            else:
                # the unit of a number is the one needed
                ratio = ms[k % 2].createConstant('r%d' % i, un[i] / un[i - 1], '')
                ratio.setValue(0.5 + i % 4)
                e = xs[i]() == ratio() * xs[i - 1]()
            ms[k % 2].createEquation('e%d' % i, '', e, check_equation=False)
        prob = sut.Problem('P', '')
        prob.addModels(ms)
        prob.resolve()
        want = [2.]
        for i in range(1, n):
            want.append((i + 1.) / want[-1] if nonlinear and i % 3 == 1 else (0.5 + i % 4) * want[-1])
        s = sut.sim()('S', '', prob)
        what = '%d unknowns, variables %s, equations %s' % (n, vo, eo)
        ctx.step(what)
        s.setConfigurations(initial_guess={xs[i].name: want[i] * 1.01 for i in range(n)})
        for show in (True, False):
            judge_run(ctx, s, prob, show, what)
            with captured() as out:
                s.showResults()
            t = table(out.getvalue())
            ctx.eq(t[0], ['Variable', 'Unit', 'Value'], what + ': header of the results')
            ctx.eq(sorted(r[0] for r in t[1:]), sorted(x.name for x in xs.values()), what + ': variables shown')
            shown = {r[0]: r for r in t[1:]}
            for i in range(n):
                _, u, v = shown[xs[i].name]
                d = {a.split('^')[0]: float(a.split('^')[1]) for a in u.split()} if '^' in u else {}
                ctx.eq({k: a for k, a in d.items() if a}, sut.dims(un[i]), what + ': unit of %s: %s' % (xs[i].name, u))
                ctx.close(float(v), want[i], what + ': value of ' + xs[i].name, 1e-4, 1e-4)
            ctx.state((n, nonlinear, tuple(vo), tuple(eo), show))


def run_dae(ctx, order):
    """the table of a differential-algebraic run holds the rows of its results"""
    un = sut.tu.dimless
    m = sut.Model('M', '')
    t = m.createVariable('t', un, '')
    vs = {n: m.createVariable(n, un, '') for n in order}
    dom = sut.Domain('D', un, [t])
    for n in order:
        vs[n].distributeOnDomain(dom)
    eqs = {'a': lambda: vs['a'].Diff(t) == -1. * vs['b']() + 0.5, 'b': lambda: vs['b']() == 2. * vs['a']() + 1., 'c': lambda: vs['c'].Diff(t) == vs['b']()}
    for n in order[1:] + order[:1]:
        m.createEquation('e' + n, '', eqs[n]())
    p = sut.Problem('P', '')
    p.addModels(m)
    p.setTimeVariableName(['t_M'])
    p.resolve()
    p.setInitialConditions({'t_M': 0., 'a_M': 1., 'b_M': 3., 'c_M': -1., 'a_M_d': -2.5, 'c_M_d': 3.})
    s = sut.sim()('S', '', p)
    for steps, printed in itertools.product((1, 2, 5), (False, True)):
        what = 'differential-algebraic, order %s, %d steps%s' % (order, steps, ', output printed' if printed else '')
        ctx.step(what)
        s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name='t_M', end_time=1., number_of_time_steps=steps,
                            output_headers=['time', 'one', 'two', 'three'], print_output=printed)
        s.reset()
        with captured() as out:
            s.runSimulation()
        during = table(out.getvalue())
        ctx.eq(bool(during), printed, what + ': table printed by the run')
        with captured() as out:
            s.showResults()
        rows = table(out.getvalue())
        ctx.eq(rows[0], ['time', 'one', 'two', 'three'], what + ': header')
        if printed:
            ctx.eq(during, rows, what + ': table printed by the run')
        res = s.getResults('dict')['t_M']
        ctx.eq(len(rows), steps + 2, what + ': rows')
        cols = [tuple(float(r[j]) for r in rows[1:]) for j in range(4)]
        left = ['a_M', 'b_M', 'c_M']
        for i, v in enumerate(cols[0]):
            ctx.close(v, float(res['t_M'][i]), what + ': time', 1e-6, 1e-9)
        for c in cols[1:]:
            same = [n for n in left if all(abs(x - y) <= 1e-6 * max(1., abs(y)) for x, y in zip(c, res[n]))]
            ctx.check(same, '%s: the column %r is not one of the results %r' % (what, c, {n: res[n] for n in left}))
            left.remove(same[0])
        ctx.state((order, steps, printed))


def run_history(ctx, ops):
    class M(sut.Model):
        def __init__(self):
            super().__init__('A', '')
            self.x, self.y = self.createVariable('x', sut.tu.m, ''), self.createVariable('y', sut.tu.m, '')
            self.k, self.l = self.createParameter('k', sut.tu.m, ''), self.createParameter('l', sut.tu.dimless, '')

        def DeclareEquations(self):
            self.createEquation('e1', '', self.x() + self.y() == self.k())
            self.createEquation('e2', '', self.x() == self.l() * self.y())
    m = M()
    m.k.setValue(6.)
    m.l.setValue(2.)
    p = sut.Problem('P', '')
    p.addModels(m)
    p.resolve()
    s = sut.sim()('S', '', p)
    s.setConfigurations(linear_solver='sympy')
    good, ran, what = True, None, 'start'
    for op in ops:
        what += ' ; ' + op
        ctx.step(what)
        if op in ('run', 'quiet'):
            if good:
                judge_run(ctx, s, p, op == 'run', what)
                ran = m.k.value
            else:
                with captured() as out:
                    ctx.raises(Exception, s.runSimulation, what)
                ctx.check('ended sucessfully' not in out.getvalue(), what + ': message of success')
        elif op == 'show':
            if ran is None:
                ctx.raises(AssertionError, s.showResults, what)
            else:
                judge_results(ctx, s, ['x_A', 'y_A'], sut.tu.m, what)
        elif op == 'list':
            if ran is not None:
                ctx.eq(sorted(s.getResults()), sorted(float(v) for v in s.getResults('dict').values()), what)
        else:
            good = op == 'repair'
            m.l.setValue(2. if good else -1.)
            m.k.setValue(m.k.value + 3.)
            p.resolve()
        if ran is not None:
            r = s.getResults('dict')
            ctx.close(float(r['x_A']), 2. * ran / 3., what + ': results')
            ctx.close(float(r['y_A']), ran / 3., what + ': results')
        ctx.state((good, ran, op))


def run_dynamic(ctx, order):
    m = sut.Model('M', '')
    un = sut.tu.dimless
    t = m.createVariable('t', un, '')
    vs = {n: m.createVariable(n, un, '') for n in order}
    dom = sut.Domain('D', un, [t])
    for n in order:
        vs[n].distributeOnDomain(dom)
    for n in order[1:] + order[:1]:
        i = 'abc'.index(n)
        m.createEquation('e' + n, '', vs[n].Diff(t) == (i + 1.) * vs['abc'[(i + 1) % 3]]() * -1. + 0.5)
    p = sut.Problem('P', '')
    p.addModels(m)
    p.setTimeVariableName(['t_M'])
    p.resolve()
    p.setInitialConditions({'t_M': 0., 'a_M': 1., 'b_M': 2., 'c_M': -1.})
    s = sut.sim()('S', '', p)
    ref = [n + '_M' for n in order[1:] + order[:1]]
    for steps, solver, printed in itertools.product((1, 2, 5), ('ODEINT', 'CVODE'), (False, True)):
        what = 'order %s, %d steps by %s%s' % (order, steps, solver, ', output printed' if printed else '')
        ctx.step(what)
        s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name='t_M', end_time=1., number_of_time_steps=steps,
                            output_headers=['time'] + ref, differential_solver=solver, print_output=printed)
        s.reset()
        with captured() as out:
            s.runSimulation()
        ctx.check('Final residuals' not in out.getvalue() and 'DIFFERENTIAL' in out.getvalue(), what + ': residuals')
        during = table(out.getvalue())
        ctx.eq(bool(during), printed, what + ': table printed by the run')
        with captured() as out:
            s.showResults()
        rows = table(out.getvalue())
        ctx.eq(rows[0], ['time'] + ref, what + ': header')
        if printed:
            ctx.eq(during, rows, what + ': table printed by the run')
        ctx.eq(len(rows), steps + 2, what + ': rows')
        res = s.getResults('dict')['t_M']
        for j, n in enumerate(['t_M'] + ref):
            for i, r in enumerate(rows[1:]):
                ctx.close(float(r[j]), float(res[n][i]), '%s: %s at row %d' % (what, n, i), 1e-6, 1e-9)
        ctx.state((order, steps, solver, printed))


def run_case(case, ctx):
    kind = case[0]
    deep = ctx.tier == 'thorough'
    if kind == 'report':
        for n in range(0, 4 if deep else 3):
            for more in itertools.product(POOL, repeat=n):
                run_report(ctx, [case[1]] + list(more), case[2])
    elif kind == 'many':
        run_many(ctx, case[1])
    elif kind == 'tables':
        run_tables(ctx, *case[1:])
    elif kind == 'wide':
        run_wide(ctx, *case[1:])
    elif kind == 'dae':
        run_dae(ctx, case[1])
    elif kind == 'hist':
        for n in range(0, 5 if deep else 4):
            for more in itertools.product(HIST, repeat=n):
                run_history(ctx, [case[1]] + list(more))
    else:
        run_dynamic(ctx, case[1])
