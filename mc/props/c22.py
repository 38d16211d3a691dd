"""C22: plots."""
import contextlib
import itertools
import os
import shutil
import tempfile
import numpy as np
from .. import sut
from . import c19

CHUNK = 1
RULE = ("every plot of 1-2 abscissas and 1-3 (also 11) ordinates given as arrays, lists, or names of columns of a simulated domain, with every "
        "subset of the options (labels, markers, width, titles, grid, legend, file, show), inspected in the figure when it is "
        "shown and when it is written; every history of <=2 (thorough: <=3) plots, runs and graphs of optimizations: each figure "
        "holds its own curves only; graphs of every optimizer x report frequency x log kept or not x direction against the log")
OPTS = ['labels', 'markers', 'linewidth', 'titles', 'grid', 'legend', 'file']
MARK = 'osD^v<>phx+'
HIST = ['names', 'arrays', 'one', 'file', 'silent', 'bad name', 'run', 'reset run', 'graph']


def bounds(tier):
    return "1-2 abscissas x 1-3 ordinates x 2^7 options; histories of <= %d plots from %d" % (3 if tier == 'thorough' else 2, len(HIST))


def cases(tier):
    for nx in (1, 2):
        for ny in (1, 2, 3):
            for how in ('arrays', 'array', 'names', 'names renamed'):
                if how.startswith('names') and nx > 1:
                    continue
                yield ['plot', nx, ny, how]
    yield ['plot', 1, 3, 'names reversed']
    for how in ('name and arrays', 'arrays and names', 'plotter names', 'plotter arrays'):
        yield ['plot', 1, 2, how]
    yield ['plot', 1, 11, 'arrays']
    yield ['plot', 1, 11, 'array']
    for a in HIST:
        yield ['hist', a]
    for o in ('ga', 'sade', 'de', 'pso'):
        yield ['graph', o]


class Figures(list):
    """The figures shown; .saved: those written to files"""


@contextlib.contextmanager
def shown():
    """Collects the figures shown."""
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import FigureCanvasBase
    figs, saved = Figures(), []
    figs.saved = saved
    plt.rcParams['savefig.dpi'] = 30
    plt.rcParams['figure.dpi'] = 30

    def inspect(fig):
        axes = fig.axes
        one = {'axes': len(axes), 'lines': []}
        for ax in axes:
            for ln in ax.get_lines():
                one['lines'].append((tuple(map(float, ln.get_xdata())), tuple(map(float, ln.get_ydata())), ln.get_label(), ln.get_marker(),
                                     float(ln.get_linewidth())))
            one.update(xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), legend=ax.get_legend() is not None, xlim=ax.get_xlim(),
                       grid=any(g.get_visible() for g in ax.get_xgridlines()))
            if ax.get_legend() is not None:
                one['entries'] = [t.get_text() for t in ax.get_legend().get_texts()]
        return one

    def show(*a, **k):
        figs.append(inspect(plt.gcf()))

    def written(canvas, *a, **k):
        saved.append(inspect(canvas.figure))
        return old_print(canvas, *a, **k)
    old, old_print = plt.show, FigureCanvasBase.print_figure
    plt.show, FigureCanvasBase.print_figure = show, written
    try:
        yield figs
    finally:
        plt.show, FigureCanvasBase.print_figure = old, old_print
        plt.close('all')


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc22-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def optimize(o, freq, log, maximize):
    s = c19.simulation()[0]
    p = c19.make_problem(c19.lib().OptimizationProblem, c19.sphere, number_of_dimensions=2)
    p()
    c19.seed(4)
    st = c19.lib().Optimization(s, p, ['a', 'b'], constraints=[c19.LOW[:2], c19.UP[:2]], optimizer=o, is_maximization=maximize,
                                optimization_configuration={'number_of_individuals': 8, 'number_of_generations': 5})
    del c19.LOG[:]
    st.runOptimization(print_output=False, report_frequency=freq, optimization_log=log, save_optimization_graph=True)
    return st


def judge_graph(ctx, st, figs, d, what, log=True):
    ctx.eq(len(figs), 0, what + ': figures shown')
    ctx.eq(len(figs.saved), 1, what + ': figures written')
    files = [f for f in os.listdir(d) if f.startswith('optimization-' + st.optimizer)]
    ctx.check(len(files) == 1 and image(os.path.join(d, files[0])), "%s: files %r" % (what, files))
    os.remove(os.path.join(d, files[0]))
    fig = figs.saved[0]
    ctx.eq((fig['axes'], len(fig['lines'])), (1, 1), what + ': axes and curves')
    xs, ys = fig['lines'][0][:2]
    ctx.check(all(any(c19.sut_close(y, v) for _, v in c19.LOG) for y in ys), "%s: drawn values %r are no evaluations" % (what, ys))
    if log:
        t = st.getOptimizationLog()
        ctx.eq(xs, tuple(float(v) for v in t['Fevals']), what + ': abscissa')
        ctx.eq(ys, tuple(float(v) for v in t['gbest' if st.optimizer == 'pso' else 'Best']), what + ': ordinate')
    ctx.check(not xs or fig['xlim'][1] >= max(xs), "%s: limits %r" % (what, fig['xlim']))


def run_graph(o, ctx):
    with scratch() as d, inside(d), shown() as figs:
        for freq in (0, 1, 2, 3):
            for log in (True, False):
                for maximize in (False, True):
                    what = "graph of %s, report every %d, log %s, maximization %s" % (o, freq, log, maximize)
                    ctx.step(what)
                    del figs[:], figs.saved[:]
                    st = optimize(o, freq, log, maximize)
                    judge_graph(ctx, st, figs, d, what, log)
                    ctx.check(o == 'ga' or len(figs.saved[0]['lines'][0][0]) > 0, what + ': nothing drawn')
                    ctx.state((o, freq, log, maximize))


def simulated(rename=False):
    m = sut.Model('M', '')
    un = sut.tu.dimless
    t = m.createVariable('t', un, '')
    vs = [m.createVariable(n, un, '') for n in 'abc']
    dom = sut.Domain('D', un, [t])
    for v in vs:
        v.distributeOnDomain(dom)
    for i, v in enumerate(vs):
        m.createEquation('e' + v.name, '', v.Diff(t) == (i + 1.) * vs[(i + 1) % 3]() * -1. + 0.5)
    p = sut.Problem('P', '')
    p.addModels(m)
    p.setTimeVariableName(['t_M'])
    p.resolve()
    p.setInitialConditions({'t_M': 0., 'a_M': 1., 'b_M': 2., 'c_M': -1.})
    s = sut.sim()('S', '', p)
    names = ['t_M', 'a_M', 'b_M', 'c_M']
    vmap = {}
    if rename:
        vmap = {'t_M': 'Time', 'b_M': 'Second', 'c_M': 'Third'}
        names = [vmap.get(n, n) for n in names]
    s.setConfigurations(is_dynamic=True, domain=dom, time_variable_name='t_M', end_time=1., number_of_time_steps=6, variable_name_map=vmap)
    s.runSimulation()
    return s, names


def columns(s, names):
    r = s.getResults('dict')['t_M']
    return [tuple(float(a) for a in r[n]) for n in names]


def judge(ctx, fig, xs, ys, opts, what, labels=None):
    labels = labels or ['curve %d' % i for i in range(len(ys))] if 'labels' in opts else None
    want = []
    for x in xs:
        for j, y in enumerate(ys):
            want.append((tuple(x), tuple(y)))
    got = [(a[0], a[1]) for a in fig['lines']]
    ctx.eq(fig['axes'], 1, what + ': axes')
    ctx.eq(sorted(got), sorted(want), what + ': curves')
    for ln in fig['lines']:
        j = [k for k, y in enumerate(ys) if tuple(y) == ln[1]][0]
        if labels:
            ctx.eq(ln[2], labels[j], what + ': label')
        if 'markers' in opts:
            ctx.eq(ln[3], MARK[j], what + ': marker')
        else:
            ctx.check(ln[3] in ('', 'None', None, ' '), "%s: marker %r" % (what, ln[3]))
        ctx.eq(ln[4], 1.25 if 'linewidth' in opts else 2.5, what + ': width')
    ctx.eq((fig['xlabel'], fig['ylabel']), ('hours', 'amount') if 'titles' in opts else ('time', 'output'), what + ': titles')
    ctx.eq(fig['grid'], 'grid' in opts, what + ': grid')
    if labels:
        ctx.eq(fig['legend'], 'legend' in opts, what + ': legend')
        if 'legend' in opts:
            ctx.eq(sorted(fig['entries']), sorted(ln[2] for ln in fig['lines']), what + ': entries of the legend')
    if len(xs) == 1:
        ctx.close(fig['xlim'][0], min(xs[0]), what + ': limit')
        ctx.close(fig['xlim'][1], max(xs[0]), what + ': limit')


def kwargs(opts, ny, path):
    kw = {}
    if 'labels' in opts:
        kw['labels'] = ['curve %d' % i for i in range(ny)]
    if 'markers' in opts:
        kw['markers'] = list(MARK)[:ny]
    if 'linewidth' in opts:
        kw['linewidth'] = 1.25
    if 'titles' in opts:
        kw.update(x_label='hours', y_label='amount')
    if 'grid' in opts:
        kw['grid'] = True
    if 'legend' in opts:
        kw['legend'] = True
    if 'file' in opts:
        kw['save_file'] = path
    return kw


def image(path):
    with open(path, 'rb') as f:
        head = f.read(8)
    return head == b'\x89PNG\r\n\x1a\n' and os.path.getsize(path) > 500


def run_plot(nx, ny, how, ctx):
    s, names = simulated(how == 'names renamed')
    cols = columns(s, names)
    data = [np.array(c) for c in cols]
    data += [data[1 + i % 3] * (i + 2.) for i in range(ny - 3)]
    with scratch() as d, shown() as figs:
        n = 0
        for r in range(len(OPTS) + 1):
            for opts in itertools.combinations(OPTS, r):
                n += 1
                what = "%d x %d by %s with options %s" % (nx, ny, how, ', '.join(opts))
                ctx.step(what)
                path = os.path.join(d, 'f%d.png' % n)
                kw = kwargs(opts, ny, path)
                if how in ('arrays', 'plotter arrays'):
                    xs, ys = [data[0], data[0] * 10.][:nx], data[1:1 + ny]
                    x, y = [a.copy() for a in xs], [a.copy() for a in ys]
                elif how == 'array':
                    xs, ys = [data[0], data[0] + 3.][:nx], data[1:1 + ny]
                    x, y = np.array(xs), np.array(ys)
                else:
                    xs, ys = [data[0]], data[1:1 + ny]
                    if how == 'names reversed':
                        ys = ys[::-1]
                    x, y = names[0], list(names[1:1 + ny])[::-1 if how == 'names reversed' else 1]
                    kw['data'] = s.domain
                if how == 'name and arrays':
                    y = [a.copy() for a in ys]
                elif how == 'arrays and names':
                    x = s.domain[('t_M', 't_M')]
                plot = s.plotTimeSeries
                if how.startswith('plotter'):
                    plot = sut.lib('plotter').Plotter().plotTimeSeries
                del figs[:], figs.saved[:]
                plot(x, y, **kw)
                ctx.eq(len(figs), 1, what + ': figures shown')
                judge(ctx, figs[0], [tuple(map(float, a)) for a in xs], [tuple(map(float, a)) for a in ys], opts, what)
                ctx.eq(os.path.exists(path), 'file' in opts, what + ': file')
                ctx.eq(len(figs.saved), 1 if 'file' in opts else 0, what + ': figures written')
                if 'file' in opts:
                    ctx.check(image(path), what + ': file is no image')
                    judge(ctx, figs.saved[0], [tuple(map(float, a)) for a in xs], [tuple(map(float, a)) for a in ys], opts, what + ': file')
                    del figs[:], figs.saved[:]
                    plot(x, y, **dict(kw, show_plot=False, save_file=path + '2.png'))
                    ctx.eq(len(figs), 0, what + ': figures shown though not asked for')
                    ctx.check(image(path + '2.png'), what + ': file is no image')
                    judge(ctx, figs.saved[0], [tuple(map(float, a)) for a in xs], [tuple(map(float, a)) for a in ys], opts, what + ': file only')
                ctx.state((nx, ny, how, opts))


def run_history(ops, ctx):
    s, names = simulated()
    with scratch() as d, inside(d), shown() as figs:
        what = 'start'
        for i, op in enumerate(ops):
            what += ' ; ' + op
            ctx.step(what)
            del figs[:], figs.saved[:]
            cols = columns(s, names)
            if op == 'run':
                s.runSimulation()
                ctx.eq(len(columns(s, names)[0]), len(cols[0]) + 7, what + ': rows')
            elif op == 'reset run':
                s.reset()
                s.runSimulation()
                ctx.eq(len(columns(s, names)[0]), 7, what + ': rows')
            elif op == 'bad name':
                ctx.raises(ValueError, lambda: s.plotTimeSeries('nothing', ['a_M'], data=s.domain, labels=['x']), what)
                ctx.raises(ValueError, lambda: s.plotTimeSeries('t_M', ['a_M', 'nothing'], data=s.domain, labels=['x', 'y']), what)
                ctx.eq(len(figs), 0, what + ': figures')
            elif op == 'silent':                                 # neither shown nor written
                s.plotTimeSeries('t_M', ['c_M'], data=s.domain, labels=['x'], show_plot=False, grid=True, x_label='a', y_label='b')
                ctx.eq((len(figs), len(figs.saved)), (0, 0), what + ': figures')
            elif op == 'file':
                path = os.path.join(d, '%d.png' % i)
                s.plotTimeSeries('t_M', ['a_M'], data=s.domain, labels=['x'], save_file=path, show_plot=False)
                ctx.eq(len(figs), 0, what + ': figures')
                ctx.check(image(path), what + ': file')
                judge(ctx, figs.saved[0], [cols[0]], cols[1:2], ('labels',), what + ': file', ['x'])
            elif op != 'graph':
                ys = cols[1:2] if op == 'one' else cols[1:]
                lab = ['curve %d' % k for k in range(len(ys))]
                if op == 'arrays':
                    s.plotTimeSeries([s.domain[('t_M', 't_M')]], s.domain[('t_M', names[1:])], labels=lab, legend=True)
                elif op == 'one':
                    s.plotTimeSeries('t_M', list(names[1:1 + len(ys)]), data=s.domain, labels=lab, legend=True, x_label='', y_label='')
                    ctx.eq((figs[0]['xlabel'], figs[0]['ylabel']), ('', ''), what + ': no titles')
                    figs[0].update(xlabel='time', ylabel='output')
                else:
                    s.plotTimeSeries('t_M', list(names[1:1 + len(ys)]), data=s.domain, labels=lab, legend=True)
                ctx.eq(len(figs), 1, what + ': figures')
                judge(ctx, figs[0], [cols[0]], ys, ('labels', 'legend'), what)
            if op == 'graph':
                judge_graph(ctx, optimize('de', 1, True, False), figs, d, what)
            if op in ('names', 'arrays', 'one', 'file', 'silent', 'bad name'):
                ctx.eq(columns(s, names), cols, what + ': results')
            ctx.state((op, len(cols[0]), len(figs)))


def run_case(case, ctx):
    if case[0] == 'plot':
        run_plot(*case[1:], ctx)
    elif case[0] == 'graph':
        run_graph(case[1], ctx)
    else:
        for n in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(HIST, repeat=n):
                run_history(case[1:] + list(more), ctx)
