"""C13: degrees of freedom are checked before solving."""
import itertools
from .. import sut

CHUNK = 8
RULE = ("every sequence of <=3 (thorough: <=4) equations from 17 (linear, nonlinear, differential; over variables, specified "
        "and unspecified parameters, two time variables appearing explicitly or only in derivatives), over one or two "
        "models, and every change of <=2 steps (giving a value to a parameter, a further equation, resolving) followed by "
        "another run; verdict of the run compared with the count of unknowns and equations")
#       name: (unknowns, explicit times, kind)
EQS = {'x': ('x', '', 'a'), 'y': ('y', '', 'a'), 'x+y': ('xy', '', 'a'), 'x+y+z': ('xyz', '', 'a'), 'x+p': ('x', '', 'a'),
       'x+q': ('xq', '', 'a'), 'q+r': ('qr', '', 'a'), 'z+theta': ('zh', '', 'a'), 'x*y': ('xy', '', 'a'), 'x*q': ('xq', '', 'a'),
       'dx': ('x', '', 'd'), 'dx=t': ('x', 't', 'd'), 'dy=t+x': ('xy', 't', 'd'), 'dy=u': ('y', 'u', 'd'), 'dx=y': ('xy', '', 'd'),
       'dx=q': ('xq', '', 'd'), 'dz=h': ('zh', '', 'd')}
NAMES = list(EQS)
CHANGES = ['spec q', 'spec r', '+y', '+x', '+x+y', '+q+r', '+dy=u', '+dx=t']


def bounds(tier):
    return "sequences of <= %d equations from %d, then <= %d changes" % (4 if tier == 'thorough' else 3, len(EQS),
                                                                        3 if tier == 'thorough' else 2)


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for k in range(1, n + 1):
        for head in itertools.product(NAMES, repeat=max(k - 1, 0)):
            if k == 4 and list(head) != sorted(head):
                continue
            yield ['seq', list(head)]
    for a in NAMES:
        for c in CHANGES:
            yield ['change', a, c]


class World:
    def __init__(self, split):
        self.ms = [sut.Model('A', ''), sut.Model('B', '')] if split else [sut.Model('A', '')]
        m = self.ms[0]
        un = sut.tu.dimless
        mb = self.ms[-1]
        self.o = o = {n: m.createVariable(n, un, '') for n in 'xyz'}
        o['t'] = m.createVariable('t', un, '')
        o['u'] = mb.createVariable('u', un, '')
        o['h'] = m.createVariable('theta', un, '')          # its name contains that of the time variable
        for n in 'pqr':
            o[n] = m.createParameter(n, un, '', value=0.25 if n == 'q' else 0)      # a default is not a given value
        o['p'].setValue(2.)
        self.dt, self.du = sut.Domain('Dt', un, [o['t']]), sut.Domain('Du', un, [o['u']])
        for n in 'xz':
            o[n].distributeOnDomain(self.dt)
        o['y'].distributeOnDomain(self.dt)
        self.eqs = []
        self.spec = {'p'}
        self.p = sut.Problem('P', '')
        self.p.addModels(self.ms)

    def add(self, name):
        o = self.o
        e = {'x': lambda: o['x']() - 1., 'y': lambda: o['y']() - 2., 'x+y': lambda: o['x']() + 2. * o['y']() == 3.,
             'x+y+z': lambda: o['x']() - o['y']() + o['z']() - 1., 'x+p': lambda: o['x']() == o['p'](),
             'x+q': lambda: o['x']() - o['q'](), 'q+r': lambda: o['q']() + o['r']() - 1.,
             'z+theta': lambda: o['z']() - o['h'](), 'x*y': lambda: o['x']() * o['y']() - 2.,
             'x*q': lambda: o['x']() * o['q']() == 1., 'dx': lambda: o['x'].Diff(o['t']) == -1. * o['x'](),
             'dx=t': lambda: o['x'].Diff(o['t']) == o['t'](), 'dy=t+x': lambda: o['y'].Diff(o['t']) == o['x']() + o['t'](),
             'dy=u': lambda: o['y'].Diff(o['t']) == o['u'](), 'dx=y': lambda: o['x'].Diff(o['t']) == o['y'](),
             'dx=q': lambda: o['x'].Diff(o['t']) == o['q'](), 'dz=h': lambda: o['z'].Diff(o['t']) == o['h']()}[name]()
        k = len(self.eqs)
        self.ms[k % len(self.ms)].createEquation('e%d' % k, '', e, check_equation=False)
        self.eqs.append((name, frozenset(self.spec)))

    def dof(self):
        unknown = {n for e, _ in self.eqs for n in EQS[e][0] if n not in 'pqr'} | {t for e, _ in self.eqs for t in EQS[e][1]}
        pars = {n for e, _ in self.eqs for n in EQS[e][0] if n in 'qr'} - self.spec
        times = {t for e, _ in self.eqs for t in EQS[e][1]}
        return len(unknown) + len(pars) - len(self.eqs) - len(times)

    def dynamic(self):
        return any(EQS[e][2] == 'd' for e, _ in self.eqs)


def verdict(w, ctx, what, sanity=True):
    """(refusal text or None, result rows)"""
    o, p = w.o, w.p
    if any('u' in EQS[e][1] for e, _ in w.eqs):
        p.setTimeVariableName([o['t'].name, o['u'].name])
    else:
        p.setTimeVariableName(o['u'].name)
        p.setTimeVariableName(o['t'].name)                 # the last one asked for, once
        p.setTimeVariableName(o['t'].name)
    dom = sut.Domain('out', sut.tu.dimless, [o['t']])
    p.setInitialConditions({n.name: 0.5 for k, n in o.items() if k in 'xyztuh'})
    p.setInitialConditions({o[k].name + '_d': -0.5 for k in 'xyzh'})
    for n in p.equation_block.variable_dict:
        if n not in (o['t'].name, o['u'].name):
            dom._distributeOnDomain(p.equation_block.variable_dict[n])
    dom()
    s = sut.sim()('S', '', p)
    conf = dict(domain=dom, is_dynamic=True, end_time=0.2, number_of_time_steps=2, compile_equations=False,
                time_variable_name=o['t'].name, linear_solver='sympy', nonlinear_solver='*') if w.dynamic() else \
        dict(linear_solver='sympy')
    s.setConfigurations(**conf)
    try:
        s.runSimulation(sanity_check=sanity, show_output_msg=False, show_final_residuals=False)
    except Exception as e:
        text = str(e).lower()
        ref = 'under' if 'under-specified' in text else 'over' if 'over-specified' in text else None
        rows = 0 if not w.dynamic() else len(dom.values[o['t'].name])
        ctx.check(s.output is None and rows == 0, "%s: results in spite of the error" % what)
        return ref, type(e).__name__
    return None, 'run'


def judge(w, ctx, what):
    n = w.dof()
    ref, kind = verdict(w, ctx, what)
    want = None if n == 0 else 'under' if n > 0 else 'over'
    ctx.eq(ref, want, "%s: %d unknowns more than equations: refusal" % (what, n))
    ctx.state((tuple(sorted(e for e, _ in w.eqs)), ref, kind))
    if n:
        ref, kind = verdict(w, ctx, what, False)
        ctx.eq(ref, None, "%s: refusal with the check switched off" % what)


def sequence(names, split, ctx):
    w = World(split)
    for n in names:
        w.add(n)
    w.p.resolve()
    what = "%s%s" % (names, ' over two models' if split else '')
    ctx.step(what)
    judge(w, ctx, what)
    return w


def run_case(case, ctx):
    if case[0] == 'seq':
        for last in NAMES:
            for split in (False, True):
                sequence(case[1] + [last], split, ctx)
        return
    _, a, c = case
    depth = 3 if ctx.tier == 'thorough' else 2
    for k in range(0, depth):
        for more in itertools.product(CHANGES, repeat=k):
            for start in ([a], [a, 'x+q'], ['x*q', a]):
                w = sequence(start, k % 2 == 0, ctx)
                what = str(start)
                for ch in (c,) + more:
                    if ch.startswith('+'):
                        w.add(ch[1:])
                    else:
                        w.o[ch[-1]].setValue(0.75)
                        w.spec.add(ch[-1])
                    what += ' ; ' + ch
                    ctx.step(what)
                    if ch.startswith('+'):
                        w.p.resolve()
                    else:
                        # equations built before the value was given keep the symbol: rebuild them
                        old, n = w.eqs, 0
                        w2 = World(len(w.ms) == 2)
                        for q in w.spec:
                            w2.o[q].setValue(0.75)
                        w2.spec = set(w.spec)
                        for e, _ in old:
                            w2.add(e)
                        w2.p.resolve()
                        # the objects themselves follow at once
                        ctx.eq(w.dof(), w2.dof(), what)
                        w = w2
                    judge(w, ctx, what)
