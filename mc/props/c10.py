"""C10: incorporation of models."""
import itertools
from .. import sut, expr as E

CHUNK = 4
RULE = ("every history of <=3 (thorough: <=4) steps: incorporate one of three source models (with every admissible choice "
        "of what to take), a model that itself incorporated, declare own objects, give values to source or copy, "
        "re-resolve; registers, equations (names, objects, values, sides) of every model compared after each step")
ENV = {'x': 1.5, 'y': -0.75, 'q': 2.25, 'p': 4., 'c': 3., 'g': 0.5, 'h': 7., 'r': 1.25, 'a': -2., 'k_2': 0.4, 'g_R': 3.25}
FLAGS = [(1, 1, 1, 1, 1), (1, 1, 1, 0, 1), (1, 0, 0, 0, 1), (0, 1, 0, 0, 1), (0, 0, 1, 0, 1), (1, 1, 0, 0, 1),
         (1, 0, 1, 0, 1), (0, 1, 1, 0, 1), (1, 1, 1, 0, 0), (1, 0, 0, 0, 0), (0, 1, 1, 0, 0)]
OPS = [['inc', s, 0] for s in 'SRD'] + [['inc', 'S', f] for f in range(1, len(FLAGS))] + \
      [['inc', 'R', 8], ['own'], ['ownnew'], ['valsrc'], ['valcopy'], ['resolve'], ['chain', 0], ['chain', 1], ['srceq']]


def bounds(tier):
    return "histories of <= %d steps from %d" % (4 if tier == 'thorough' else 3, len(OPS))


def cases(tier):
    for a in OPS:
        if tier == 'thorough':
            for b in OPS:
                yield [[a, b], 2]
        else:
            yield [[a], 2]


class Rec:
    """reference record of a model: base name -> attributes; equations: base name -> (names, function, left, right)"""

    def __init__(self, name, m):
        self.name, self.m = name, m
        self.obj = {}          # registered name -> dict(kind, base, value, spec, dims, exposed)
        self.eq = {}           # registered name -> dict(names=registered names, f, sides, form, type, spec)


def source(which):
    """S: two-sided, residual and numeric equations; R: other objects, exposed; D: a differential equation."""
    m = sut.Model(which, '')
    r = Rec(which, m)

    def add(kind, base, unit, val=None, **kw):
        o = {'var': m.createVariable, 'par': m.createParameter, 'con': m.createConstant}[kind](base, unit, 'd' + base, **kw)
        if val is not None:
            o.setValue(val)
        m.__dict__[base] = o
        r.obj[o.name] = dict(kind=kind, base=base, value=o.value, spec=val is not None, dims=sut.dims(unit),
                             exposed=kw.get('type', ''))
        return o

    def eq(base, expr, names, f, sides=None, typ='linear'):
        q = m.createEquation(base, 'about ' + base, expr)
        spec = {n: r.obj[n + '_' + which]['value'] for n in names if r.obj[n + '_' + which]['spec']}
        r.eq[q.name] = dict(base=base, names=[n + '_' + which for n in names], f=f, sides=sides, type=typ,
                            spec={n + '_' + which: v for n, v in spec.items()}, bases=list(names))
    u, d = sut.tu.m, sut.tu.dimless
    if which == 'S':
        x, y = add('var', 'x', u, type='input', is_exposed=True), add('var', 'y', u, is_exposed=True, type='output',
                                                                       upper_bound=9.)
        q, p, c = add('par', 'q', u), add('par', 'p', u, 4.), add('con', 'c', d, 3)
        eq('e1', x() - c() * y() + p(), 'xcyp', lambda v: v['x'] - v['c'] * v['y'] + v['p'])
        eq('e2', x() * y() == q() ** 2, 'xyq', lambda v: v['x'] * v['y'] - v['q'] ** 2,
           (('xy', lambda v: v['x'] * v['y']), ('q', lambda v: v['q'] ** 2)), 'nonlinear')
        eq('e3', y() == 2.5, 'y', lambda v: v['y'] - 2.5, (('y', lambda v: v['y']), ('', lambda v: 2.5)))
        eq('e4', p() == x() + q(), 'pxq', lambda v: v['p'] - v['x'] - v['q'],
           (('p', lambda v: v['p']), ('xq', lambda v: v['x'] + v['q'])))
    elif which == 'R':
        g, h, k = add('var', 'g', u), add('con', 'h', u, 7.), add('var', 'k_2', u)
        gr = add('var', 'g_R', u)
        eq('f1', g() == h(), 'gh', lambda v: v['g'] - v['h'], (('g', lambda v: v['g']), ('h', lambda v: v['h'])))
        eq('f2', k() * 2 - g(), ['k_2', 'g'], lambda v: v['k_2'] * 2 - v['g'])
        eq('f2_R', gr() * 2 == g() - k(), ['g_R', 'g', 'k_2'], lambda v: v['g_R'] * 2 - v['g'] + v['k_2'],
           ((['g_R'], lambda v: v['g_R'] * 2), (['g', 'k_2'], lambda v: v['g'] - v['k_2'])))
    else:
        t, a, r_ = add('var', 't', sut.tu.s), add('var', 'a', u), add('par', 'r', sut.tu.dimless / sut.tu.s, 1.25)
        dom = sut.Domain('dom', sut.tu.s, t)
        a.distributeOnDomain(dom)
        eq('g1', a.Diff(t) == r_() * a(), ['a', 'r'], None, (('a', None), ('ra', lambda v: v['r'] * v['a'])),
           'differential')
    return r


def compare(ctx, r, what):
    m = r.m
    for label, reg, kind in (('variables', m.variables, 'var'), ('parameters', m.parameters, 'par'),
                             ('constants', m.constants, 'con')):
        want = [n for n, o in r.obj.items() if o['kind'] == kind]
        ctx.eq(sorted(reg), sorted(want), "%s: %s of %s" % (what, label, r.name))
    every = {**m.variables, **m.parameters, **m.constants}
    for n, a in r.obj.items():
        o = every[n]
        ctx.eq((o.name, float(o.value), o.is_specified, sut.dims(o.units), o.description, o.owner_model_name),
               (n, float(a['value']), a['spec'], a['dims'], 'd' + a['base'], r.name), "%s: %s of %s" % (what, n, r.name))
        ctx.check(m.__dict__.get(a['base']) is o, "%s: %s.%s is not the registered %s" % (what, r.name, a['base'], n))
        if a['exposed']:
            ctx.check(any(o is e for e in m.exposed_vars[a['exposed']]), "%s: %s of %s is not exposed" % (what, n, r.name))
    for t in ('input', 'output'):
        for o in m.exposed_vars[t]:
            ctx.check(every.get(o.name) is not None and r.obj[o.name]['exposed'] == t, "%s: %s exposes %s as %s" % (
                what, r.name, o.name, t))
        names = [o.name for o in m.exposed_vars[t]]
        ctx.eq(sorted(names), sorted(n for n, a in r.obj.items() if a['exposed'] == t), "%s: exposed %s of %s" % (
            what, t, r.name))
    ctx.eq(sorted(m.equations), sorted(r.eq), "%s: equations of %s" % (what, r.name))
    for n, a in r.eq.items():
        q = m.equations[n]
        w = "%s: equation %s of %s" % (what, n, r.name)
        ctx.eq((q.name, q.description, q.type, q.owner_model_name), (n, 'about ' + a['base'], a['type'], r.name), w)
        ctx.eq(sorted(q.objects_declared), sorted(a['names']), w + ' objects')
        ctx.eq(sorted(q.equation_expression.symbolic_map), sorted(a['names']), w + ' objects of the expression')
        # the object named x in t-derivatives may be reported by the derivative only
        unk = sorted(x for x in a['names'] if x not in a['spec'])
        if a['type'] != 'differential':
            ctx.eq(sorted(q.equation_expression.variable_map), unk, w + ' unknown objects')
        for x, o in q.objects_declared.items():
            ctx.check(o is every.get(x), "%s uses a %s which is not the one of the model" % (w, x))
        for x, o in q.equation_expression.variable_map.items():
            ctx.check(o is every.get(x), "%s knows a %s which is not the one of the model" % (w, x))
        text = repr(q.equation_expression)
        syms = sorted(str(s) for s in q.equation_expression.repr_symbolic.free_symbols)
        ctx.eq(syms, sorted(a['names']), w + ' text %s' % text)
        vals = {b: (a['spec'].get(x, ENV.get(b))) for b, x in zip(a['bases'], a['names'])}
        given = {x: vals[b] for b, x in zip(a['bases'], a['names']) if x not in a['spec']}
        if a['f'] is not None:
            ctx.close(q.eval(given), a['f'](vals), w + ' value at %r' % given)
        if a['sides'] is None:
            ctx.check(q() is q(0), w + ' form')
        else:
            for i, (names, f) in enumerate(a['sides']):
                s = q(i)
                ctx.eq(sorted(s.symbolic_map), sorted(x for b, x in zip(a['bases'], a['names']) if b in names),
                       w + ' objects of side %d' % i)
                for x, o in s.symbolic_map.items():
                    ctx.check(o is every.get(x), "%s side %d uses a %s which is not the one of the model" % (w, i, x))
                if f is not None:
                    ctx.close(q.eval(given, ['lhs', 'rhs'][i]), f(vals), w + ' value of side %d' % i)
    ctx.state((r.name, tuple(sorted(r.obj)), tuple(sorted(r.eq)), tuple(float(a['value']) for a in r.obj.values())))


def take(src, dst, flags):
    """reference incorporation"""
    fv, fp, fc, fe, rw = flags
    name = {}
    for n, a in src.obj.items():
        name[n] = (a['base'] + '_' + dst.name) if rw else n
        if {'var': fv, 'par': fp, 'con': fc}[a['kind']]:
            dst.obj[name[n]] = dict(a)
    if fe:
        for n, a in src.eq.items():
            b = dict(a)
            b['names'] = [name[x] for x in a['names']]
            b['spec'] = {name[x]: v for x, v in a['spec'].items()}
            dst.eq[a['base'] + '_' + dst.name] = b


def do_inc(src, dst, flags):
    fv, fp, fc, fe, rw = [bool(f) for f in flags]
    dst.m.incorporateFromExternalModel(src.m, incorporate_variables=fv, incorporate_parameters=fp,
                                       incorporate_constants=fc, incorporate_equations=fe, rewrite_name=rw)
    take(src, dst, flags)


def run(ctx, hist):
    srcs = {k: source(k) for k in 'SRD'}
    T = Rec('T', sut.Model('T', ''))
    U = Rec('T_S', sut.Model('T_S', ''))
    made = 0
    done = []
    for st in hist:
        op = st[0]
        done.append('-'.join(str(s) for s in st))
        what = ' ; '.join(done)
        ctx.step(done[-1])
        if op == 'inc':
            if any(d[:2] == ['inc', st[1]] for d in hist[:len(done) - 1]):
                return                                       # the same objects twice: not fixed by the property
            do_inc(srcs[st[1]], T, FLAGS[st[2]])
        elif op == 'own':
            own(ctx, T, made)
            made += 1
        elif op == 'ownnew':
            # a new equation over an incorporated object
            n = next((n for n, a in T.obj.items() if a['kind'] == 'var' and a['base'] != 't'), None)
            if n is None:
                return
            a = T.obj[n]
            q = T.m.createEquation('n%d' % made, 'about n%d' % made, T.m.__dict__[a['base']]() * 3. - 1)
            spec = {n: a['value']} if a['spec'] else {}
            T.eq['n%d_T' % made] = dict(base='n%d' % made, names=[n], bases=[a['base']], f=None, sides=None, spec=spec,
                                        type='linear')
            made += 1
        elif op == 'valsrc':
            for r in srcs.values():
                n, a = next(iter(r.obj.items()))
                r.m.__dict__[a['base']].setValue(8.5)
                a['value'], a['spec'] = 8.5, True
        elif op == 'valcopy':
            n = next(iter(T.obj), None)
            if n is None:
                return
            T.m.__dict__[T.obj[n]['base']].setValue(-6.5)
            T.obj[n]['value'], T.obj[n]['spec'] = -6.5, True
        elif op == 'resolve':
            T.m()
            srcs['S'].m()
        elif op == 'chain':
            if any(d[0] == 'chain' for d in hist[:len(done) - 1]):
                return
            if any('_T' != n[-2:] for n in T.obj) or any(x[-2:] != '_T' for a in T.eq.values() for x in a['names']):
                return                                       # names kept from elsewhere
            do_inc(T, U, FLAGS[0 if st[1] == 0 else 1])
        elif op == 'srceq':
            # the source is extended after having been incorporated
            r = srcs['R']
            g = r.m.g
            r.m.createEquation('late%d' % made, 'about late%d' % made, g() - 1.)
            r.eq['late%d_R' % made] = dict(base='late%d' % made, names=['g_R'], bases=['g'], sides=None, type='linear',
                                           f=lambda v: v['g'] - 1.,
                                           spec={'g_R': 8.5} if r.obj['g_R']['spec'] else {})
            made += 1
    for r in list(srcs.values()) + [T, U]:                    # every prefix is a history of its own
        compare(ctx, r, ' ; '.join(done))


def own(ctx, T, k):
    b = 'w%d' % k
    o = T.m.createVariable(b, sut.tu.m, 'd' + b, is_exposed=bool(k % 2), type='output' if k % 2 else '')
    T.m.__dict__[b] = o
    T.obj[b + '_T'] = dict(kind='var', base=b, value=0., spec=False, dims={'m': 1.}, exposed='output' if k % 2 else '')
    T.m.createEquation('z%d' % k, 'about z%d' % k, o() - 4.)
    T.eq['z%d_T' % k] = dict(base='z%d' % k, names=[b + '_T'], bases=[b], f=None, sides=None, spec={}, type='linear')


def run_case(case, ctx):
    prefix, more = case
    run(ctx, prefix)
    for n in range(1, more + 1):
        for rest in itertools.product(OPS, repeat=n):
            run(ctx, prefix + [list(r) for r in rest])
