"""C12: connections between models."""
import itertools
from .. import sut

CHUNK = 2
RULE = ("every history of <=2 (thorough: <=3) connections out of all choices of two (of three) models, output and input "
        "variables (alone and in lists, exposed or not, of either direction), default or given relation, variables or "
        "expressions as ends, re-resolution in between; relations, registers and refusals compared after each step")
#        name: (model, exposed type, unit)
VARS = {'a': ('A', 'output', 'm'), 'b': ('A', 'output', 'm'), 'h': ('A', '', 'm'), 'i': ('A', 'input', 'm'),
        's': ('A', 'output', 's'), 'x': ('B', 'input', 'm'), 'y': ('B', 'input', 'm'), 'z': ('B', '', 'm'),
        'o': ('B', 'output', 'm'), 'u': ('B', 'input', 's'), 'c': ('C', 'input', 'm'), 'd': ('C', 'output', 'm')}
BASE = {'b': 'ab', 'y': 'x_', 'h': 'a_A', 'o': 'x_B'}
VAL = {n: 1.5 + 0.75 * k * (-1) ** k for k, n in enumerate(sorted(VARS))}


def bounds(tier):
    return "histories of <= %d connections from %d" % (3 if tier == 'thorough' else 2, len(ops()))


def ops():
    r = []
    AB = ('A', 'B')
    for outs in ('a', 'b', 'h', 'i', 's', 'x', ['a'], ['a', 'b'], ['a', 'h'], ['a', 's'], ['a', 'b', 'o'], ['a', 'a']):
        for ins in ('x', 'z', 'o', 'u', 'a', ['x', 'y'], ['x', 'z'], ['y']):
            r.append(['var', 'A', 'B', outs, ins, None])
    r += [['var', 'B', 'A', 'o', 'i', None], ['var', 'B', 'C', 'o', 'c', None], ['var', 'C', 'B', 'd', 'x', None],
          ['var', 'B', 'C', 'a', 'c', None], ['var', 'A', 'B', 'd', 'x', None], ['var', 'C', 'B', ['d'], ['x', 'y'], None],
          ['var', 'A', 'A', 'a', 'i', None], ['var', 'B', 'A', 'a', 'x', None]]
    r += [['var', 'A', 'B', o, i, None] for o, i in (('a', ['x', 'y', 'z']), (['a', 'b', 'h'], 'x'), ('a-', 'x'), ('a', 'x-'),
                                                   (['b', 'a-'], 'x'), ('a', ['y', 'x-']))]
    for e in ('twice', 'other', 'sides'):
        r += [['var', 'A', 'B', 'a', 'x', e], ['var', 'A', 'B', ['a', 'b'], ['x'], e], ['var', 'A', 'B', 'a', 'z', e]]
    for src in ('A', 'B', '"plant', '"', '#'):
        for outs, ins in (('a', 'x'), ('b', 'y'), ('h', 'z'), ('s', 'x'), ('d', 'o')):
            r.append(['node', src, 'B', outs, ins, None])
    r += [['node', 'B', 'A', 'o', 'i', None], ['node', '"plant', 'A', 'o', 'i', None]]
    return r


def cases(tier):
    for src in ('A', '"plant'):
        for n in (5, 12):
            yield ['many', src, n]
        for n in (3, 6):
            for order in range(6):
                yield ['relations', src, n, order]
    for a in ops():
        if tier == 'thorough':
            yield [[a], 2]
        else:
            yield [[a], 1]


def world():
    ms = {k: sut.Model(k, '') for k in 'ABC'}
    v = {}
    for n, (k, t, u) in VARS.items():
        v[n] = ms[k].createVariable(BASE.get(n, n), getattr(sut.tu, u), '', is_exposed=bool(t), type=t)
    for n, t in (('a', 'output'), ('x', 'input')):               # of other models with the same names
        v[n + '-'] = sut.Model(VARS[n][0], '').createVariable(n, sut.tu.m, '', is_exposed=True, type=t)
    for k, n in (('A', 'a'), ('B', 'x'), ('C', 'c')):
        ms[k].createEquation('base', '', v[n]() - 1.)
    p = sut.Problem('p', '')
    p.addModels([ms[k] for k in 'ABC'])
    return ms, v, p


def aslist(x):
    return x if isinstance(x, list) else [x]


def allowed(m1, m2, outs, ins):
    return '-' not in str(outs) + str(ins) and all(VARS[n][0] == m1 and VARS[n][1] == 'output' for n in aslist(outs)) and \
        all(VARS[n][0] == m2 and VARS[n][1] == 'input' for n in aslist(ins))


def reference(op):
    """None: refused; else (names, function of the values)"""
    kind, m1, m2, outs, ins, e = op
    names = aslist(outs) + aslist(ins)
    if kind == 'var' and not allowed(m1, m2, outs, ins):
        return sut.ExposedVariableError
    if kind == 'node' and m1 == '#':
        if VARS[outs][2] != VARS[ins][2]:
            return (sut.AbsentRequiredObjectError, sut.DimensionalCoherenceError)
        return sut.AbsentRequiredObjectError
    if e is None and len({VARS[n][2] for n in names}) > 1:
        return sut.DimensionalCoherenceError
    if e == 'twice':
        f = lambda v: 2 * v[aslist(ins)[0]] - v[aslist(outs)[0]] * 3
        names = [aslist(outs)[0], aslist(ins)[0]]
    elif e == 'other':
        f = lambda v: v[aslist(ins)[0]] * v[aslist(outs)[0]] - 4.
        names = [aslist(outs)[0], aslist(ins)[0]]
    elif e == 'sides':
        f = lambda v: v[aslist(ins)[0]] - v[aslist(outs)[0]] ** 2
        names = [aslist(outs)[0], aslist(ins)[0]]
    else:
        f = lambda v: sum(v[n] for n in aslist(ins)) - sum(v[n] for n in aslist(outs))
    return names, f


def run(ctx, hist, resolve_between):
    ms, v, p = world()
    want = {k: {n: None for n in ms[k].equations} for k in 'ABC'}
    conns = {}
    unnamed = 0
    done = []
    for op in hist:
        kind, m1, m2, outs, ins, e = op
        done.append("%s(%s->%s, %s -> %s%s)" % (kind, m1, m2, outs, ins, ', ' + e if e else ''))
        what = ' ; '.join(done)
        ctx.step(done[-1])
        ref = reference(op)
        conv = lambda x: [v[n] for n in x] if isinstance(x, list) else v[x]
        expr = None
        if e is not None:
            i0, o0 = v[aslist(ins)[0]], v[aslist(outs)[0]]
            if e == 'twice':
                expr = i0() * 2 - o0() * 3
            elif e == 'other':
                expr = i0() * o0() - 4.
            else:
                k = sut.Constant('lc', sut.tu.m, '')
                k.setValue(1.)
                expr = (i0() * k() == o0() ** 2)
        if kind == 'var':
            call = lambda: p.createConnection(ms[m1], ms[m2], conv(outs), conv(ins), expr)
        else:
            src = ms.get(m1) if m1 in ms else (m1[1:] if m1[0] == '"' else 3.5)
            call = lambda: p.createConnection(src, ms[m2], v[outs](), v[ins]())
        if not isinstance(ref, tuple) or isinstance(ref[0], type):
            ctx.raises(ref, call, what)
            compare(ctx, ms, v, p, want, conns, what)
            ctx.state(('refused', str(ref)))
            continue
        call()
        names, f = ref
        if kind == 'var':
            key = ','.join(v[n].name for n in aslist(outs)) + '--->' + ','.join(v[n].name for n in aslist(ins))
            want[m2][key] = (names, f, aslist(outs), aslist(ins))
            conns[(m1, m2, key)] = True
        else:
            s = m1 if m1 in ms else m1[1:]
            base = 'conn_%s-->%s' % (s, m2)
            ids = [k for k in want[m2] if isinstance(k, tuple)]
            same = [k for k in ids if k[1] == s and k[2:] == (outs, ins)] if s else []
            if not same:
                want[m2][('conn', s, outs, ins) if s else ('conn', s, outs, ins, unnamed)] = (names, f, None, None)
                unnamed += 1
        compare(ctx, ms, v, p, want, conns, what)
        if resolve_between:
            p.resolve()
            compare(ctx, ms, v, p, want, conns, what + ' ; resolve')
    p.resolve()
    ctx.step('resolve')
    compare(ctx, ms, v, p, want, conns, ' ; '.join(done) + ' ; resolve')
    total = sum(len(d) for d in want.values())
    ctx.eq(len(p.equation_block.equations), total, "equations of the problem after %s" % ' ; '.join(done))
    used = {n for d in want.values() for w in d.values() if w for n in w[0]} | {'a', 'x', 'c'}
    ctx.eq(sorted(p.equation_block.variable_dict), sorted(v[n].name for n in used), "variables of the problem after %s"
           % ' ; '.join(done))


def compare(ctx, ms, v, p, want, conns, what):
    for k, d in want.items():
        got = ms[k].equations
        ctx.eq(len(got), len(d), "%s: number of equations of %s (%r)" % (what, k, list(got)))
        left = dict(got)
        for key, w in d.items():
            if isinstance(key, tuple):
                q = None
                for n, c in left.items():
                    if n.startswith('conn_' + key[1]) and set(c.objects_declared) == {v[x].name for x in w[0]}:
                        q = n
                        break
                ctx.check(q is not None, "%s: no connection from %r over %r in %s" % (what, key[1], w[0], k))
            else:
                q = key
                ctx.check(q in left, "%s: no equation %s in %s" % (what, q, k))
            c = left.pop(q)
            ctx.eq(c.name, q, what + ': name')
            if w is None:
                continue
            names, f, outs, ins = w
            lc = {'lc': 1.} if 'lc' in c.objects_declared else {}
            ctx.eq(sorted(n for n in c.objects_declared if n != 'lc'), sorted({v[n].name for n in names}), what)
            for n in names:
                ctx.check(c.objects_declared[v[n].name] is v[n], "%s: relation over another %s" % (what, n))
            ctx.close(c.eval({v[n].name: VAL[n] for n in names}), f(VAL), "%s: residual of %s" % (what, q))
            if outs is not None:
                ctx.eq((c.output_var_name, c.input_var_name), (','.join(v[n].name for n in outs),
                                                               ','.join(v[n].name for n in ins)), what + ': ends')
    ctx.eq(len(p.connections), len(conns), what + ': registered connections %r' % list(p.connections))
    for m1, m2, key in conns:
        o, i = key.split('--->')
        reg = p.connections.get("%s@%s ---> %s@%s" % (o, m1, i, m2))
        ctx.check(reg is ms[m2].equations[key], "%s: registered connection %s of %s and %s" % (what, key, m1, m2))
    for k in ms:
        for t in ('input', 'output'):
            ctx.eq([x.name for x in ms[k].exposed_vars[t]], ["%s_%s" % (BASE.get(n, n), k) for n, w in VARS.items()
                                                            if w[:2] == (k, t)], what + ': exposed variables')
    ctx.state(tuple(sorted((k, str(key)) for k, d in want.items() for key in d)))


def many(ctx, src, n):
    """n connections from one source by expressions, some of them with the values of specified objects only"""
    for order in (list(range(n)), list(range(n))[::-1]):
        a, b = sut.Model('A', ''), sut.Model('B', '')
        un = sut.tu.m
        xs = [b.createVariable('x%d' % i, un, '') for i in range(n)]
        ps = [a.createParameter('p%d' % i, un, '') for i in range(n)]
        y = a.createVariable('y', un, '')
        for i, p in enumerate(ps):
            if i % 3:
                p.setValue(4. if i % 2 else float(i))
        pb = sut.Problem('P', '')
        pb.addModels([a, b])
        for k, i in enumerate(order):
            s = a if src == 'A' else src[1:]
            pb.createConnection(s, b, ps[i]() * 2. if i % 2 else ps[i]() + y(), xs[0]() if i % 4 == 3 else xs[i]())
            what = '%d connections from %s in order %s' % (k + 1, src, order)
            ctx.step(what)
            for j in range(2):
                vals = {'y_A': 1.25}
                vals.update({x.name: 10. + q for q, x in enumerate(xs)})
                vals.update({p.name: p.value if q % 3 else 7. + q for q, p in enumerate(ps)})
                got = sorted(float(e.eval(vals)) for e in b.equations.values())
                want = sorted((10. + (0 if q % 4 == 3 else q)) - (2. * vals[ps[q].name] if q % 2 else vals[ps[q].name] + 1.25)
                              for q in order[:k + 1])
                ctx.eq(len(got), len(want), what + ': number of connections')
                for g, w in zip(got, want):
                    ctx.close(g, w, what + ': residuals')
                pb.resolve()
                ctx.eq(len(pb.equation_block.equations), k + 1, what + ': equations of the problem')
            ctx.state((src, n, k))


def relations(ctx, src, n, order):
    """different relations between the same objects, and between long lists of them that differ at the end, coexist;
    one that is asked for again is the same connection"""
    a, b = sut.Model('A', ''), sut.Model('B', '')
    un = sut.tu.m
    x = b.createVariable('x', un, '')
    ys = [a.createVariable('y_of_the_plant_%d' % i, un, '') for i in range(8)]
    k = [a.createParameter('k%d' % i, sut.tu.dimless, '') for i in range(2)]
    k[0].setValue(2.)
    long = lambda f: sum((y() for y in ys[1:]), ys[0]()) * 1. + ys[7]() * f
    pool = [(lambda: ys[0]() * 2., lambda v: v['y0'] * 2.), (lambda: ys[0]() * 3., lambda v: v['y0'] * 3.),
            (lambda: ys[0]() + ys[0]() * ys[0]() / ys[0](), lambda v: v['y0'] * 2.), (lambda: ys[0]() * -1., lambda v: -v['y0']),
            (lambda: long(2.), lambda v: v['all'] + 2. * v['y7']), (lambda: long(3.), lambda v: v['all'] + 3. * v['y7']),
            (lambda: k[0]() * ys[1](), lambda v: 2. * v['y1']), (lambda: k[1]() * ys[1](), lambda v: v['k1'] * v['y1'])]
    picks = list(itertools.islice(itertools.permutations(range(len(pool)), n), order * 977, order * 977 + 40))
    vals = {y.name: 1.5 + i for i, y in enumerate(ys)}
    vals.update({'x_B': 100., 'k0_A': 2., 'k1_A': 7.})
    v = {'y0': 1.5, 'y1': 2.5, 'y7': 8.5, 'all': sum(1.5 + i for i in range(8)), 'k1': 7.}
    for pick in picks:
        for e in list(b.equations):
            del b.equations[e]
        pb = sut.Problem('P', '')
        pb.addModels([a, b])
        s = a if src == 'A' else src[1:]
        done = []
        for i in pick:
            pb.createConnection(s, b, pool[i][0](), x())
            done.append(i)
            for j in (0, len(done) // 2) if i != 2 and 2 not in done else ():
                pb.createConnection(s, b, pool[done[j]][0](), x())              # asked for again
            what = 'relations %s from %s' % (done, src)
            ctx.step(what)
            got = sorted(float(e.eval(vals)) for e in b.equations.values())
            want = sorted(100. - pool[j][1](v) for j in done)
            ctx.eq(len(got), len(want), what + ': number of connections %r' % list(b.equations))
            for g, w in zip(got, want):
                ctx.close(g, w, what + ': residuals')
        pb.resolve()
        ctx.eq(len(pb.equation_block.equations), len(done), what + ': equations of the problem')
        ctx.state((src, pick))


def run_case(case, ctx):
    if case[0] == 'relations':
        return relations(ctx, *case[1:])
    if case[0] == 'many':
        return many(ctx, *case[1:])
    prefix, more = case
    run(ctx, prefix, False)
    for n in range(1, more + 1):
        for rest in itertools.product(ops(), repeat=n):
            for between in (False, True):
                run(ctx, prefix + list(rest), between)
