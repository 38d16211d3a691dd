"""C11: assembly of problems from models."""
import itertools
from .. import sut

CHUNK = 4
RULE = ("every history of <=3 (thorough: <=4) steps over six models (linear, nonlinear, differential, declared through "
        "hooks, without equations): add alone or in a list, again, extend a model with equations or objects, specify, "
        "resolve; after resolving (once and again) the equations, unknowns, parameters, classes and reports of the "
        "problem are compared with those of the models")
MODELS = 'LNDHEP'
OPS = [['add', m] for m in MODELS] + [['list', 'LN'], ['list', 'DH'], ['list', 'PEL'], ['eq', 'L'], ['eq', 'D'],
                                      ['eqn', 'N'], ['var', 'L'], ['var', 'H'], ['par', 'P'], ['unused', 'L'],
                                      ['spec', 'P'], ['spec', 'N'], ['link', 'LN'], ['resolve', '']]


def bounds(tier):
    return "histories of <= %d steps from %d, each resolved twice" % (4 if tier == 'thorough' else 3, len(OPS))


def cases(tier):
    yield ['alike', 'B']
    for a in OPS:
        if tier == 'thorough':
            for b in OPS:
                yield [[a, b], 2]
        else:
            yield [[a], 2]


class R:
    def __init__(self, name, m):
        self.name, self.m = name, m
        self.eqs = []          # (registered name or None when unnamed, variables, parameters, class)


def make(k):
    S, u = sut, sut.tu.m
    r = R(k, None)
    if k == 'H':
        class Hooked(S.Model):
            def DeclareVariables(self):
                self.a = self.createVariable('a', u, '')
                self.b = self.createVariable('b', u, '')

            def DeclareParameters(self):
                self.q = self.createParameter('q', u, '')

            def DeclareEquations(self):
                self.createEquation('h1', 'hd', self.a() - self.b())
                self.createEquation('', 'hd', self.b() == self.q())
        r.m = Hooked(k, '')
        r.eqs = [('h1_H', ['a_H', 'b_H'], [], 'linear'), (None, ['b_H'], ['q_H'], 'linear')]
        return r
    m = r.m = S.Model(k, '')
    if k == 'L':
        m.x, m.y, m.p = m.createVariable('x', u, ''), m.createVariable('x_L', u, ''), m.createParameter('p', u, '')
        m.y.is_exposed = True
        m.createEquation('l1', 'ld', m.y() - m.p())
        m.createEquation('l2', 'ld', m.x() == 2. * m.y())
        r.eqs = [('l1_L', ['x_L_L'], ['p_L'], 'linear'), ('l2_L', ['x_L', 'x_L_L'], [], 'linear')]
    elif k == 'N':
        m.z, m.p, m.c = (m.createVariable('z', u, '', is_exposed=True, type='input'), m.createParameter('p', u, ''),
                         m.createConstant('c', u, ''))
        m.c.setValue(3.)
        m.createEquation('n1', 'nd', m.z() * m.z() - m.p() * m.c())
        r.eqs = [('n1_N', ['z_N'], ['p_N'], 'nonlinear')]
    elif k == 'D':
        m.t, m.v, m.w = (m.createVariable(n, g, '') for n, g in (('t', S.tu.s), ('v', u), ('w', u)))
        dom = S.Domain('d', S.tu.s, m.t)
        m.v.distributeOnDomain(dom)
        m.k = m.createParameter('k', S.tu.dimless / S.tu.s, '')
        m.createEquation('d1', 'dd', m.v.Diff(m.t) == m.k() * m.v())
        r.eqs = [('d1_D', ['v_D'], ['k_D'], 'differential')]
    elif k == 'P':
        m.x, m.p, m.q = m.createVariable('x', u, ''), m.createParameter('p', u, ''), m.createParameter('q', u, '')
        m.q.setValue(4.)
        m.createEquation('p1', 'pd', m.x() - m.q())
        m.createEquation('p2', 'pd', m.x() + m.p() + m.q())
        r.eqs = [('p1_P', ['x_P'], ['q_P'], 'linear'), ('p2_P', ['x_P'], ['p_P', 'q_P'], 'linear')]
    return r


def run(ctx, hist):
    ms = {k: make(k) for k in MODELS}
    prob, other = sut.Problem('prob', ''), sut.Problem('other', '')
    added = []
    done = []
    made = 0
    for op, arg in hist:
        done.append(op + ' ' + arg)
        ctx.step(done[-1])
        if op == 'add':
            prob.addModels(ms[arg].m)
            added += [arg] if arg not in added else []
        elif op == 'list':
            prob.addModels([ms[k].m for k in arg])
            added += [k for k in arg if k not in added]
        elif op in ('eq', 'eqn'):
            r = ms[arg]
            o = next(iter(r.m.variables.values())) if arg != 'D' else r.m.w
            r.m.createEquation('' if op == 'eqn' else 'more%d' % made, 'md', o() - 1.)
            r.eqs.append((None if op == 'eqn' else 'more%d_%s' % (made, arg), [o.name], [], 'linear'))
            made += 1
        elif op == 'var':
            r = ms[arg]
            if arg == 'H':
                r.m.e = r.m.createVariable('e%d' % made, sut.tu.m, '')
                r.m.createEquation('late%d' % made, 'md', r.m.e() * r.m.e() == 4.)
                late = ('late%d_H' % made, ['e%d_H' % made], [], 'nonlinear')
                # the equations of the hooks are declared at the first resolution only
                if any(n == 'h1_H' for n in r.m.equations):
                    r.eqs.append(late)
                else:
                    r.eqs.insert(sum(1 for e in r.eqs if e[0] and e[0].startswith('late')), late)
            else:
                o = r.m.createVariable('n%d' % made, sut.tu.m, '')
                r.m.createEquation('late%d' % made, 'md', r.m.x() - o())
                r.eqs.append(('late%d_L' % made, ['x_L', o.name], [], 'linear'))
            made += 1
        elif op == 'par':
            r = ms[arg]
            o = r.m.createParameter('n%d' % made, sut.tu.m, '')
            r.m.createEquation('late%d' % made, 'md', r.m.x() - o())
            r.eqs.append(('late%d_P' % made, ['x_P'], [o.name], 'linear'))
            made += 1
        elif op == 'unused':
            ms[arg].m.createVariable('idle%d' % made, sut.tu.m, '')
            ms[arg].m.createParameter('idlep%d' % made, sut.tu.m, '')
            made += 1
        elif op == 'spec':
            ms[arg].m.p.setValue(1.5 + made)
        elif op == 'link':
            L, N = ms['L'].m, ms['N'].m
            prob.createConnection(L, N, L.y(), N.z())
            if not any(e[0] == 'conn_L-->N_N' for e in ms['N'].eqs):
                ms['N'].eqs.append(('conn_L-->N_N', ['x_L_L', 'z_N'], [], 'linear'))
        elif op == 'resolve' and added:
            prob.resolve()
            compare(ctx, prob, ms, added, ' ; '.join(done))
    if not added:
        return
    for n in range(2):
        prob.resolve()
        ctx.step('resolve')
        compare(ctx, prob, ms, added, ' ; '.join(done) + ' ; resolve' * (n + 1))
    ctx.eq((list(other.models), list(other.variable_dict), list(other.parameter_dict)), ([], [], []), "another problem")
    if len(added) > 1:
        other.addModels(ms[added[0]].m)
        other.resolve()
        compare(ctx, other, ms, added[:1], ' ; '.join(done) + ' ; %s in another problem' % added[0])
        compare(ctx, prob, ms, added, ' ; '.join(done) + ' ; %s in another problem' % added[0], False)


def compare(ctx, prob, ms, added, what, ids=True):
    b = prob.equation_block
    want = [(k, e) for k in added for e in ms[k].eqs]
    own = {k: [e for e in ms[k].eqs] for k in added}
    ctx.eq(list(prob.models), added, what + ': models')
    got = list(b.equations)
    ctx.eq(len(got), len(want), "%s: number of equations (%r)" % (what, [q.name for q in got]))
    pos = 0
    for k in added:
        # named equations keep their order; the unnamed ones come in order among themselves
        block = got[pos:pos + len(own[k])]
        pos += len(own[k])
        if ids:
            ctx.eq([id(q) for q in block], [id(q) for q in ms[k].m.equations.values()], "%s: equations of %s" % (what, k))
        left = list(own[k])
        for q in block:
            hit = next((e for e in left if (e[0] == q.name or e[0] is None and q.name not in [x[0] for x in own[k]])
                        and sorted(q.objects_declared)[0:] is not None
                        and set(e[1] + e[2]) <= set(q.objects_declared)), None)
            ctx.check(hit is not None, "%s: unexpected equation %s of %s using %r" % (what, q.name, k, sorted(
                q.objects_declared)))
            left.remove(hit)
            ctx.eq(q.type, hit[3], "%s: class of %s" % (what, q.name))
    vs = {v for _, e in want for v in e[1]}
    if 'N' in added and 'L' not in added and any(e[0] == 'conn_L-->N_N' for e in ms['N'].eqs):
        vs.discard('x_L_L')                                    # belongs to a model which is not part of the problem
    ps = {p for _, e in want for p in e[2]}
    ctx.eq(sorted(b.variable_dict), sorted(vs), what + ': variables')
    ctx.eq(sorted(b.parameter_dict), sorted(ps), what + ': parameters')
    ctx.eq(sorted(b._var_list), sorted(vs), what + ': unknowns of the system')
    for reg in (b.variable_dict, b.parameter_dict):
        for n, o in reg.items():
            m = ms[n.rsplit('_', 1)[1]].m
            ctx.check({**m.variables, **m.parameters}[n] is o if ids else True,
                      "%s: %s is not the object of the model" % (what, n))
    classes = [e[3] for _, e in want]
    groups = {c: classes.count(c) for c in ('linear', 'nonlinear', 'differential')}
    ctx.eq({c: len(b._equation_groups[c]) for c in groups}, groups, what + ': classes')
    alg = groups['linear'] + groups['nonlinear']
    typ = (None if not want else 'differential' if groups['differential'] and not alg else
           'differential-algebraic' if groups['differential'] else 'nonlinear' if groups['nonlinear'] else 'linear')
    ctx.eq(prob._getProblemType(), typ, what + ': type of the problem')
    ctx.state((tuple(sorted(vs)), tuple(sorted(ps)), typ, len(want)))
    if not ids:
        return
    rep = sut.Analysis().problemReport(prob)
    ctx.check(rep.startswith("Problem: %s (%s)" % (prob.name, typ)), what + ': report starts with ' + rep[:60])
    rows = [l for l in rep.split('\n') if l.startswith('|') and 'Equation name' not in l]
    ctx.eq(len(rows), len(want), what + ': rows of the report')
    cells = sorted([c.strip() for c in r.split('|')][1] for r in rows)
    ctx.eq(cells, sorted(q.name for q in got), what + ': equations of the report')
    for r in rows:
        c = [x.strip() for x in r.split('|')][1:-1]
        q = next(q for q in got if q.name == c[0])
        ctx.eq(c[-1], q.type, what + ': class in the report')
        ctx.eq(sorted(v for v in c[3].split(', ') if v), sorted(n for n, o in q.objects_declared.items()
                                                               if isinstance(o, sut.Variable)), what + ': variables')
        ctx.eq(sorted(v for v in c[4].split(', ') if v), sorted(
            n + ('(*)' if o.is_specified else '') for n, o in q.objects_declared.items()
            if isinstance(o, sut.Parameter)), what + ': parameters')


def alike(ctx):
    """models whose equations happen to have the same name, or the same relation, are no reason to leave one out"""
    un = sut.tu.m
    for order in itertools.permutations(range(3)):
        for n in (1, 2, 3):
            ms = [sut.Model(k, '') for k in ('M', 'B_M', 'C_B_M')]
            xs = [m.createVariable('x%d' % i, un, '') for i, m in enumerate(ms)]
            common = ms[0].createParameter('p', un, '')
            want = {0: [], 1: [], 2: []}
            for i, (m, q) in enumerate(zip(ms, ('e_C_B', 'e_C', 'e'))):          # e_C_B_M in each of them
                want[i].append(m.createEquation(q, '', xs[i]() - float(i)))
                for k in range(n - 1):                                            # the same relation in each of them
                    want[i].append(m.createEquation('f%d' % k, '', xs[i]() - xs[i - 1]() == common(), check_equation=False))
            prob = sut.Problem('p', '')
            prob.addModels([ms[i] for i in order])
            for again in range(2):
                prob.resolve()
                ctx.step('%d equations each, models in order %s' % (n, order))
                ctx.eq([id(q) for q in prob.equation_block.equations], [id(q) for i in order for q in want[i]],
                       "equations of models in order %s: %r" % (order, [q.name for q in prob.equation_block.equations]))
                ctx.eq({k: id(v) for k, v in prob.equation_block.variable_dict.items()}, {x.name: id(x) for x in xs}, "variables")
                ctx.eq({k: id(v) for k, v in prob.equation_block.parameter_dict.items()},
                       {common.name: id(common)} if n > 1 else {}, "parameters")
            ctx.state((order, n))


def run_case(case, ctx):
    if case[0] == 'alike':
        return alike(ctx)
    prefix, more = case
    for n in range(0, more + 1):
        for rest in itertools.product(OPS, repeat=n):
            run(ctx, prefix + [list(r) for r in rest])
