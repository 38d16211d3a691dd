"""C09: declaration histories of models."""
import itertools
from .. import sut, expr as E

CHUNK = 4
RULE = ("every history of <=3 (thorough: <=4) declarations over two models (variables exposed or not and with bounds, "
        "parameters, constants, equations named by words or numbers and unnamed ones over own, foreign and undeclared objects, re-resolution, "
        "repeated initialisation); after each step the registers of both models are compared with reference registers; "
        "plus every distribution of 4 kinds of declarations over constructor and hooks, resolved 1-3 times")

OPS = ['var', 'in', 'out', 'par', 'con', 'eq', 'eq2', 'eqother', 'eqforeign', 'eqstray', 'eqfree', 'eqmixed', 'resolve',
       'init', 'value', 'eqnum']


def bounds(tier):
    return "histories of <= %d declarations from %d x 2" % (4 if tier == 'thorough' else 3, len(OPS))


def cases(tier):
    steps = [(o, m) for o in OPS for m in (0, 1)]
    for a in steps:
        if tier == 'thorough':
            for b in steps:
                yield ['hist', [a, b], 2]
        else:
            yield ['hist', [a], 2]
    for a in itertools.product(OPS, repeat=2):
        yield ['single', [(o, 0) for o in a], 2 if tier != 'thorough' else 3]
    for places in itertools.product(range(2), repeat=4):
        yield ['hooks', list(places)]
    for n in (1, 2, 3):
        yield ['decl', n]


class Mod:
    """reference record of one model"""

    def __init__(self, name):
        self.name = name
        self.m = sut.Model(name, 'description of ' + name)
        self.var, self.par, self.con, self.eq = {}, {}, {}, {}
        self.exposed = {'input': [], 'output': []}
        self.n = 0


def objs(r):
    return {**r.con, **r.par, **r.var}


def apply(ctx, ms, op, i, k):
    r, other = ms[i], ms[1 - i]
    m = r.m
    u = sut.tu.m
    what = "%s on %s" % (op, r.name)
    ctx.step(what)
    if op == 'var':
        n = 'a%d' % k
        o = m.createVariable(n, u, 'var ' + n)
        reg(ctx, r.var, n, r, o, sut.Variable, u, 'var ' + n, n)
        ctx.eq((o.is_lower_bounded, o.is_upper_bounded, o.lower_bound, o.upper_bound, o.is_exposed, o.type),
               (False, False, None, None, False, ''), what)
    elif op == 'in':
        n = 'i%d' % k
        o = m.createVariable(n, u, 'in ' + n, lower_bound=(-1.5, 0)[k % 2], is_exposed=True, type='input', latex_text='L')
        reg(ctx, r.var, n, r, o, sut.Variable, u, 'in ' + n, 'L')
        ctx.eq((o.is_lower_bounded, o.is_upper_bounded, o.lower_bound, o.upper_bound, o.is_exposed, o.type),
               (True, False, (-1.5, 0)[k % 2], None, True, 'input'), what)
        r.exposed['input'].append(o)
    elif op == 'out':
        n = 'o%d' % k
        o = m.createVariable(n, u, '', upper_bound=0, lower_bound=(None, 0, -1.)[k % 3], value=2.5, is_exposed=True, type='output')
        reg(ctx, r.var, n, r, o, sut.Variable, u, '', n)
        ctx.eq((o.is_lower_bounded, o.is_upper_bounded, o.lower_bound, o.upper_bound, o.is_exposed, o.type, o.value),
               (k % 3 > 0, True, (None, 0, -1.)[k % 3], 0, True, 'output', 2.5), what)
        r.exposed['output'].append(o)
    elif op == 'par':
        n = 'p%d' % k
        o = m.createParameter(n, u, 'par ' + n, latex_text='P', value=(0.25, 7, 0)[k % 3])
        reg(ctx, r.par, n, r, o, sut.Parameter, u, 'par ' + n, 'P')
        ctx.eq(o.value, (0.25, 7, 0)[k % 3], what)
    elif op == 'con':
        n = 'c%d' % k
        o = m.createConstant(n, u, 'con ' + n, **({'value': -2.5} if k % 2 else {}))
        reg(ctx, r.con, n, r, o, sut.Constant, u, 'con ' + n, n)
        ctx.eq(o.value, -2.5 if k % 2 else 0, what)
    elif op == 'eqnum':
        # named by a number, the one which follows that of the last equation without name
        own = list(objs(r).values())
        last = ''.join(c for c in sut.Equation('', '', None).name if c.isdigit()) or '0'
        if not own:
            return
        n = str(int(last) + 1)
        q = m.createEquation(n, 'numbered', own[-1]() * 3. - own[0]())
        ctx.eq(q.name, n + '_' + r.name, "name of the equation")
        r.eq[q.name] = q
    elif op in ('eq', 'eq2', 'eqother'):
        own = list(objs(r).values())
        if not own:
            return
        if op == 'eqother':
            own = own[:1]
        e = sum(o()*2. for o in own) if op == 'eq' else None
        if op == 'eq2':
            e = own[0]() == 3.
        if op == 'eqother':
            e = own[0]() == own[-1]()
        n = '' if op == 'eq' else 'q' if op == 'eq2' else 'q%d' % k
        q = m.createEquation(n, 'equation', e)
        if n == '':
            n = q.name[:-len(r.name) - 1]
            ctx.check(q.name.endswith('_' + r.name) and n != '' and q.name not in r.eq,
                      "unnamed equation got the name %r while %r exist" % (q.name, list(r.eq)))
        name = n + '_' + r.name
        ctx.eq(q.name, name, "name of the equation")
        ctx.eq(q.owner_model_name, r.name, "owner of the equation")
        ctx.eq(q.description, 'equation', "description of the equation")
        used = own if op == 'eq' else {own[0].name: own[0], own[-1].name: own[-1]}.values() if op == 'eqother' else own[:1]
        ctx.eq({x: id(o) for x, o in q.objects_declared.items()}, {o.name: id(o) for o in used}, what)
        r.eq[name] = q
    elif op in ('eqforeign', 'eqstray', 'eqmixed'):
        own = list(objs(r).values())
        if op == 'eqstray':
            bad = sut.Variable('a0', u, '')
        else:
            bad = next(iter(objs(other).values()), None)
            if bad is None:
                return
        e = bad() if op != 'eqmixed' or not own else bad() - own[0]()
        if op == 'eqmixed' and own:
            e = (own[-1]() == bad()) if k % 2 else e
        ctx.raises(sut.UnexpectedObjectDeclarationError, lambda: m.createEquation('bad', '', e), what)
    elif op == 'eqfree':
        bad = next(iter(objs(other).values()), None)
        if bad is None:
            return
        q = m.createEquation('free%d' % k, '', bad() * 2, check_equation=False)
        r.eq['free%d_%s' % (k, r.name)] = q
    elif op == 'resolve':
        m()
    elif op == 'init':
        sut.Model.__init__(m, r.name, 'again')
    elif op == 'value':
        o = next(iter(objs(r).values()), None)
        if o is None:
            return
        o.setValue(4.5)
    for s in ms:
        compare(ctx, s, what)


def reg(ctx, d, n, r, o, cls, u, desc, latex):
    ctx.check(type(o) is cls, "%s is a %s" % (n, type(o).__name__))
    ctx.eq((o.name, o.owner_model_name, o.description, o.is_specified, o.latex_text),
           (n + '_' + r.name, r.name, desc, False, latex), "declared object")
    ctx.check(o.units is u, "unit of a declared object")
    d[o.name] = o


def compare(ctx, r, what):
    m = r.m
    for label, got, want in (('variables', m.variables, r.var), ('parameters', m.parameters, r.par),
                             ('constants', m.constants, r.con), ('equations', m.equations, r.eq)):
        ctx.eq(list(got), list(want), "after %s: %s of %s" % (what, label, r.name))
        for n in want:
            ctx.check(got[n] is want[n] and got[n].name == n, "after %s: %s is registered under %s" % (
                what, got[n].name, n))
    for t in ('input', 'output'):
        ctx.eq([id(o) for o in m.exposed_vars[t]], [id(o) for o in r.exposed[t]], "after %s: exposed %s of %s (%r)" % (
            what, t, r.name, [o.name for o in m.exposed_vars[t]]))
    ctx.eq(m._infoInputOutputVariables(False), ([o.name for o in r.exposed['input']],
                                               [o.name for o in r.exposed['output']]), "exposed names")
    ctx.state((r.name, tuple(m.variables), tuple(m.parameters), tuple(m.constants), len(m.equations)))


def run_hist(ctx, steps):
    ms = [Mod('M'), Mod('A_M')]
    for k, (op, i) in enumerate(steps):
        apply(ctx, ms, op, i, k)


def hooks(ctx, places):
    """the same declarations made in the constructor (0) or in the hooks (1), then resolved up to three times"""
    pv, pp, pc, pe = places

    class A(sut.Model):
        def __init__(self, name):
            super().__init__(name, '')
            if pv == 0:
                self.vars()
            if pp == 0:
                self.pars()
            if pc == 0:
                self.cons()
            if pe == 0 and pv == pp == pc == 0:
                self.eqs()

        def vars(self):
            self.x = self.createVariable('x', sut.tu.m, '', is_exposed=True, type='input')
            self.y = self.createVariable('y', sut.tu.m, '', is_exposed=True, type='output')
            self.z = self.createVariable('z', sut.tu.m, '', is_exposed=True, type='output')

        def pars(self):
            self.p = self.createParameter('p', sut.tu.m, '')

        def cons(self):
            self.c = self.createConstant('c', sut.tu.dimless, '')

        def eqs(self):
            self.createEquation('e1', '', self.x() - self.c() * self.y())
            self.createEquation('', '', self.y() == self.p())
            self.createEquation('', '', self.x() - self.p() - 1)
            self.createEquation('', '', self.x() - 2. * self.p(), check_equation=False)

        def DeclareVariables(self):
            if pv:
                self.vars()

        def DeclareParameters(self):
            if pp:
                self.pars()

        def DeclareConstants(self):
            if pc:
                self.cons()

        def DeclareEquations(self):
            if pe or not (pv == pp == pc == 0):
                self.eqs()

    m, other = A('M'), A('N')
    late = sut.Model('L', '')
    for k in range(3):
        m()
        ctx.step('resolve %d' % k)
        ctx.eq(list(m.variables), ['x_M', 'y_M', 'z_M'], "variables after %d resolutions" % (k + 1))
        for t, names in (('input', ['x_M']), ('output', ['y_M', 'z_M'])):
            ctx.check([id(o) for o in m.exposed_vars[t]] == [id(m.variables[o]) for o in names],
                      "variables exposed as %s after %d resolutions: %r" % (t, k + 1, [o.name for o in m.exposed_vars[t]]))
        ctx.eq(list(m.parameters), ['p_M'], "parameters after %d resolutions" % (k + 1))
        ctx.eq(list(m.constants), ['c_M'], "constants after %d resolutions" % (k + 1))
        ctx.eq(len(m.equations), 4, "number of equations after %d resolutions" % (k + 1))
        ctx.eq(sorted(repr(q.equation_expression) for q in m.equations.values()),
               sorted(['-c_M*y_M + x_M', '-p_M + y_M', '-p_M + x_M - 1', '-2.0*p_M + x_M']), "equations")
        ctx.check('e1_M' in m.equations, "named equation")
        for n, q in m.equations.items():
            ctx.eq(q.name, n, "registered name")
            for on, o in q.objects_declared.items():
                ctx.check({**m.variables, **m.parameters, **m.constants}.get(on) is o, "equation %s uses an object %s "
                          "which is not the one of the model" % (n, on))
        if pv == 0:
            ctx.eq(list(other.variables), ['x_N', 'y_N', 'z_N'], "variables of another model")
        else:
            ctx.eq(list(other.variables), [], "variables of another model")
        ctx.eq((list(late.variables), list(late.equations), late.exposed_vars, late.ports),
               ([], [], {'input': [], 'output': []}, {'inlets': {}, 'outlets': {}}), "an empty model")
        ctx.state((k, tuple(places)))
    other()
    ctx.eq(len(m.equations), 4, "equations after another model was resolved")


def decl(ctx, n):
    """equations declared outside of the hooks, before and after resolution, stay"""
    for where in itertools.product((0, 1), repeat=n):
        m = sut.Model('M', '')
        x = m.createVariable('x', sut.tu.m, '')
        want = []
        for k, w in enumerate(where):
            q = m.createEquation('' if w else 'e%d' % k, '', x() - float(k))
            want.append(q.name)
            m()
            ctx.step()
            ctx.eq(list(m.equations), want, "equations after resolution (%r)" % (where,))
            ctx.check(len(set(want)) == len(want), "names of the equations: %r" % want)
        ctx.state(where)


def run_case(case, ctx):
    if case[0] == 'hooks':
        return hooks(ctx, case[1])
    if case[0] == 'decl':
        return decl(ctx, case[1])
    prefix = [tuple(s) for s in case[1]]
    if case[0] == 'hist':
        alpha = [(o, m) for o in OPS for m in (0, 1)]
    else:
        alpha = [(o, 0) for o in OPS if o not in ('eqforeign', 'eqfree')]
    for rest in itertools.product(alpha, repeat=case[2]):
        run_hist(ctx, prefix + list(rest))
