"""C21: property packages and material streams."""
import itertools
import thermo
from .. import sut
from src.sloth import unit_op_library as U
from src.sloth.core.property_package import PropertyPackage

CHUNK = 4
RULE = ("every history of <=3 (thorough: <=4) merges, recalculations, settings and lookups on three packages of 1-2 of 3 species, "
        "compared after every step with lists of species and with thermo's own chemicals at the same conditions; mixtures for "
        "every composition in a grid; every kind of stream x given flow x conditions x package x order of setting, resolved "
        "once and twice")
SPECIES = ['water', 'toluene', 'hexane']
START = [['hexanol'], ['toluene'], ['hexanol', 'hexane']]           # a name that contains another
CONDS = [(350., 2e5), (350.125, 2e5), (310., 101325.)]
HIST = ['0+1', '0+2', '1+0', '1+2', '2+0', '2+1', 'calc 0', 'calc 1', 'calc 2', 'same 0', 'same 1', 'set 0', 'bad 0', 'bad 1']
_REF = {}


def bounds(tier):
    return "histories of <= %d steps from %d; compositions in steps of 1/8; 3 kinds of stream" % (4 if tier == 'thorough' else 3, len(HIST))


def cases(tier):
    yield ['mixture']
    for k in ('HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream'):
        yield ['stream', k]
    yield ['defaults']
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]


def chemical(name, T, P):
    k = (name, T, P)
    if k not in _REF:
        c = thermo.chemical.Chemical(name, T, P)
        _REF[k] = {a: getattr(c, a) for a in ('CAS', 'MW', 'rho', 'Cp', 'T', 'P')}
    return _REF[k]


def check_phase(ctx, pp, name, T, P, what):
    ref = chemical(name, T, P)
    c = pp[name]
    for a, v in ref.items():
        got = getattr(c, a)
        if isinstance(v, str):
            ctx.eq(got, v, "%s: %s of %s" % (what, a, name))
        else:
            ctx.close(got, v, "%s: %s of %s" % (what, a, name), 1e-9, 1e-9)


def run_history(ops, ctx):
    pps = [PropertyPackage(len(n), list(n)) for n in START]
    names = [list(n) for n in START]
    conds = [{n: (298.15, 101325.) for n in ns} for ns in START]
    what = 'start'
    turn = 0
    last = [CONDS[1]] * 3
    for op in ops:
        what += ' ; ' + op
        ctx.step(what)
        if '+' in op:
            i, j = int(op[0]), int(op[2])
            pps[i] = pps[i] + pps[j]
            for n in names[j]:
                if n not in names[i]:
                    names[i].append(n)
                    conds[i][n] = conds[j][n]
        elif op[:4] in ('calc', 'same'):
            i = int(op[-1])
            if op[:4] == 'calc':
                last[i] = CONDS[turn % 3]
                turn += 1
            T, P = last[i]                                                # 'same': at the conditions of the last calculation
            pps[i].calculate(T=T, P=P)
            for n in names[i]:
                conds[i][n] = (T, P)
        elif op[:3] == 'set':
            pps[0].set_T(333.)
            pps[0].set_P(1.5e5)
            ctx.eq((pps[0].T, pps[0].P), (333., 1.5e5), what)
        elif op == 'bad 0':
            ctx.raises(sut.UnexpectedValueError, lambda: pps[0] + 'toluene', what)
            ctx.raises(KeyError, lambda: pps[0]['benzene'], what)
        elif op == 'bad 1':
            ctx.raises(sut.AbsentRequiredObjectError, lambda: pps[1].set_T('hot'), what)
            ctx.raises(sut.AbsentRequiredObjectError, lambda: pps[1].set_P(None), what)
        for i in range(3):
            ctx.eq(list(pps[i].phase_names), names[i], "%s: species of package %d" % (what, i))
            ctx.eq(pps[i].number_of_phases, len(names[i]), "%s: number of phases of package %d" % (what, i))
            ctx.eq(sorted(pps[i].phases), sorted(names[i]), "%s: phases of package %d" % (what, i))
            for n in names[i]:
                check_phase(ctx, pps[i], n, *conds[i][n], what="%s: package %d" % (what, i))
            if len(names[i]) == 1:
                ctx.check(pps[i]['*'] is pps[i][names[i][0]], "%s: the only phase of package %d" % (what, i))
        ctx.state((str(names), str(conds)))
    new = PropertyPackage(1, ['water'])
    ctx.eq(list(new.phase_names), ['water'], what + ': a new package')


def run_defaults(ctx):
    a = PropertyPackage()
    b = PropertyPackage()
    a + PropertyPackage(1, ['toluene'])
    for k, pp in (('another', b), ('a new', PropertyPackage())):
        ctx.step(k)
        ctx.eq(list(pp.phase_names), ['water'], k + ' package of defaults after a merge')
        ctx.eq(pp.number_of_phases, 1, k + ' package of defaults after a merge')
        ctx.state(k)
    given = ['water']
    c = PropertyPackage(1, given)
    c + PropertyPackage(1, ['hexane'])
    ctx.eq(given, ['water'], 'the list of species given, after a merge')
    for n in range(1, 4):
        given = ['water', 'hexane', 'hexanol'][:n]
        c, e = PropertyPackage(n, given), PropertyPackage(n, given)
        c + PropertyPackage(1, ['toluene'])
        ctx.eq(given, ['water', 'hexane', 'hexanol'][:n], 'the list of %d species given, after a merge' % n)
        ctx.eq((list(e.phase_names), e.number_of_phases, list(e.phases)), (given, n, given), 'another package of the same list of %d' % n)
        ctx.eq((list(c.phase_names), c.number_of_phases), (given + ['toluene'], n + 1), 'the package of %d merged into' % n)
        given.append('toluene')
        ctx.eq(list(e.phase_names), given[:-1], 'package of a list of %d changed afterwards' % n)


def run_mixture(ctx):
    mixes = [(names, [k / 8., 1. - k / 8.]) for names in itertools.permutations(SPECIES + ['hexanol'], 2) for k in range(0, 9)]
    mixes += [(names, [i / 4., j / 4., (4 - i - j) / 4.]) for names in itertools.permutations(SPECIES + ['hexanol'], 3)
              for i in range(5) for j in range(5 - i)]
    for names, f in mixes:
        if True:
            for basis in ('w', 'z'):
                what = "mixture of %s, %s fractions %r" % (names, basis, f)
                ctx.step(what)
                pp = PropertyPackage(len(f), list(names), ws=f if basis == 'w' else None, zs=f if basis == 'z' else None)
                pp.resolve_mixture()
                mw = [chemical(n, 298.15, 101325)['MW'] for n in names]
                if basis == 'w':
                    w = f
                    z = [a / m for a, m in zip(f, mw)]
                else:
                    z = f
                    w = [a * m for a, m in zip(f, mw)]
                z = [a / sum(z) for a in z]
                w = [a / sum(w) for a in w]
                for i in range(len(f)):
                    ctx.close(pp.ws[i], w[i], "%s: mass fraction of %s" % (what, names[i]))
                    ctx.close(pp.zs[i], z[i], "%s: molar fraction of %s" % (what, names[i]))
                ctx.close(pp.mixture.MW, sum(a * m for a, m in zip(z, mw)), what + ': molar mass')
                ctx.state((names, tuple(f), basis))


def check_units(ctx, cls, kind, names):
    s = cls('S', property_package=None if names is None else PropertyPackage(1, list(names)))
    tu = sut.tu
    want = {'mdot_S': tu.kg / tu.s, 'ndot_S': tu.mol / tu.s, 'P_S': tu.Pa, 'H_S': tu.J / tu.mol, 'T_S': tu.K}
    if kind == 'MultiphasicMaterialStream':
        want.update(('%s_%s_S' % (f, n), tu.dimless) for n in names for f in 'zw')
    ctx.eq({n: sut.dims(o.units) for n, o in s.parameters.items()}, {n: sut.dims(u) for n, u in want.items()},
           "parameters of a %s of %s" % (kind, names))


def run_stream(kind, ctx):
    cls = getattr(U, kind)
    packs = [['water'], ['toluene'], ['water', 'toluene'], ['hexane', 'water', 'hexanol']] + ([None] if kind != 'MultiphasicMaterialStream' else [])
    for names in packs:
        for flow in (None, 'mdot', 'ndot', 'both'):
            check_units(ctx, cls, kind, names)
            for T in (None, 350.):
                for P in (None, 2e5):
                    for before in (False, True):
                        for order in (0, 1):
                            what = "%s of %s with flow %s, T=%s, P=%s%s%s" % (kind, names, flow, T, P, ', package used before' if before else '',
                                                                              ', T last' if order else '')
                            ctx.step(what)
                            pp = None if names is None else PropertyPackage(1, list(names))
                            if before and pp is None:
                                continue
                            if before:
                                other = cls('O', property_package=pp)
                                other.T.setValue(400.)
                                other.P.setValue(3e5)
                                other.mdot.setValue(77.)
                                other()
                            s = cls('S', property_package=pp)
                            sets = []
                            if flow in ('mdot', 'both'):
                                sets.append((s.mdot, 5.))
                            if flow in ('ndot', 'both'):
                                sets.append((s.ndot, 3.))
                            if P is not None:
                                sets.append((s.P, P))
                            if T is not None:
                                sets.append((s.T, T))
                            for q, v in (reversed(sets) if order else sets):
                                q.setValue(v)
                            for again in (1, 2):
                                s()
                                w2 = what + ', resolved %d times' % again
                                for q, v in sets:
                                    ctx.check(q.is_specified and q.value == v, "%s: %s is %r" % (w2, q.name, q.value))
                                if pp is not None:
                                    mw = chemical(names[0], 298.15, 101325)['MW'] * 1e-3
                                    if len(names) > 1:
                                        pass                             # the molar mass of several is not fixed
                                    elif flow == 'mdot':
                                        ctx.close(s.ndot.value, 5. / mw, w2 + ': molar flow')
                                        ctx.check(s.ndot.is_specified, w2 + ': molar flow not specified')
                                    elif flow == 'ndot':
                                        ctx.close(s.mdot.value, 3. * mw, w2 + ': mass flow')
                                        ctx.check(s.mdot.is_specified, w2 + ': mass flow not specified')
                                    elif flow is None:
                                        ctx.check(not s.mdot.is_specified and not s.ndot.is_specified, w2 + ': flows')
                                    if T is not None or P is not None:
                                        [check_phase(ctx, pp, n, 298.15 if T is None else T, 101325 if P is None else P, w2)
                                         for n in names]
                                    else:
                                        [check_phase(ctx, pp, n, 400. if before else 298.15, 3e5 if before else 101325, w2) for n in names]
                                elif flow in (None, 'mdot', 'ndot'):
                                    for q in (s.mdot, s.ndot):
                                        ctx.eq(q.is_specified, q.name == '%s_S' % flow, "%s: %s specified" % (w2, q.name))
                                for q in (s.T, s.P):
                                    ctx.eq(q.is_specified, any(q is a for a, _ in sets), "%s: %s specified" % (w2, q.name))
                                ctx.eq((dict(s.variables), dict(s.equations)), ({}, {}), w2 + ': variables and equations')
                            if T is not None and pp is not None:
                                # other conditions later
                                for T2, P2 in ((T + 9., P), (T + 9., 1e5), (T + 8.875, 1.001e5), (T, 1e5)):
                                    s.T.setValue(T2)
                                    if P2 is not None:
                                        s.P.setValue(P2)
                                    s()
                                    for n in names:
                                        check_phase(ctx, pp, n, T2, 101325 if P2 is None else P2, what + ', then at %r' % ((T2, P2),))
                            ctx.state((kind, str(names), flow, T, P, before, order))


def run_case(case, ctx):
    if case[0] == 'mixture':
        run_mixture(ctx)
    elif case[0] == 'stream':
        run_stream(case[1], ctx)
    elif case[0] == 'defaults':
        run_defaults(ctx)
    else:
        for n in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(HIST, repeat=n):
                run_history(case[1:] + list(more), ctx)
