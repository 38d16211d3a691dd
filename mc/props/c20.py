"""C20: library of unit operations."""
import itertools
import math
from .. import sut
from src.sloth import unit_op_library as U
from src.sloth.core.property_package import PropertyPackage

CHUNK = 2
RULE = ("every chain of <=2 (thorough: <=3) units from mixer, splitter, valve, pump, heater, cooler, with one of 3 parameter sets "
        "each, 1-3 phases, fed by equations or by 1-3 inlet streams, connected in every direction of declaration; each "
        "solved through a simulation and compared with the balances evaluated by hand; every history of <=3 (thorough: <=4) "
        "changes of parameters and feed with resolutions; tanks with every combination of flows and heat, against the closed form")
UNITS = ['Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler']
PARAMS = [dict(Delta_P=500., perc_open=.5, Q=300.), dict(Delta_P=-20., perc_open=1., Q=-4000.), dict(Delta_P=0., perc_open=.25, Q=0.)]
FEEDS = [dict(ndot=3., mdot=2., P=101325., T=300., H=50.), dict(ndot=.4, mdot=7., P=2e5, T=350., H=-900.)]
FLOW = ['ndot', 'mdot', 'P', 'T', 'H']
HIST = ['dP A', 'dP B', 'Q B', 'open', 'feed', 'resolve', 'run']
_PP = {}


def package(names):
    """Property packages are slow to build: one per process, given to several models."""
    if names not in _PP:
        _PP[names] = PropertyPackage(len(names), list(names), ws=[1. / len(names)] * len(names))
    return _PP[names]


def units_of():
    tu = sut.tu
    return {'ndot': tu.mol / tu.s, 'mdot': tu.kg / tu.s, 'P': tu.Pa, 'T': tu.K, 'H': tu.J / tu.mol}


def bounds(tier):
    return "chains of <= %d of 6 units, 3 parameter sets, 2 feeds, 1-2 phases; histories of <= %d from %d" % (
        3 if tier == 'thorough' else 2, 4 if tier == 'thorough' else 3, len(HIST))


def cases(tier):
    for a in UNITS:
        yield ['single', a]
        yield ['phases', a]
        yield ['inlets', a]
    for a in UNITS:
        for b in UNITS:
            yield ['chain', a, b]
    yield ['user']
    yield ['tank', 'Tank']
    yield ['tank', 'Fermenter']
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]
    if tier == 'thorough':
        for c in itertools.product(UNITS, repeat=3):
            yield ['chain'] + list(c)


class Feed(sut.Model):
    def __init__(self, name, values):
        super().__init__(name, '')
        self.c = {}
        for n, u in units_of().items():
            setattr(self, n, self.createVariable(n, u, '', is_exposed=True, type='output'))
            self.c[n] = self.createConstant(n + '0', u, '')
            self.c[n].setValue(values[n])

    def DeclareEquations(self):
        for n in FLOW:
            self.createEquation('given_' + n, '', getattr(self, n)() - self.c[n]())


def make(kind, name, pp, par, extra=None):
    cls = getattr(U, kind)
    if extra is not None:
        cls = type(kind, (cls,), {'DeclareEquations': lambda self: (super(cls, self).DeclareEquations(), extra(self))})
    m = cls(name, property_package=pp)
    for k, v in par.items():
        if hasattr(m, k):
            getattr(m, k).setValue(v)
    return m


def density(pp, w):
    return pp['*'].rho if w is None else sum(w[n] * pp[n].rho for n in w)


def capacity(pp, w):
    return pp['*'].Cp if w is None else sum(w[n] * pp[n].Cp for n in w)


def through(kind, s, par, pp, w=None):
    """The outlet of a unit, by hand."""
    o = dict(s)
    if kind == 'Valve':
        o['P'] = s['P'] - par['Delta_P']
        o['Qdot'] = par['perc_open'] * s['mdot'] / density(pp, w)
    elif kind == 'SimplePump':
        o['P'] = s['P'] + par['Delta_P']
    elif kind in ('Heater', 'Cooler'):
        o['P'] = s['P'] - par['Delta_P']
        o['H'] = s['H'] + par['Q'] / s['ndot']
        o['T'] = s['T'] + par['Q'] / (s['mdot'] * capacity(pp, w))
    return o


def solve(p, models, guess):
    """All unknowns start at the same distance of nothing: the values of the feed."""
    s = sut.sim()('S', '', p)
    g = {}
    for m in models:
        for v in m.variables.values():
            base = v.name[:-len(m.name) - 1]
            for k in FLOW:
                if base.startswith(k):
                    g[v.name] = guess[k]
                    break
            else:
                g[v.name] = 1.
    s.setConfigurations(initial_guess=g)
    s.runSimulation()
    return s.getResults('dict')


def compare(ctx, res, name, ins, out, what):
    for k in FLOW:
        ctx.close(res['%s_in_%s' % (k, name)], ins[k], "%s: %s at the inlet of %s" % (what, k, name), 1e-6, 1e-6)
        ctx.close(res['%s_out_%s' % (k, name)], out[k], "%s: %s at the outlet of %s" % (what, k, name), 1e-6, 1e-6)
    if 'Qdot' in out:
        ctx.close(res['Qdot_out_' + name], out['Qdot'], "%s: volumetric flow of %s" % (what, name), 1e-6, 1e-12)


def run_chain(kinds, ctx, pps=(('water',),)):
    names = ['P_1', 'P', 'P_11'][:len(kinds)]                   # names that contain each other
    n = len(kinds)
    combos = list(itertools.product(range(len(PARAMS)), repeat=n)) if n < 3 else [(i, (i + 1) % 3, (2 * i + 2) % 3) for i in range(3)]
    if n == 2:
        combos = [c for c in combos if c[0] != c[1]]
    for names_pp in pps:
        pp = None if names_pp is None else package(names_pp)
        for ps in combos:
            for fi, feed in enumerate(FEEDS):
                if n > 1 and fi != sum(ps) % 2:
                    continue
                for backwards in (False, True):
                    what = "%s with parameters %s, feed %d, phases %s%s" % (kinds, ps, fi, names_pp, ', declared backwards' if backwards else '')
                    ctx.step(what)
                    f = Feed('F', feed)
                    us = [make(k, nm, pp, PARAMS[i]) for k, nm, i in zip(kinds, names, ps)]
                    models = [f] + us
                    for m in (reversed(models) if backwards else models):
                        m()
                    p = sut.Problem('P', '')
                    p.addModels(list(reversed(models)) if backwards else models)
                    links = list(zip(models, us))
                    for a, b in (reversed(links) if backwards else links):
                        for k in FLOW:
                            src = getattr(a, k if a is f else k + '_out')
                            p.createConnection(a, b, src, getattr(b, k + '_in'))
                    p.resolve()
                    res = solve(p, models, feed)
                    s = dict(feed)
                    for k, nm, i in zip(kinds, names, ps):
                        o = through(k, s, PARAMS[i], pp)
                        compare(ctx, res, nm, s, o, what)
                        o.pop('Qdot', None)
                        s = o
                    ctx.state((tuple(kinds), ps, fi, backwards, names_pp))


def constants(m, values):
    """Give values to variables of a unit by equations."""
    for n, (u, v) in values.items():
        c = m.createConstant('given_' + n, u, '')
        c.setValue(v)
        m.createEquation('given_' + n, '', getattr(m, n)() - c())


def run_phases(kind, ctx):
    """Two phases: fractions given at the inlet."""
    for ph in (('water', 'toluene'), ('methanol', 'ethanol'), ('ethanol', 'methanol'), ('water', 'ethanol', 'methanol')):
        run_several(kind, ctx, ph)


def run_several(kind, ctx, phases):
    pp = package(phases)
    share = lambda x: dict(zip(phases, [x, 1. - x] if len(phases) == 2 else [x, (1. - x) * .75, (1. - x) * .25]))
    for par in PARAMS:
        for feed in FEEDS:
            for w1, z1 in ((.25, .6), (1., .75), (.5, 0.)):
                what = "%s of %r with %r, feed %r, fractions %g %g" % (kind, phases, par, feed, w1, z1)
                ctx.step(what)
                un = units_of()

                def extra(self):
                    vals = {n + '_in': (un[n], feed[n]) for n in FLOW}
                    # mixers and splitters hold the sum of the fractions themselves
                    for ph in phases[:-1] if kind in ('Mixer', 'Splitter') else phases:
                        vals['w_%s_in' % ph] = (sut.tu.dimless, share(w1)[ph])
                        vals['z_%s_in' % ph] = (sut.tu.dimless, share(z1)[ph])
                    constants(self, vals)
                m = make(kind, 'A', pp, par, extra)
                m()
                p = sut.Problem('P', '')
                p.addModels(m)
                p.resolve()
                res = solve(p, [m], feed)
                w, z = share(w1), share(z1)
                compare(ctx, res, 'A', feed, through(kind, feed, par, pp, w), what)
                for ph, a, b in ((ph, w[ph], z[ph]) for ph in phases):
                    for end in ('in', 'out'):
                        ctx.close(res['w_%s_%s_A' % (ph, end)], a, "%s: mass fraction of %s, %s" % (what, ph, end), 1e-6, 1e-6)
                        ctx.close(res['z_%s_%s_A' % (ph, end)], b, "%s: molar fraction of %s, %s" % (what, ph, end), 1e-6, 1e-6)
                ctx.state((kind, phases, str(par), str(feed), w1, z1))


def stream(name, pp, P, T, how, flow=2.):
    s = U.MaterialStream(name, property_package=pp)
    getattr(s, how).setValue(flow)
    s.P.setValue(P)
    s.T.setValue(T)
    s.H.setValue(1.)
    s()
    return s


def run_inlets(kind, ctx):
    """Pressure and temperature totalized from inlet streams."""
    pp = package(('water',))
    un = units_of()
    sets = [[(1e5, 320.)], [(2e5, 300.), (1e5, 340.)], [(1e5, 340.), (2e5, 300.)], [(1e5, 300.), (3e5, 330.), (2e5, 310.)],
            [(1e5, 300.), (1e5, 300.)], [(1e5 + 100. * ((i * 5 + 5) % 12), 300. + (i * 7 + 2) % 12) for i in range(12)]]
    for conds in sets:
        for par in PARAMS:
            for calls in ('list', 'one by one', 'ports'):
                for again in (False, True):
                    feed = FEEDS[0]
                    what = "%s fed by streams %r set %s with %r%s" % (kind, conds, calls, par, ', resolved again' if again else '')
                    ctx.step(what)
                    ss = [stream('S%d' % i, pp, P, T, ('mdot', 'ndot')[i % 2]) for i, (P, T) in enumerate(conds)]

                    def extra(self):
                        constants(self, {n + '_in': (un[n], feed[n]) for n in ('ndot', 'mdot', 'H')})
                    m = make(kind, 'A', pp, par, extra)
                    if calls == 'list':
                        m._setInlets(ss)
                    elif calls == 'one by one':
                        for s in ss:
                            m._setInlets(s)
                    else:
                        for i, s in enumerate(ss):
                            m._setInlets([s], 'in%d' % i)
                    m()
                    p = sut.Problem('P', '')
                    p.addModels(m)
                    p.resolve()
                    if again:
                        res = solve(p, [m], feed)
                        ss[0].P.setValue(9e4)
                        conds_ = [(9e4, conds[0][1])] + conds[1:]
                        p.resolve()
                    else:
                        conds_ = conds
                    res = solve(p, [m], feed)
                    ins = dict(feed, P=min(P for P, _ in conds_), T=min(T for _, T in conds_))
                    compare(ctx, res, 'A', ins, through(kind, ins, par, pp), what)
                    for i, s in enumerate(ss):
                        ctx.eq((s.P.value, s.T.value), conds_[i], what + ': stream %d' % i)
                    ctx.state((kind, str(conds), str(par), calls, again))


def run_user(ctx):
    """A unit of the user's own, which declares nothing of its inlet, fed by streams and connected to a feed."""
    pp = package(('water',))
    for conds in ([(1e5, 320.)], [(2e5, 300.), (1e5, 340.)], [(1e5, 340.), (3e5, 300.), (2e5, 360.)]):
        for own in (False, True):
            for backwards in (False, True):
                what = "unit of the user fed by %r%s%s" % (conds, ', own totalization' if own else '', ', declared backwards' if backwards else '')
                ctx.step(what)
                feed = FEEDS[0]

                def total(main_model):
                    m = main_model
                    if not hasattr(m, 'Psum'):
                        m.Psum = m.createVariable('Psum', sut.tu.Pa, '')
                    whole = m._inlets[0].P()
                    for s in m._inlets:
                        m.incorporateFromExternalModel(s, incorporate_equations=False, rewrite_name=False)
                    for s in m._inlets[1:]:
                        whole = whole + s.P()
                    m.createEquation('sum', '', m.Psum() - whole)

                class User(sut.Model):
                    def DeclareVariables(self):
                        self.y = self.createVariable('y', sut.tu.Pa if own else sut.tu.K, '')

                    def DeclareEquations(self):
                        self.createEquation('y', '', self.y() - (self.Psum() if own else self.T_in()) * 2.)
                ss = [stream('S%d' % i, pp, P, T, ('mdot', 'ndot')[i % 2]) for i, (P, T) in enumerate(conds)]
                u = User('A', '', function_for_inlets_totalization=total if own else None)
                u._setInlets(ss)
                f = Feed('F', feed)
                models = [f, u][::-1 if backwards else 1]
                for m in models:
                    m()
                p = sut.Problem('P', '')
                p.addModels(models)
                if not own:
                    for k in ('ndot', 'mdot', 'H'):
                        p.createConnection(f, u, getattr(f, k), getattr(u, k + '_in'))
                for i in range(2):
                    if i:
                        ss[-1].P.setValue(8e4)
                    p.resolve()
                    P, T = [c[0] for c in conds], [c[1] for c in conds]
                    if i:
                        P[-1] = 8e4
                    res = solve(p, models, feed)
                    if own:
                        want = {'Psum_A': sum(P), 'y_A': 2. * sum(P)}
                    else:
                        want = {'P_in_A': min(P), 'T_in_A': min(T), 'y_A': 2. * min(T)}
                        want.update({k + '_in_A': feed[k] for k in ('ndot', 'mdot', 'H')})
                    for n, v in want.items():
                        ctx.close(res[n], v, "%s: %s%s" % (what, n, ', changed and resolved' if i else ''), 1e-6, 1e-6)
                    ctx.eq([(s.P.value, s.T.value) for s in ss], list(zip(P, T)), what + ': streams')
                ctx.state((str(conds), own, backwards))


def run_tank(kind, ctx):
    pp = package(('water',))
    rho = pp['*'].rho
    for nin, nout, min_, mout, Q, drain in itertools.product((3., 0.), (1., 2.), (500.,), (0., 100.), (0., 40.), (False, True)):
        what = "%s with %r" % (kind, (nin, nout, min_, mout, Q, drain))
        ctx.step(what)
        un = units_of()

        def extra(self):
            constants(self, {'ndot_in': (un['ndot'], nin), 'mdot_in': (un['mdot'], min_), 'mdot_out': (un['mdot'], mout),
                             'H_in': (un['H'], 10.), 'H_out': (un['H'], 20.), 'P_In': (sut.tu.Pa, 1e5)})
            c = self.createConstant('rate', sut.tu.mol / sut.tu.s if not drain else sut.tu.dimless / sut.tu.s, '')
            c.setValue(nout)
            self.createEquation('outflow', '', self.ndot_out() - (c() * self.N() if drain else c()))
        m = make(kind, 'A', pp, {'Q': Q, 'area_sec': 2.}, extra)
        m()
        p = sut.Problem('P', '')
        p.addModels(m)
        p.setTimeVariableName(['t_A'])
        p.resolve()
        N0, M0, E0, L0 = 5., 50., 7., 1.
        out0 = nout * N0 if drain else nout
        init = {'t_A': 0., 'N_A': N0, 'M_A': M0, 'E_A': E0, 'level_A': L0, 'ndot_in_A': nin, 'ndot_out_A': out0, 'mdot_in_A': min_,
                'mdot_out_A': mout, 'H_in_A': 10., 'H_out_A': 20., 'P_In_A': 1e5, 'P_Out_A': 1e5,
                'N_A_d': nin - out0, 'M_A_d': min_ - mout, 'E_A_d': nin * 10. - out0 * 20. + Q, 'level_A_d': (min_ - mout) / (rho * 2.)}
        p.setInitialConditions(init)
        s = sut.sim()('S', '', p)
        s.setConfigurations(is_dynamic=True, domain=m.time_domain, time_variable_name='t_A', end_time=1., number_of_time_steps=4)
        s.runSimulation()
        res = s.getResults('dict')['t_A']
        for i, t in enumerate(res['t_A']):
            if drain:
                N = nin / nout + (N0 - nin / nout) * math.exp(-nout * t)
                moved = nin * t - (N - N0)                   # what has left
            else:
                N = N0 + (nin - nout) * t
                moved = nout * t
            for n, v in (('N', N), ('M', M0 + (min_ - mout) * t), ('E', E0 + (nin * 10. + Q) * t - 20. * moved),
                         ('level', L0 + (min_ - mout) * t / (rho * 2.))):
                ctx.step(what)
                ctx.close(list(res[n + '_A'])[i], v, "%s: %s at %g" % (what, n, t), 2e-4, 2e-4)
        ctx.close(list(res['t_A'])[-1], 1., what + ': end')
        ctx.state((kind, nin, nout, min_, mout, Q, drain))


def run_history(ops, ctx):
    """A valve A, then a heater B, parameters changed and resolved at will."""
    pp = package(('water',))
    par = {'A': dict(PARAMS[0]), 'B': dict(PARAMS[1])}
    feed = dict(FEEDS[0])
    f = Feed('F', feed)
    us = {'A': make('Valve', 'A', pp, par['A']), 'B': make('Heater', 'B', pp, par['B'])}
    models = [f, us['A'], us['B']]
    for m in models:
        m()
    p = sut.Problem('P', '')
    p.addModels(models)
    for a, b in zip(models, models[1:]):
        for k in FLOW:
            p.createConnection(a, b, getattr(a, k if a is f else k + '_out'), getattr(b, k + '_in'))
    p.resolve()
    used = None
    what = 'start'

    def snapshot():
        return dict(par['A']), dict(par['B']), dict(feed)
    used = snapshot()
    for op in list(ops) + ['run']:
        what += ' ; ' + op
        ctx.step(what)
        if op[:2] == 'dP':
            k = op[-1]
            par[k]['Delta_P'] += 100.
            us[k].Delta_P.setValue(par[k]['Delta_P'])
        elif op == 'Q B':
            par['B']['Q'] += 1000.
            us['B'].Q.setValue(par['B']['Q'])
        elif op == 'open':
            par['A']['perc_open'] = .75
            us['A'].perc_open.setValue(.75)
        elif op == 'feed':
            feed['T'] += 10.
            feed['mdot'] += .5
            f.c['T'].setValue(feed['T'])
            f.c['mdot'].setValue(feed['mdot'])
        elif op == 'resolve':
            p.resolve()
            used = snapshot()
        else:
            pa, pb, fe = used
            res = solve(p, models, feed)
            o = through('Valve', fe, pa, pp)
            compare(ctx, res, 'A', fe, o, what)
            o.pop('Qdot')
            compare(ctx, res, 'B', o, through('Heater', o, pb, pp), what)
        ctx.state((str(par), str(feed), str(used)))


def run_case(case, ctx):
    if case[0] == 'chain':
        run_chain(case[1:], ctx)
    elif case[0] == 'single':
        pps = [('water',), ('toluene',)]
        if case[1] in ('Mixer', 'Splitter', 'SimplePump'):
            pps.append(None)
        run_chain(case[1:], ctx, pps)
    elif case[0] == 'phases':
        run_phases(case[1], ctx)
    elif case[0] == 'inlets':
        run_inlets(case[1], ctx)
    elif case[0] == 'user':
        run_user(ctx)
    elif case[0] == 'tank':
        run_tank(case[1], ctx)
    else:
        for n in range(0, 3 if ctx.tier == 'thorough' else 2):
            for more in itertools.product(HIST, repeat=n):
                run_history(case[1:] + list(more), ctx)
