"""C14: algebraic problems are solved, or an error is raised."""
import itertools
from fractions import Fraction
from .. import sut

CHUNK = 8
RULE = ("every linear system of 1 or 2 unknowns with coefficients in {-1,0,1,2} and of 3 unknowns with coefficients in {0,1} "
        "(thorough: {-1,0,1}), with each of the 3 solvers; every order of declaration and of equations, form of equation, "
        "kind of coefficient and split over models for selected systems; linear systems of 11-13 and nonlinear ones (thorough: up to 40 unknowns) in 4 x 4 orders; nonlinear systems with known real roots, from "
        "every root as guess, with each solver and guess refinement, and every pair of them tied by a further equation; every history of <=3 steps of changing values, "
        "solvers, guesses and re-running; oracle: exact rational solution, residuals evaluated in plain arithmetic")
LIN = ['sympy', 'scipy', 'symbolicsys']


def bounds(tier):
    return "1-3 unknowns; %s; histories of <= %d steps" % ("{-1,0,1}^9 matrices" if tier == 'thorough' else "{0,1}^9 matrices",
                                                          4 if tier == 'thorough' else 3)


def cases(tier):
    for a in (-1, 1, 2, 3):
        yield ['lin', 1, [a]]
    for a in itertools.product((-1, 0, 1, 2), repeat=3):
        yield ['lin', 2, list(a)]
    for k in range(len(SHAPES)):
        for form in FORMS:
            yield ['shape', k, form]
    for k in range(len(NONLIN)):
        yield ['nonlin', k]
    for n in (11, 13) + ((24, 40) if tier == 'thorough' else ()):
        for form in FORMS:
            yield ['big', n, form]
        yield ['bignon', n]
    for k in range(len(NONLIN)):
        yield ['pair', k]
    for a in HIST:
        for b in HIST:
            yield ['hist', a, b]
    vals = (-1, 0, 1) if tier == 'thorough' else (0, 1)
    for a in itertools.product(vals, repeat=6):
        yield ['lin', 3, list(a)]


# ------------------------------------------------------------------------------------- oracle

def solve_exact(A, b):
    """'none', 'many' or the unique solution"""
    n = len(A[0])
    M = [[Fraction(x).limit_denominator(10 ** 6) for x in row] + [Fraction(y).limit_denominator(10 ** 6)]
         for row, y in zip(A, b)]
    r = 0
    for c in range(n):
        piv = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if piv is None:
            continue
        M[r], M[piv] = M[piv], M[r]
        M[r] = [x / M[r][c] for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[r])]
        r += 1
    if any(all(x == 0 for x in row[:-1]) and row[-1] != 0 for row in M):
        return 'none'
    return 'many' if r < n else [float(row[-1]) for row in M[:n]]


# --------------------------------------------------------------------------------- linear systems

NM = ['x', 'xx', 'x_', 'x1', 'x10', 'a'] + ['x%d' % i for i in range(11, 60)]       # names that contain each other
FORMS = ['residual', 'sides', 'swapped', 'param', 'const', 'factor', 'named', 'zero']


def declare(A, b, form='residual', var_order=None, eq_order=None, split=False, unit=None, hooks=False):
    """Problem of the system A x = b"""
    n = len(A)
    un = sut.tu.dimless if unit is None else unit
    ms = [sut.Model('A', ''), sut.Model('A1', '')] if split else [sut.Model('A', '')]
    x = {}
    for k, i in enumerate(var_order or range(n)):
        x[i] = ms[k % len(ms)].createVariable(NM[i], un, '')
    for k, i in enumerate(eq_order or range(n)):
        m = ms[(k + 1) % len(ms)]

        def coef(v, tag):
            if form in ('param', 'const'):
                c = (m.createParameter if form == 'param' else m.createConstant)('k%d%s' % (i, tag), sut.tu.dimless, '')
                c.setValue(float(v))
                return c()
            return float(v)
        terms = []
        for j in range(n):
            if A[i][j] != 0 or form == 'zero':           # zero: the terms with null coefficient are written too
                if form == 'zero' and A[i][j] == 0:
                    c = m.createParameter('k%d%s' % (i, j), sut.tu.dimless, '')
                    c.setValue(0.)
                    terms.append(c() * x[j]() if (i + j) % 2 else x[j]() * 0)
                elif form == 'factor':
                    terms.append(x[j]() * coef(A[i][j], j) if A[i][j] != 1 else x[j]() / 1.)
                else:
                    terms.append(coef(A[i][j], j) * x[j]())
        if form in ('sides', 'param'):
            e = (sum(terms[1:], terms[0]) == float(b[i]))
        elif form == 'swapped' and len(terms) > 1:
            e = (terms[0] == float(b[i]) - sum(terms[2:], terms[1]))
        else:
            e = sum(terms[1:], terms[0]) - float(b[i])
        m.createEquation('e%d' % i if form != 'named' else '', '', e, check_equation=False)
    p = sut.Problem('p', '')
    p.addModels(ms)
    p.resolve()
    return p, [x[i].name for i in range(n)]


def run(p, **conf):
    """(results, None) or (None, error)"""
    s = sut.sim()('s', '', p)
    s.setConfigurations(**conf)
    try:
        s.runSimulation(show_output_msg=False, show_final_residuals=False)
    except Exception as e:
        return None, e
    return s.getResults('dict'), None


def judge_linear(ctx, A, b, p, names, solver, what):
    ref = solve_exact(A, b)
    got, err = run(p, linear_solver=solver)
    ctx.step(what)
    ctx.state((tuple(map(tuple, A)), tuple(b), solver, got is None))
    if ref == 'none':
        ctx.check(got is None, "%s: no solution exists, got %r" % (what, got))
        return
    if got is None:
        ctx.check(ref == 'many', "%s: expected %r, got %r" % (what, ref, err))
        return
    ctx.eq(sorted(got), sorted(names), what + ': variables of the results')
    v = [float(got[n]) for n in names]
    for row, y in zip(A, b):
        ctx.close(sum(a * x for a, x in zip(row, v)), y, "%s: equation %r = %r at %r" % (what, row, y, v), 1e-7, 1e-7)
    if ref != 'many':
        for x, y in zip(v, ref):
            ctx.close(x, y, "%s: solution %r" % (what, v), 1e-6, 1e-6)


SHAPES = [([[1, 2, 0], [0, 1, -1], [2, 0, 1]], [3, -1, 0.5]), ([[0, 1, 0], [0, 0, 2], [4, 1, 1]], [1, 3, 0]),
          ([[1, 1, 1], [1, 1, 1], [0, 1, 2]], [1, 2, 3]), ([[1, 1, 1], [2, 2, 2], [0, 1, 2]], [1, 2, 3]),
          ([[1e4, 1, 0], [0, 1e-2, -1], [2, 0, 1]], [3, -1, 0.5]), ([[-1, 0.25, 3], [2, -0.5, 1], [1, 1, 1]], [0, 0, 7]),
          ([[0.5, 0.25, 0], [0, 0.03125, -0.0625], [1e-3, 0, 2e-3]], [3, -1, 0.5]),
          ([[1, 1, 1], [1, 1, 1], [0, 1, 2]], [1e5, 1e5 + 50, 3]), ([[1e3, -1e3, 0], [2e3, -2e3, 0], [1, 1, 1]], [1e6, 2e6 + 4e3, 7]),
          ([[1, 2, 0], [3, -1, 0], [1, 1, 0]], [3, 2, 2]), ([[1, 2, 0], [3, -1, 0], [1, 1, 0]], [3, 2, 5]),
          ([[1e6, 1, 0], [0, 1, 1], [1, 0, 1e-3]], [2e6, 3e5, 1])]


# ------------------------------------------------------------------------------- nonlinear systems

def _c(o, n, m, v):
    k = m.createConstant(n, sut.tu.dimless, '')
    k.setValue(v)
    return k


# (variables, [(node builder, plain function)], roots)
NONLIN = [
    ('x', [(lambda o: o.x() ** 2 - 4., lambda v: v.x ** 2 - 4)], [(2,), (-2,)]),
    ('x', [(lambda o: o.x() ** 2 == 4., lambda v: v.x ** 2 - 4)], [(2,), (-2,)]),
    ('x', [(lambda o: o.x() ** 2 + 1., lambda v: v.x ** 2 + 1)], []),
    ('x', [(lambda o: sut.ops.Exp(o.x()) == 3., lambda v: E.exp(v.x) - 3)], [(1.0986122886681098,)]),
    ('x', [(lambda o: sut.ops.Exp(o.x()) + 1., lambda v: E.exp(v.x) + 1)], []),
    ('x', [(lambda o: sut.ops.Log10(o.x()) - 0.5, lambda v: E.log10(v.x) - 0.5)], [(3.1622776601683795,)]),
    ('x', [(lambda o: sut.ops.Log(o.x()) + o.x() - 1., lambda v: E.log(v.x) + v.x - 1)], [(1.,)]),
    ('x', [(lambda o: sut.ops.Sqrt(o.x()) - 1.5, lambda v: v.x ** 0.5 - 1.5)], [(2.25,)]),
    ('x', [(lambda o: sut.ops.Abs(o.x()) - 2., lambda v: abs(v.x) - 2)], [(2.,), (-2.,)]),
    ('x', [(lambda o: sut.ops.Abs(o.x()) + 2., lambda v: abs(v.x) + 2)], []),
    ('xy', [(lambda o: o.x() * o.y() == 3., lambda v: v.x * v.y - 3), (lambda o: 2 * o.x() == o.y(), lambda v: 2 * v.x - v.y)],
     [(1.5 ** 0.5, 2 * 1.5 ** 0.5), (-1.5 ** 0.5, -2 * 1.5 ** 0.5)]),
    ('xy', [(lambda o: o.x() ** 2 + o.y() ** 2 - 25., lambda v: v.x ** 2 + v.y ** 2 - 25),
            (lambda o: o.x() - o.y() - 1., lambda v: v.x - v.y - 1)], [(4, 3), (-3, -4)]),
    ('xy', [(lambda o: o.x() ** 2 + o.y() ** 2 + 25., lambda v: v.x ** 2 + v.y ** 2 + 25),
            (lambda o: o.x() - o.y() - 1., lambda v: v.x - v.y - 1)], []),
    ('xy', [(lambda o: o.x() ** 2 == o.y(), lambda v: v.x ** 2 - v.y), (lambda o: o.y() - o.x() == 6., lambda v: v.y - v.x - 6)],
     [(3, 9), (-2, 4)]),
    ('xy', [(lambda o: o.x() / o.y() - 2., lambda v: v.x / v.y - 2), (lambda o: o.x() + o.y() - 6., lambda v: v.x + v.y - 6)],
     [(4, 2)]),
    ('xyz', [(lambda o: o.x() * o.y() * o.z() - 6., lambda v: v.x * v.y * v.z - 6),
             (lambda o: o.x() + o.y() + o.z() == 6., lambda v: v.x + v.y + v.z - 6),
             (lambda o: o.x() - 2 * o.y() + o.z() == 0., lambda v: v.x - 2 * v.y + v.z)], [(1, 2, 3), (3, 2, 1)]),
    ('xyz', [(lambda o: o.z() - sut.ops.Exp(o.x()), lambda v: v.z - E.exp(v.x)),
             (lambda o: o.y() ** 2 - o.z(), lambda v: v.y ** 2 - v.z), (lambda o: o.x() + o.y() - 1., lambda v: v.x + v.y - 1)],
     [(0, 1, 1)]),
    ('xyz', [(lambda o: 1e5 * o.x() * o.y() - 8.314 * o.z(), lambda v: 1e5 * v.x * v.y - 8.314 * v.z),
             (lambda o: o.z() == 300., lambda v: v.z - 300), (lambda o: o.x() - 2., lambda v: v.x - 2)],
     [(2, 8.314 * 300 / 2e5, 300)]),
    ('xyz', [(lambda o: o.x() ** 2 + o.y() - 1., lambda v: v.x ** 2 + v.y - 1), (lambda o: o.y() - 2., lambda v: v.y - 2),
             (lambda o: o.z() - o.y(), lambda v: v.z - v.y)], []),
    ('x', [(lambda o: o.x() ** 3 - o.x(), lambda v: v.x ** 3 - v.x)], [(-1,), (0,), (1,)]),
    ('x', [(lambda o: o.x() ** 2 - 200. * o.x() + 10001., lambda v: (v.x - 100) ** 2 + 1)], []),
    ('xy', [(lambda o: o.x() * o.y() - o.x() + 0.25 * o.y() == 0., lambda v: v.x * v.y - v.x + 0.25 * v.y),
            (lambda o: o.y() ** 2 - o.y() + o.x() == 0., lambda v: v.y ** 2 - v.y + v.x)], [(0, 0), (0.25, 0.5), (-0.75, 1.5)]),
]


UNSURE = (8,)            # |x|: no derivative of it can be compiled by the solver, an error is raised


class E:
    """plain functions"""
    import math as _m
    exp, log, log10 = _m.exp, _m.log, _m.log10


class V:
    pass


def nonlinear(k, var_order, eq_order, split):
    names, eqs, roots = NONLIN[k]
    ms = [sut.Model('A', ''), sut.Model('A1', '')] if split else [sut.Model('A', '')]
    o = V()
    for i, j in enumerate(var_order):
        setattr(o, names[j], ms[i % len(ms)].createVariable({'y': 'x1', 'z': 'ax'}.get(names[j], names[j]), sut.tu.dimless, ''))
    for i, j in enumerate(eq_order):
        ms[(i + 1) % len(ms)].createEquation('e%d' % j, '', eqs[j][0](o), check_equation=False)
    p = sut.Problem('p', '')
    p.addModels(ms)
    p.resolve()
    return p, [getattr(o, n).name for n in names]


def satisfied(ctx, k, got, names, what, root=None):
    ctx.eq(sorted(got), sorted(names), what + ': variables of the results')
    v = V()
    vals = []
    for n, full in zip(NONLIN[k][0], names):
        z = complex(got[full])
        ctx.check(abs(z.imag) < 1e-9 * max(1, abs(z)) or not NONLIN[k][2], "%s: %s = %r" % (what, n, z))
        setattr(v, n, z.real)
        vals.append(z.real)
    for j, (_, f) in enumerate(NONLIN[k][1]):
        scale = max([1.] + [abs(x) for x in vals])
        ctx.check(abs(f(v)) <= 1e-5 * scale, "%s: equation %d has residual %r at %r" % (what, j, f(v), vals))
    if root is not None:
        for x, y in zip(vals, root):
            ctx.close(x, y, "%s: root next to the guess %r, got %r" % (what, root, vals), 1e-4, 1e-4)


def run_nonlinear(k, ctx):
    names, eqs, roots = NONLIN[k]
    n = len(names)
    guesses = [None] + [tuple(r) for r in roots] + [(5.,) * n, (0.25, -3., 2.)[:n]]
    for var_order in itertools.permutations(range(n)):
        for eq_order in itertools.permutations(range(n)):
            if n == 3 and ctx.tier == 'quick' and var_order != (0, 1, 2) and eq_order != (0, 1, 2):
                continue
            for split in (False, True):
                p, full = nonlinear(k, var_order, eq_order, split)
                tag = "system %d, variables %s, equations %s%s" % (k, var_order, eq_order, ', two models' if split else '')
                plain = var_order == tuple(range(n)) and not split
                for gi, g in enumerate(guesses):
                    if gi > len(roots) and not plain:
                        continue
                    isroot = 0 < gi <= len(roots)
                    for refine, off in [(r, 1) for r in ((None, 'hybr', 'anderson') if plain else (None,))] + [(None, 0)] * (isroot and plain):
                        # an offset of 1 %, so that the guess is not the root itself, or none
                        conf = {} if g is None else {'initial_guess': {full[i]: x + off * (x * 0.01 + 0.001) for i, x in enumerate(g)}}
                        what = "%s, guess %s%s, refined by %s" % (tag, g, '' if off else ' exactly', refine)
                        got, err = run(p, initial_guess_solver=refine, nonlinear_solver='symbolicsys' if gi % 2 else '*', **conf)
                        ctx.step(what)
                        ctx.state((k, gi, refine, got is None))
                        if not roots:
                            ctx.check(got is None, "%s: no root exists, got %r" % (what, got))
                        elif got is None:
                            ctx.check(not isroot or refine is not None or k in UNSURE, "%s: not solved: %r" % (what, err))
                        else:
                            satisfied(ctx, k, got, full, what, roots[gi - 1] if isroot and refine is None else None)
                if plain and n < 3 and eq_order == tuple(range(n)):
                    got, err = run(p, nonlinear_solver='sympy')
                    ctx.step(tag + ', sympy')
                    if got is not None and roots:
                        satisfied(ctx, k, got, full, tag + ', sympy')
                ctx.raises(Exception, lambda: raise_(run(p, nonlinear_solver='unknown')[1]), tag + ', unknown solver')


def raise_(e):
    if e is not None:
        raise e


def run_pair(k, ctx):
    """system k together with each other one, in variables of its own, and an equation s == 1 + sum of all variables"""
    for q in range(len(NONLIN)):
        if k in UNSURE or q in UNSURE:
            continue
        for form in range(4):
            m = sut.Model('A', '')
            sets, ev = [], []
            s = m.createVariable('s', sut.tu.dimless, '')
            for t, j in ((0, k), (1, q)):
                o = V()
                for n in NONLIN[j][0]:
                    setattr(o, n, m.createVariable(n + 'xy'[t], sut.tu.dimless, ''))
                sets.append(o)
            every = [getattr(o, n) for o, j in zip(sets, (k, q)) for n in NONLIN[j][0]]
            total = every[0]() + 1.
            for x in every[1:]:
                total = total + x()
            tie = (s() == total) if form % 2 else s() - total
            if form < 2:
                m.createEquation('tie', '', tie)
            for t, j in ((0, k), (1, q)):
                for i, (f, _) in enumerate(NONLIN[j][1]):
                    m.createEquation('e%d%d' % (t, i), '', f(sets[t]))
            if form >= 2:
                m.createEquation('tie', '', tie)
            p = sut.Problem('p', '')
            p.addModels(m)
            p.resolve()
            r1, r2 = NONLIN[k][2], NONLIN[q][2]
            for a, b in itertools.product(range(max(1, len(r1))), range(max(1, len(r2)))):
                ra = r1[a] if r1 else (0.5, 2., 3.)[:len(NONLIN[k][0])]
                rb = r2[b] if r2 else (0.5, 2., 3.)[:len(NONLIN[q][0])]
                root = list(ra) + list(rb)
                guess = {v.name: x * 1.01 + 0.001 for v, x in zip(every, root)}
                guess[s.name] = 0. if form % 2 else sum(root)
                what = "systems %d and %d, tied by an equation (%s, %s), guess next to %r" % (
                    k, q, 'first' if form < 2 else 'last', 'sides' if form % 2 else 'residual', root)
                got, err = run(p, initial_guess=guess)
                ctx.step(what)
                ctx.state((k, q, form, got is None))
                if not r1 or not r2:
                    ctx.check(got is None, "%s: no root exists, got %r" % (what, got))
                    continue
                ctx.check(got is not None, "%s: not solved: %r" % (what, err))
                ctx.eq(sorted(got), sorted(v.name for v in every + [s]), what + ': variables of the results')
                for v, x in zip(every, root):
                    ctx.close(float(got[v.name]), x, "%s: %s" % (what, v.name), 1e-4, 1e-4)
                ctx.close(float(got[s.name]), 1. + sum(float(got[v.name]) for v in every), what + ': sum', 1e-5, 1e-5)


def orders(n):
    """different orders of n things"""
    return [list(range(n)), list(range(n))[::-1], sorted(range(n), key=lambda i: (i * 7) % n), sorted(range(n), key=str)]


def run_big(n, form, ctx):
    """many unknowns: a band, an arrow and a triangular matrix"""
    mats = [[[4 + i % 3 if i == j else -1 if abs(i - j) == 1 else 0 for j in range(n)] for i in range(n)],
            [[2 + i if i == j else 1 if 0 in (i, j) else 0 for j in range(n)] for i in range(n)],
            [[1 if i == j else 2 if j == i - 3 else 0 for j in range(n)] for i in range(n)]]
    for A in mats:
        b = [(i * i) % 7 - 2.5 for i in range(n)]
        for vo, eo in itertools.product(orders(n), repeat=2):
            for split in (False, True):
                p, names = declare(A, b, form, vo, eo, split)
                for solver in (LIN if form in ('residual', 'sides') or vo == eo else ['scipy']):
                    judge_linear(ctx, A, b, p, names, solver, "%d unknowns, matrix %d, by %s, as %s, variables %s, equations %s%s" % (
                        n, mats.index(A), solver, form, vo, eo, ', two models' if split else ''))


def run_bignon(n, ctx):
    """x0^2 = 4 ; xi x(i-1) = i + 1, from guesses next to each one of the two solutions"""
    for vo, eo in itertools.product(orders(n), repeat=2):
        for split in (False, True):
            ms = [sut.Model('A', ''), sut.Model('A1', '')] if split else [sut.Model('A', '')]
            x = {}
            for k, i in enumerate(vo):
                x[i] = ms[k % len(ms)].createVariable(NM[i], sut.tu.dimless, '')
            for k, i in enumerate(eo):
                ms[(k + 1) % len(ms)].createEquation('e%d' % i, '', (x[0]() ** 2 == 4.) if i == 0 else
                                                     x[i]() * x[i - 1]() - (i + 1.), check_equation=False)
            p = sut.Problem('p', '')
            p.addModels(ms)
            p.resolve()
            for sign in (1, -1):
                root = [2. * sign]
                for i in range(1, n):
                    root.append((i + 1.) / root[-1])
                for refine in (None, 'hybr') if vo == eo else (None,):
                    what = "%d unknowns, variables %s, equations %s%s, root %d, refined by %s" % (
                        n, vo, eo, ', two models' if split else '', sign, refine)
                    got, err = run(p, initial_guess_solver=refine, initial_guess={x[i].name: r * 1.01 for i, r in enumerate(root)})
                    ctx.step(what)
                    ctx.state((n, vo[0], vo[1], eo[0], eo[1], sign))
                    ctx.check(got is not None, "%s: not solved: %r" % (what, err))
                    ctx.eq(sorted(got), sorted(v.name for v in x.values()), what + ': variables of the results')
                    v = [float(got[x[i].name]) for i in range(n)]
                    for i in range(n):
                        ctx.close(v[i] * v[i - 1] if i else v[0] ** 2, i + 1. if i else 4., "%s: equation %d at %r" % (what, i, v),
                                  1e-5, 1e-5)
                        ctx.close(v[i], root[i], "%s: unknown %d" % (what, i), 1e-4, 1e-4)


# ---------------------------------------------------------------------------------------- histories

HIST = ['a=2', 'a=-3', 'b=5', 'run', 'run again', 'sympy', 'scipy', 'symbolicsys', 'guess', 'resolve', 'extend']


def hist_problem(nonlinear):
    class M(sut.Model):
        def __init__(self, name, description):
            super().__init__(name, description)
            self.x = self.createVariable('x', sut.tu.m, '')
            self.y = self.createVariable('y', sut.tu.m, '')
            self.a = self.createParameter('a', sut.tu.dimless, '')
            self.b = self.createParameter('b', sut.tu.m, '')
            self.a.setValue(1.5)
            self.b.setValue(4.)

        def DeclareEquations(self):
            if nonlinear:
                self.createEquation('e1', '', self.a() * self.x() ** 2 / self.y() - self.b())
            else:
                self.createEquation('e1', '', self.a() * self.x() + self.y() == self.b())
            self.createEquation('e2', '', self.x() - self.y() == self.b() * 2)
    m = M('M', '')
    p = sut.Problem('p', '')
    return m, p


def run_history(ops, nonlinear, ctx):
    m, p = hist_problem(nonlinear)
    m()
    p.addModels(m)
    p.resolve()
    val, active = {'a': 1.5, 'b': 4.}, {'a': 1.5, 'b': 4.}
    ext = None
    conf = {'linear_solver': 'sympy'}
    s = sut.sim()('s', '', p)
    what = 'nonlinear' if nonlinear else 'linear'
    for op in list(ops) + ['resolve', 'run']:
        what += ' ; ' + op
        ctx.step(what)
        if '=' in op:
            val[op[0]] = float(op[2:])
            getattr(m, op[0]).setValue(val[op[0]])
        elif op in LIN:
            conf['linear_solver'] = op
        elif op == 'guess':
            conf['initial_guess'] = {'x_M': 9., 'y_M': 2.} if ext is None else {'x_M': 9., 'y_M': 2., 'w_M': 1.}
        elif op == 'resolve':
            p.resolve()
            active = dict(val)
        elif op == 'extend' and ext is None:
            m.w = m.createVariable('w', sut.tu.m, '')
            m.createEquation('e3', '', m.w() == m.x() + m.y())
            ext = True
            conf.pop('initial_guess', None)
            p.resolve()
            active = dict(val)
        elif op in ('run', 'run again'):
            if op == 'run':
                s = sut.sim()('s', '', p)
            s.setConfigurations(**conf)
            a, b = active['a'], active['b']
            try:
                s.runSimulation()
                got = s.getResults('dict')
            except Exception as e:
                ctx.check(nonlinear and (a > 0.125 or ext), "%s: %r" % (what, e))
                ctx.state((tuple(ops), 'error'))
                continue
            ctx.eq(sorted(got), ['w_M', 'x_M', 'y_M'] if ext else ['x_M', 'y_M'], what + ': variables')
            x, y = float(got['x_M']), float(got['y_M'])
            ctx.close(x - y, 2 * b, what + ': second equation', 1e-6, 1e-6)
            if nonlinear:
                ctx.check(abs(a * x * x - b * y) <= 1e-5 * max(1., abs(y), x * x), "%s: first equation at %r" % (what, (x, y)))
            else:
                ctx.close(a * x + y, b, what + ': first equation', 1e-6, 1e-6)
                lst = s.getResults('list')
                ctx.eq(sorted(lst), sorted(float(z) for z in got.values()), what + ': list of results')
            if ext:
                ctx.close(float(got['w_M']), x + y, what + ': third equation', 1e-6, 1e-6)
            again = s.getResults('dict')
            ctx.eq(again, got, what + ': results read again')
            ctx.eq(s.getStatus(), 0, what + ': status')
            ctx.state((what.split(' ; ')[0], a, b, conf['linear_solver'], ext))


def run_case(case, ctx):
    kind = case[0]
    if kind == 'lin':
        n, head = case[1], case[2]
        vals = ((-1, 0, 1, 2) if n < 3 else (-1, 0, 1) if ctx.tier == 'thorough' else (0, 1))
        for tail in itertools.product(vals, repeat=n * n - len(head)):
            flat = list(head) + list(tail)
            A = [flat[i * n:(i + 1) * n] for i in range(n)]
            if any(not any(r) for r in A) or any(not any(r[j] for r in A) for j in range(n)):
                continue
            for b in ([[1, 0, 2][:n], [0, -1, 3][:n]] if n < 3 else [[1, 0, 2]]):
                p, names = declare(A, b)
                for solver in (LIN if n < 3 or ctx.tier == 'thorough' else LIN[:2]):
                    judge_linear(ctx, A, b, p, names, solver, "%r x = %r by %s" % (A, b, solver))
    elif kind == 'shape':
        A, b = SHAPES[case[1]]
        for vo in itertools.permutations(range(3)):
            for eo in itertools.permutations(range(3)):
                for split in (False, True):
                    p, names = declare(A, b, case[2], vo, eo, split)
                    for solver in (LIN if ctx.tier == 'thorough' or vo == eo else ['scipy']):
                        judge_linear(ctx, A, b, p, names, solver, "%r x = %r by %s, as %s, variables %s, equations %s%s" % (
                            A, b, solver, case[2], vo, eo, ', two models' if split else ''))
    elif kind == 'big':
        run_big(case[1], case[2], ctx)
    elif kind == 'bignon':
        run_bignon(case[1], ctx)
    elif kind == 'pair':
        run_pair(case[1], ctx)
    elif kind == 'nonlin':
        run_nonlinear(case[1], ctx)
    else:
        for nonlinear in (False, True):
            for k in range(0, 3 if ctx.tier == 'thorough' else 2):
                for more in itertools.product(HIST, repeat=k):
                    run_history(case[1:] + list(more), nonlinear, ctx)
