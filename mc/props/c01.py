"""C01: unit algebra."""
import itertools
from .. import sut
from ..core import Violation

CHUNK = 4
RULE = ("every chain of <=3 (thorough: <=4) unit operations over the predefined units and units made from dictionaries; "
        "after each step the 7 exponents of the result and of every earlier unit are compared with plain vectors")
POW = [2, 3, -1, 0.5, 0.25, -0.125, 0, 1, -2, 1. / 3, 7, 1.03125, 0.9990234375]
NUM = [2, -3.5, 0.25, 1, 1e-7, 123456.789]
CUSTOM = {'c0': {'m': 1, 's': -2}, 'c1': {'kg': 0.5, 'K': -1}, 'c2': {}, 'c3': {'A': 2, 'mol': 1.5, 'cd': -1},
          'c4': {'m': 0, 's': 0}, 'c5': {'s': 1, 'm': 1}}
EXPECT = {'dimless': {}, 'm': {'m': 1}, 'kg': {'kg': 1}, 's': {'s': 1}, 'A': {'A': 1}, 'K': {'K': 1},
          'mol': {'mol': 1}, 'cd': {'cd': 1}, '_s': {'s': -1}, '_m2': {'m': -2}, '_m3': {'m': -3},
          'm_s': {'m': 1, 's': -1}, 'm_s2': {'m': 1, 's': -2}, 'kg_s': {'kg': 1, 's': -1},
          'mol_s': {'mol': 1, 's': -1}, 'Force': {'kg': 1, 'm': 1, 's': -2}, 'Pa': {'kg': 1, 'm': -1, 's': -2},
          'atm': {'kg': 1, 'm': -1, 's': -2}, 'J': {'kg': 1, 'm': 2, 's': -2},
          'UniversalIdealGasConstant': {'kg': 1, 'm': 2, 's': -2, 'K': -1, 'mol': -1}}
POOL = ['dimless', 'm', 's', 'J', 'c1', 'c3', 'm_s2', 'c5']


def bounds(tier):
    return "chains of <= %d operations" % (4 if tier == 'thorough' else 3)


def cases(tier):
    yield ['templates']
    for name in sut.TEMPLATES + sorted(CUSTOM):
        yield ['pairs', name]
    ops = ['*', '/', '+', '-']
    for a in POOL:
        for op in ops:
            for b in POOL:
                yield ['chain', a, op, b, 4 if tier == 'thorough' else 3]
        for e in POW:
            yield ['chain', a, '**', e, 4 if tier == 'thorough' else 3]


def fresh(name):
    if name in CUSTOM:
        # several units of the same name
        return sut.Unit('m' if name in ('c3', 'c5') else 'unit', dict(CUSTOM[name])), {k: float(v) for k, v in CUSTOM[name].items() if v}
    return getattr(sut.tu, name), {k: float(v) for k, v in EXPECT[name].items()}


def nz(d):
    return {k: v for k, v in d.items() if v != 0}


def same(a, b):
    a, b = nz(a), nz(b)
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-12 for k in a)


def model(op, a, b):
    if op in '+-':
        return dict(a) if same(a, b) else None
    if op == '**':
        return nz({k: v * b for k, v in a.items()})
    s = 1 if op == '*' else -1
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.) + s * v
    return nz(r)


def real(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b}[op]()


def do(ctx, op, ra, ma, rb, mb, what):
    """one operation on the real units, compared; returns (real, model) or None when refused."""
    want = model(op, ma, mb)
    ctx.step(what)
    units = [u for u in (ra, rb) if isinstance(u, sut.Unit)]
    names = [(u.name, u.description) for u in units]
    if want is None:
        ctx.raises(sut.DimensionalCoherenceError, lambda: real(op, ra, rb), what)
        ctx.state(('refused', op))
        return None
    got = real(op, ra, rb)
    ctx.check(isinstance(got, sut.Unit), "%s is not a unit: %r" % (what, got))
    ctx.check(same(sut.dims(got), want), lambda: "%s: expected %r, got %r" % (what, want, sut.dims(got)))
    for b in sut.BASE:
        ctx.check(b in got.dimension, "%s has no exponent for %s" % (what, b))
    ctx.eq([(u.name, u.description) for u in units], names, "names of the operands of " + what)
    if want == {}:
        ctx.check(same(sut.dims(sut.tu.m ** got), {'m': 1}), lambda: "a unit to the power of %s" % what)
    else:
        ctx.raises(sut.UnexpectedValueError, lambda: sut.tu.m ** got, "a unit to the power of " + what)
    ctx.check(set(got.dimension) == set(sut.BASE), "%s has exponents for %r" % (what, sorted(got.dimension)))
    ctx.state((op, tuple(sorted(want.items()))))
    return got, want


def textual(ctx, u, m, what):
    s = str(u)
    parts = dict(p.split('^') for p in s.split(' ') if p) if s else {}
    ctx.check(same({k: float(v) for k, v in parts.items()}, m), "%s prints as %r" % (what, s))


def run_case(case, ctx):
    snap = {n: {k: float(v) for k, v in e.items()} for n, e in EXPECT.items()}
    kind = case[0]
    if kind == 'templates':
        for n, e in snap.items():
            ctx.step(n)
            ctx.check(same(sut.dims(getattr(sut.tu, n)), e), lambda: "predefined unit %s is %r, expected %r" % (
                n, sut.dims(getattr(sut.tu, n)), e))
            textual(ctx, getattr(sut.tu, n), e, n)
        for k in range(1, 4):                   # construction from every dictionary over 3 dimensions
            for keys in itertools.combinations(sut.BASE, k):
                for vals in itertools.product([1, -2, 0.5, 0], repeat=k):
                    d = dict(zip(keys, vals))
                    given = dict(d)
                    u = sut.Unit('u', given)
                    ctx.step()
                    ctx.check(same(sut.dims(u), nz(d)), lambda: "unit made of %r has %r" % (d, sut.dims(u)))
                    ctx.eq(given, d, "dictionary given to a unit")
                    v = sut.Unit('v', u)
                    ctx.check(same(sut.dims(v), nz(d)), lambda: "unit made of the unit %r has %r" % (d, sut.dims(v)))
                    ctx.check(v.dimension is not u.dimension and u.dimension is not given, "units share exponents")
                    textual(ctx, u, nz(d), repr(d))
                    q = sut.Quantity('a', u, value=1.)
                    if nz(d):
                        ctx.raises(TypeError, lambda: sut.ops.Exp(q()), "Exp of a quantity in %r" % d)
                    else:
                        sut.ops.Exp(q())
    elif kind == 'pairs':
        ra, ma = fresh(case[1])
        others = [(n,) + fresh(n) for n in sut.TEMPLATES + sorted(CUSTOM)] + [(case[1] + ' itself', ra, ma)]
        for n, rb, mb in others:
            for op in '*/+-':
                do(ctx, op, ra, ma, rb, mb, "%s %s %s" % (case[1], op, n))
            ctx.check(same(sut.dims(ra), ma) and same(sut.dims(rb), mb), "an operand changed: %s %s" % (case[1], n))
            # power by a unit: only dimensionless ones
            if mb == {}:
                names = ra.name, rb.name
                got = ra ** rb
                ctx.eq((ra.name, rb.name), names, "names of the operands of %s ** %s" % (case[1], n))
                ctx.check(same(sut.dims(got), ma), "%s ** %s" % (case[1], n))
            else:
                ctx.raises(sut.UnexpectedValueError, lambda: ra ** rb, "%s ** %s" % (case[1], n))
        for e in POW:
            do(ctx, '**', ra, ma, e, e, "%s ** %r" % (case[1], e))
        for x in NUM:
            for op, val in (('*', x), ('/', 1. / x)):
                q = real(op, ra, x)
                ctx.step("%s %s %r" % (case[1], op, x))
                ctx.check(isinstance(q, sut.Quantity), "unit %s number is not a quantity" % op)
                ctx.close(q.value, val, "value of %s %s %r" % (case[1], op, x), 1e-12, 0)
                ctx.check(same(sut.dims(q.units), ma), "unit of %s %s %r" % (case[1], op, x))
        for bad in ('2', None, [1]):
            for op in '*/':
                ctx.raises(sut.UnexpectedValueError, lambda: real(op, ra, bad), "%s %s %r" % (case[1], op, bad))
            ctx.raises(sut.UnexpectedValueError, lambda: ra ** bad, "%s ** %r" % (case[1], bad))
        ctx.check(same(sut.dims(ra), ma), "%s changed" % case[1])
    else:
        _, a, op, b, depth = case
        base = [(a,) + fresh(a)]
        if op == '**':
            rb = mb = b
        else:
            rb, mb = fresh(b) if b != a else (base[0][1], base[0][2])
            base.append((b, rb, mb))
        first = do(ctx, op, base[0][1], base[0][2], rb, mb, "%s %s %s" % (a, op, b))
        if first is None:
            return
        live = base + [("(%s %s %s)" % (a, op, b),) + first]
        explore(ctx, live, depth - 1)
    for n, e in snap.items():
        ctx.check(same(sut.dims(getattr(sut.tu, n)), e), lambda: "predefined unit %s became %r" % (
            n, sut.dims(getattr(sut.tu, n))))
    ctx.eq(dict(sut.null_dimension), {k: 0.0 for k in sut.BASE}, "the null dimension")


def explore(ctx, live, depth):
    """Every continuation: the last unit combined with every live unit (itself included), both sides."""
    if depth == 0:
        for n, r, m in live:
            ctx.check(same(sut.dims(r), m), lambda: "%s changed to %r" % (n, sut.dims(r)))
        return
    n0, r0, m0 = live[-1]
    for n, r, m in live:
        for op in '*/+-':
            for (x, y) in (((n0, r0, m0), (n, r, m)), ((n, r, m), (n0, r0, m0))):
                got = do(ctx, op, x[1], x[2], y[1], y[2], "%s %s %s" % (x[0], op, y[0]))
                if got is not None:
                    explore(ctx, live + [("(%s %s %s)" % (x[0], op, y[0]),) + got], depth - 1)
                if r is r0:
                    break
    for e in (2, -1, 0.5, 1. / 3):
        got = do(ctx, '**', r0, m0, e, e, "%s ** %r" % (n0, e))
        explore(ctx, live + [("%s**%r" % (n0, e),) + got], depth - 1)
