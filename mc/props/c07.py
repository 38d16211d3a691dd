"""C07: arithmetic between quantities."""
from .. import sut

CHUNK = 4
RULE = ("every chain of <=3 (thorough: <=4) arithmetic operations (+ - * / **) over quantities of the four kinds, the same "
        "object occurring on both sides included; value and dimension of each result and of all earlier objects "
        "compared with plain numbers and exponent vectors")
KINDS = ['Quantity', 'Variable', 'Parameter', 'Constant']
BASE = [('a', {'m': 1}, 2.5000371), ('b', {'m': 1}, -1.25), ('c', {'s': 1}, 4), ('k', {}, 3), ('z', {'m': 1}, 0),
        ('h', {}, 0.5)]


def bounds(tier):
    return "chains of <= %d operations over 6 quantities of each kind" % (4 if tier == 'thorough' else 3)


def cases(tier):
    d = 4 if tier == 'thorough' else 3
    for kind in KINDS:
        for x in range(len(BASE)):
            for op in '+-*/^':
                for y in range(len(BASE)):
                    yield [kind, x, op, y, d]


def nz(d):
    return {k: v for k, v in d.items() if abs(v) > 1e-15}


def model(op, a, b):
    (da, va), (db, vb) = a, b
    if op in '+-':
        if nz(da) != nz(db):
            return 'refuse'
        return da, (va + vb if op == '+' else va - vb)
    if op == '^':
        if nz(db) != {}:
            return None                                   # not fixed by the property
        try:
            v = float(va) ** float(vb)
        except (ZeroDivisionError, OverflowError):
            return None
        if isinstance(v, complex):
            return None
        return nz({k: x * vb for k, x in da.items()}), v
    s = 1 if op == '*' else -1
    if op == '/' and vb == 0:
        return None
    r = dict(da)
    for k, x in db.items():
        r[k] = r.get(k, 0.) + s * x
    return nz(r), (va * vb if op == '*' else va / vb)


def real(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '^': lambda: a ** b}[op]()


def check(ctx, o, m, what):
    ctx.close(o.value, m[1], "value of " + what, 1e-12, 1e-12)
    got = sut.dims(o.units)
    ctx.check(set(got) == set(nz(m[0])) and all(abs(got[k] - m[0][k]) < 1e-9 for k in got),
              lambda: "unit of %s: expected %r, got %r" % (what, nz(m[0]), got))


def do(ctx, kind, op, x, y):
    what = "(%s %s %s)" % (x[0], op, y[0])
    m = model(op, x[2], y[2])
    if m is None:
        ctx.skip()
        return None
    if abs(m[1]) > 1e12 if m != 'refuse' else False:
        ctx.skip()
        return None
    ctx.step(what)
    if m == 'refuse':
        ctx.raises(sut.DimensionalCoherenceError, lambda: real(op, x[1], y[1]), what)
        ctx.state((kind, op, 'refused'))
        return None
    o = real(op, x[1], y[1])
    ctx.check(type(o) is getattr(sut, kind), "%s is a %s" % (what, type(o).__name__))
    ctx.check(o is not x[1] and o is not y[1], "%s returned one of its operands" % what)
    check(ctx, o, m, what)
    ctx.state((kind, op, tuple(sorted(nz(m[0]).items())), round(m[1], 9)))
    return what, o, m


def explore(ctx, kind, live, depth):
    if depth == 0:
        for n, o, m in live:
            check(ctx, o, m, n)
        return
    last = live[-1]
    for other in live:
        for op in '+-*/^':
            for x, y in ((last, other), (other, last)):
                r = do(ctx, kind, op, x, y)
                if r is not None:
                    explore(ctx, kind, live + [r], depth - 1)
                if other is last:
                    break


def run_case(case, ctx):
    kind, i, op, j, depth = case
    cls = getattr(sut, kind)
    objs = []
    for n, d, v in BASE:
        o = cls(n, sut.Unit('', dict(d)), '', value=v)
        objs.append((n, o, ({k: float(x) for k, x in d.items()}, v)))
    flags = [(o.is_specified, o.name, id(o.units)) for _, o, _ in objs]
    r = do(ctx, kind, op, objs[i], objs[j])
    live = [objs[i]] + ([objs[j]] if j != i else [])
    if r is not None:
        explore(ctx, kind, live + [r], depth - 1)
    for n, o, m in objs:
        check(ctx, o, m, n)
    ctx.eq([(o.is_specified, o.name, id(o.units)) for _, o, _ in objs], flags, "operands")
