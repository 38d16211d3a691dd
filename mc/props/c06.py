"""C06: assignment of values to quantities."""
import itertools
import numpy as np
from .. import sut, expr as E

CHUNK = 8
RULE = ("every history of <=3 (thorough: <=4) assignments (numbers, numbers with units, quantities, invalid values) on "
        "variables, parameters, constants and quantities, created with or without a value; value, specified flag, unit and the expressions built "
        "before/after each step are compared with a reference record")
OPS = ['int', 'float', 'zero', 'neg', 'npf', 'num@ok', 'num@same', 'num@bad', 'q@ok', 'q@bad', 'q0@ok', 'q raw', 'self', 'str',
       'none', 'list', 'str@ok', 'none@ok', 'q@unit', 'q@bad unit', 'other kind', 'unit']
KINDS = ['Quantity', 'Variable', 'Parameter', 'Constant']
UNITS = {'m': ({'m': 1}, {'s': 1}), 'dimless': ({}, {'m': 1}), 'm/s': ({'m': 1, 's': -1}, {'m': 1, 's': 1})}


def bounds(tier):
    return "histories of <= %d assignments, 4 kinds, 3 units" % (4 if tier == 'thorough' else 3)


def cases(tier):
    for k in KINDS:
        for u in UNITS:
            yield [k, u, [], 1]
    depth = 4 if tier == 'thorough' else 3
    for k in KINDS:
        for u in UNITS:
            if tier != 'thorough' and u == 'm/s':
                continue
            for o in OPS:
                yield [k, u, [o], depth - 1]


class Rec:
    pass


def make(kind, u, given=False):
    d, bad = UNITS[u]
    cls = getattr(sut, kind)
    r = Rec()
    r.cls = cls
    r.good = lambda: sut.Unit('g', dict(d))
    r.same = r.good()
    r.bad = sut.Unit('b', dict(bad))
    r.o = cls('a', r.same, 'd')
    r.d = {k: float(v) for k, v in d.items()}
    r.value = r.o.value
    r.spec = False
    r.nodes = []
    if given:
        r.o = cls('a', r.same, 'd', value=6.25, is_specified=True)
        r.value, r.spec = 6.25, True
    return r


def apply(ctx, r, op, i):
    o = r.o
    src = None
    arg = {'int': [3, 2 ** 53 + 1, -7][i % 3], 'float': [2.5000012345, 1.25e-9, 123456789.125][i % 3] + i, 'zero': 0, 'neg': -1.25 * (i + 1), 'npf': np.float64(4.5 + i)}.get(op)
    err = None
    if arg is not None:
        call = lambda: o.setValue(arg)
        new = arg
    elif op == 'num@ok':
        call, new = (lambda: o.setValue(7.25 + i, r.good())), 7.25 + i
    elif op == 'num@same':
        call, new = (lambda: o.setValue(8 + i, o.units)), 8 + i
    elif op == 'num@bad':
        v = 9 if i % 2 else 9.5
        call, err = (lambda: o.setValue(v, r.bad)), (sut.UnexpectedValueError, sut.DimensionalCoherenceError)
    elif op in ('q@ok', 'q0@ok'):
        new = 11.5 + i if op == 'q@ok' else 0.
        src = r.cls('src', r.good(), '')
        src.setValue(new)
        call = lambda: o.setValue(src)
    elif op == 'q raw':                       # a declared object which has a value by default
        new = 15.25 + i
        src = r.cls('src_M', r.good(), '', value=new, owner_model_name='M')
        call = lambda: o.setValue(src)
    elif op == 'q@bad':
        src = r.cls('src', r.bad, '')
        src.setValue(12.5)
        call, err = (lambda: o.setValue(src)), (sut.DimensionalCoherenceError,)
    elif op == 'self':
        call, new = (lambda: o.setValue(o)), r.value
    elif op in ('q@unit', 'q@bad unit'):                       # a quantity has its own unit: none can be given with it
        other = r.cls('src', r.good(), '')
        other.setValue(13.5)
        bad = r.good() if op == 'q@unit' else r.bad
        call, err = (lambda: o.setValue(other, bad)), (sut.UnexpectedValueError, sut.DimensionalCoherenceError)
    elif op == 'other kind':
        kind = {'Variable': 'Parameter', 'Parameter': 'Constant', 'Constant': 'Variable'}.get(r.cls.__name__)
        other = r.good() if kind is None else getattr(sut, kind)('src', r.good(), '')
        if kind is not None:
            other.setValue(14.5)
        call, err = (lambda: o.setValue(other)), (sut.UnexpectedValueError, sut.DimensionalCoherenceError)
    elif op == 'unit':
        call, err = (lambda: o.setValue(r.same)), (sut.UnexpectedValueError,)
    elif op in ('str', 'none', 'list'):
        bad = {'str': '5', 'none': None, 'list': [1.]}[op]
        call, err = (lambda: o.setValue(bad)), (sut.UnexpectedValueError,)
    else:
        bad = '5' if op.startswith('str') else None
        call, err = (lambda: o.setValue(bad, r.good())), (sut.UnexpectedValueError,)
    ctx.step("%s" % op)
    units = o.units
    srcval = (src.value, sut.dims(src.units), src.name) if src is not None else None
    if err is not None:
        ctx.raises(err, call, "assignment '%s'" % op)
    else:
        call()
        r.value, r.spec = new, True
    if src is not None:
        ctx.eq((src.value, sut.dims(src.units), src.name), srcval, "source of the assignment '%s'" % op)
        if err is None:
            src.setValue(-99.)
    observe(ctx, r, op, units)


def observe(ctx, r, op, units):
    o = r.o
    ctx.check(o.value == r.value and type(o.value) is not str, "after '%s': value %r, expected %r" % (
        op, o.value, r.value))
    ctx.eq(o.is_specified, r.spec, "after '%s': specified" % op)
    ctx.check(o.units is units and sut.dims(o.units) == r.d, "after '%s': the unit changed" % op)
    ctx.eq(o.name, 'a', "name")
    node = o()
    if r.spec:
        ctx.eq(dict(node.variable_map), {}, "after '%s': unspecified objects of the expression" % op)
        ctx.close(sut.Equation('e', '', node).eval({}), r.value, "after '%s': value of the expression" % op, 1e-12, 0)
        ctx.close(sut.Equation('e', '', node * 1).getResidual(), r.value, "after '%s': residual" % op, 1e-12, 0)
    else:
        ctx.eq(list(node.variable_map), ['a'], "after '%s': unspecified objects of the expression" % op)
        ctx.check(node.variable_map['a'] is o, "expression refers to another object")
        ctx.close(sut.Equation('e', '', node).eval({'a': 6.5}), 6.5, "after '%s': value of the expression" % op)
    ctx.eq(list(node.symbolic_map), ['a'], "objects of the expression")
    ctx.check(node.symbolic_map['a'] is o, "expression refers to another object")
    ctx.eq(sut.dims(node.unit_object), r.d, "unit of the expression")
    ctx.eq(repr(node), 'a', "textual form")
    for n, c in r.nodes:
        ctx.eq(E.contents(n), c, "after '%s': an expression built earlier" % op)
    r.nodes.append((node, E.contents(node)))
    r.nodes = r.nodes[-3:]
    ctx.state((r.cls.__name__, tuple(r.d), float(r.value), r.spec))


def run_case(case, ctx):
    kind, u, prefix, more = case
    for given in (False, True) if kind in ('Parameter', 'Constant') else (False,):
        explore(kind, u, given, prefix, more, ctx)


def explore(kind, u, given, prefix, more, ctx):
    for rest in itertools.product(OPS, repeat=more):
        r = make(kind, u, given)
        other = r.cls('other', r.same, '')
        if not prefix:
            observe(ctx, r, 'nothing', r.o.units)
        for i, op in enumerate(prefix + list(rest)):
            apply(ctx, r, op, i)
        ctx.check(other.value == make(kind, u).value and other.is_specified is False,
                  "another object was given a value")
