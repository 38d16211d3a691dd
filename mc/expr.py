"""Expression programs: grammar, reference semantics, and the builder of the real objects.

A program is a JSON value: "name" (a leaf object), a number, or [op, arg, ...].
"""
import math
import itertools
from . import sut

# leaf: (kind, unit exponents, specified value or None)
LEAVES = {
    'x': ('var', {'m': 1}, None),
    'y': ('var', {'m': 1}, None),
    'z': ('var', {'s': 1}, None),
    'w': ('var', {}, None),
    'v': ('var', {}, None),
    'q': ('par', {'m': 1}, None),
    'n': ('par', {}, None),
    'u': ('con', {}, None),
    'p': ('par', {'m': 1}, 2.5000371),
    'k': ('con', {}, 3),
    'h': ('par', {}, -0.5),
    'o': ('con', {}, 0),
    'l': ('con', {'m': 1, 's': -1}, 1234.5678),
    'e': ('var', {}, 1.5000007),           # a variable to which a value was given
}
ENVS = [
    {'x': 1.3000057, 'y': 2.1, 'z': 0.7, 'w': 0.6, 'v': 1.9, 'q': 3.2, 'n': 1.45, 'u': 0.8},
    {'x': -0.4, 'y': 1.7, 'z': -2.3, 'w': 2.2, 'v': -0.35, 'q': 0.9, 'n': -1.6, 'u': 2.75},
]
SPEC = {k: v[2] for k, v in LEAVES.items() if v[2] is not None}
BIN = ['+', '-', '*', '/', '**']
FUN1 = ['Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan']
FUNN = ['Min', 'Max']


class Undefined(Exception):
    pass


class Rejected(Exception):
    """The reference says the construction must be refused."""

    def __init__(self, why, kinds):
        super().__init__(why)
        self.why, self.kinds = why, kinds


class R:
    """Reference node."""
    __slots__ = ('f', 'd', 'smap', 'vmap', 'diff', 'lin', 'num', 'cval')

    def __init__(self, f, d, smap, vmap, diff, lin, num=False):
        self.f = f            # env -> float (raises Undefined)
        self.d = d            # dimension or None (not fixed by the property)
        self.smap = smap      # names appearing
        self.vmap = vmap      # names appearing that were not specified
        self.diff = diff      # contains a derivative
        self.lin = lin        # True: must be linear; False: must be nonlinear; None: not fixed
        self.num = num        # a plain number
        self.cval = None


def _num(c):
    return R(lambda env: float(c), {}, frozenset(), frozenset(), False, True, True)


def leaf(name):
    if name[0] in 'DG':                                 # derivatives by time and by a length
        base = name[1]
        d = dict(LEAVES[base][1])
        u = 's' if name[0] == 'D' else 'm'
        d[u] = d.get(u, 0) - 1

        def f(env):
            raise Undefined
        return R(f, _norm(d), frozenset(base), frozenset(base), True, None)
    kind, d, val = LEAVES[name]
    if val is not None:
        return R(lambda env: float(val), dict(d), frozenset(name), frozenset(), False, True)
    return R(lambda env: env[name], dict(d), frozenset(name), frozenset(name), False, True)


def _norm(d):
    return {k: float(v) for k, v in d.items() if float(v) != 0.}


def same(a, b):
    a, b = _norm(a), _norm(b)
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-12 for k in a)


def scale(d, e):
    return _norm({k: v * e for k, v in d.items()})


def combine(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.) + s * v
    return _norm(r)


def _lin_sum(args):
    l = [a.lin for a in args]
    if any(x is False for x in l):
        return False
    return True if all(x is True for x in l) else None


def _safe(fn, *a):
    try:
        r = fn(*a)
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Undefined
    if isinstance(r, complex) or r != r or abs(r) > 1e100:
        raise Undefined
    return r


def apply_ref(op, args):
    smap = frozenset().union(*[a.smap for a in args])
    vmap = frozenset().union(*[a.vmap for a in args])
    diff = any(a.diff for a in args)
    fs = [a.f for a in args]

    def node(f, d, lin):
        return R(f, d, smap, vmap, diff, lin, all(a.num for a in args))

    if op in ('+', '-'):
        a, b = args
        if a.num or b.num:
            d = b.d if a.num else a.d
        else:
            if a.d is None or b.d is None:
                raise Undefined
            if not same(a.d, b.d):
                raise Rejected('sum of different dimensions', ('DimensionalCoherenceError',))
            d = a.d
        f = (lambda env: fs[0](env) + fs[1](env)) if op == '+' else (lambda env: fs[0](env) - fs[1](env))
        return node(f, d, _lin_sum(args))
    if op == '*':
        a, b = args
        d = None if a.d is None or b.d is None else combine(a.d, b.d, 1)
        if a.vmap and b.vmap:
            lin = False
        elif a.vmap:
            lin = a.lin
        elif b.vmap:
            lin = b.lin
        else:
            lin = None if not (a.lin is True and b.lin is True) else True
        return node(lambda env: fs[0](env) * fs[1](env), d, lin)
    if op == '/':
        a, b = args
        d = None if a.d is None or b.d is None else combine(a.d, b.d, -1)
        if b.vmap:
            lin = False
        else:
            lin = a.lin if a.vmap else (True if a.lin is True and b.lin is True and not a.num else None)

        def f(env):
            x, y = fs[0](env), fs[1](env)
            if y == 0:
                raise Undefined
            return x / y
        if a.num and not b.vmap:
            lin = None
        return node(f, d, lin)
    if op == '**':
        a, b = args
        if b.num:
            e = b.f({})
            d = None if a.d is None else scale(a.d, e)
        else:
            if b.d is None:
                raise Undefined
            if not same(b.d, {}):
                raise Rejected('dimensional exponent', ('DimensionalCoherenceError',))
            if b.vmap:
                d = {} if a.d is not None and same(a.d, {}) else None
            else:
                d = None if a.d is None else scale(a.d, b.f({}))
        if not a.vmap and not b.vmap:
            lin = None
        elif not b.vmap:
            e = b.f({})
            lin = None if e in (0., 1.) else False
        else:
            lin = False

        def f(env):
            x, y = fs[0](env), fs[1](env)
            if abs(x) < 1e-12 and y <= 0:
                raise Undefined
            return _safe(lambda x, y: x ** y, x, y)
        return node(f, d, lin)
    if op in FUN1:
        a, = args
        if not a.num:
            if a.d is None:
                raise Undefined
            if not same(a.d, {}):
                raise Rejected('dimensional argument of ' + op, ('TypeError', 'NonDimensionalArgumentError',
                                                               'DimensionalCoherenceError', 'UnexpectedValueError'))
        g = {'Log': math.log, 'Log10': math.log10, 'Sqrt': math.sqrt, 'Abs': abs, 'Exp': math.exp, 'Sin': math.sin,
             'Cos': math.cos, 'Tan': math.tan}[op]
        r = node(lambda env: _safe(g, fs[0](env)), {}, False if a.vmap else None)
        r.num = False
        return r
    if op in FUNN:
        nodes = [a for a in args if not a.num]
        if any(a.d is None for a in nodes):
            raise Undefined
        if nodes and not all(same(a.d, nodes[0].d) for a in nodes):
            raise Rejected(op + ' of different dimensions', ('UnexpectedValueError', 'DimensionalCoherenceError',
                                                            'TypeError'))
        d = nodes[0].d if nodes else {}
        g = min if op == 'Min' else max
        lin = (None if len(args) == 1 else False) if vmap else None
        r = node(lambda env: g(f(env) for f in fs), d, lin)
        r.num = False
        return r
    raise AssertionError(op)


def ref(prog):
    if isinstance(prog, str):
        return leaf(prog)
    if isinstance(prog, (int, float)):
        return _num(prog)
    return apply_ref(prog[0], [ref(a) for a in prog[1:]])


def constructible(r):
    """A program all of whose leaves are specified is computed when it is built: it must be defined."""
    if r.vmap:
        return True
    try:
        r.f({})
        return True
    except Undefined:
        return False


# --------------------------------------------------------------------------------- the real objects

class World:
    """Fresh real objects for the leaves."""

    def __init__(self, suffix=''):
        S = sut
        self.obj = {}
        self.suffix = suffix
        self.t = S.Variable('t' + suffix, S.tu.s, 'time')
        self.r = S.Variable('r' + suffix, S.tu.m, 'length')
        self.dom = S.Domain('dom', S.tu.s, [self.t, self.r])
        for n, (kind, d, val) in LEAVES.items():
            cls = {'var': S.Variable, 'par': S.Parameter, 'con': S.Constant}[kind]
            o = cls(n + suffix, S.Unit('', dict(d)), n)
            if val is not None:
                o.setValue(val)
            self.obj[n] = o
        for n in 'xyzwv':
            self.obj[n].distributeOnDomain(self.dom)
        self.cache = {}

    def leaf(self, name):
        if name[0] in 'DG':
            return self.obj[name[1]].Diff(self.t if name[0] == 'D' else self.r)
        return self.obj[name]()

    def apply(self, op, args):
        o = sut.ops
        if op == '+':
            return args[0] + args[1]
        if op == '-':
            return args[0] - args[1]
        if op == '*':
            return args[0] * args[1]
        if op == '/':
            return args[0] / args[1]
        if op == '**':
            return args[0] ** args[1]
        return getattr(o, op)(*args)

    def build(self, prog):
        if isinstance(prog, str):
            return self.leaf(prog)
        if isinstance(prog, (int, float)):
            return prog
        return self.apply(prog[0], [self.build(a) for a in prog[1:]])


def key_type(node):
    t = [k for k in ('is_linear', 'is_nonlinear', 'is_differential') if node.equation_type.get(k)]
    return {'is_linear': 'linear', 'is_nonlinear': 'nonlinear', 'is_differential': 'differential'}[t[0]] \
        if len(t) == 1 else 'ambiguous:%r' % (node.equation_type,)


def contents(node):
    """Everything observable about a node."""
    return (str(node), repr(node), tuple(sorted(node.symbolic_map)), tuple(sorted(node.variable_map)),
            tuple(sorted((k, id(v)) for k, v in node.symbolic_map.items())),
            tuple(sorted(sut.dims(node.unit_object).items())), tuple(sorted(node.equation_type.items())), node.name)


# ------------------------------------------------------------------------------------------ programs

def level1(leaves):
    return list(leaves)


def pairs(op, a, b):
    """op applied to a and b, skipping what Python itself does not route to the expression classes."""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None
    if op == '**' and isinstance(a, (int, float)):
        return None
    return [op, a, b]


def extend(prog, leaves, numbers, bins=BIN, fun1=FUN1, funn=FUNN, self_pairs=True):
    """Every program with one more operation on top of `prog`."""
    for op in bins:
        for l in list(leaves) + list(numbers):
            p = pairs(op, prog, l)
            if p is not None:
                yield p
            if l != prog:
                p = pairs(op, l, prog)
                if p is not None:
                    yield p
        if self_pairs and not isinstance(prog, (int, float, str)):
            yield [op, prog, prog]
    for f in fun1:
        yield [f, prog]
    for f in funn:
        yield [f, prog]
        for l in list(leaves) + list(numbers):
            yield [f, prog, l]
            yield [f, l, prog]


def uses_number_only(prog):
    if isinstance(prog, str):
        return False
    if isinstance(prog, (int, float)):
        return True
    return all(uses_number_only(a) for a in prog[1:])


def show(prog):
    if not isinstance(prog, list):
        return str(prog)
    if prog[0] in BIN:
        return '(%s %s %s)' % (show(prog[1]), prog[0], show(prog[2]))
    return '%s(%s)' % (prog[0], ', '.join(show(a) for a in prog[1:]))
