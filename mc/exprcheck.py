"""Shared exploration of expression programs: every program of a bounded size over a bounded alphabet."""
from . import expr as E


def alphabet(prop, tier):
    """leaves, numbers of the roots and of the extensions."""
    if prop == 'units':
        a = ['x', 'y', 'z', 'w', 'q', 'p', 'k', 'h', 'l', 'Dx', 'Dw', 'Dz', 'Gx', 'Gw'], [2, -1, 0.5, 0]
    elif prop == 'value':
        a = ['x', 'y', 'w', 'v', 'n', 'k', 'h', 'o', 'p', 'e'], [2, -1, 0.5, 0, -3.25, 1.5]
    elif prop == 'maps':
        a = ['x', 'y', 'w', 'q', 'u', 'p', 'k', 'e'], [2, -0.5]
    else:
        a = ['x', 'w', 'v', 'q', 'n', 'k', 'h', 'p', 'Dw', 'Dx', 'Gx', 'e'], [2, -0.5, 1]
    return a


def roots(prop, tier):
    leaves, numbers = alphabet(prop, tier)
    for l in leaves:
        yield l
    for n in numbers:
        for f in E.FUN1:
            yield [f, n]
    for f in E.FUNN:
        yield [f, numbers[0], numbers[1]]
    seen = set()
    for l in leaves:
        for p in E.extend(l, leaves, numbers):
            s = repr(p)
            if s not in seen:
                seen.add(s)
                yield p


def ternary():
    """Min/Max of three objects (n-ary operators)."""
    for f in E.FUNN:
        for a in ('x', 'p', 2):
            for b in ('y', 'q', 'x', -1):
                for c in ('x', 'z', 0.5):
                    yield [f, a, b, c]
        for a in ('w', 'v', 'k', 2):
            for b in ('w', 'n', 'h'):
                for c in ('v', 'k', -0.5):
                    yield [f, a, b, c]


def valid(prog):
    """Reference of a program, None when refused or undefined."""
    try:
        r = E.ref(prog)
    except (E.Rejected, E.Undefined):
        return None
    return r if E.constructible(r) else None


_REPS = {}


def reps(prop):
    """Expressions of one operation, one per kind of result and operator: both sides of the next operation."""
    if prop not in _REPS:
        seen = {}
        for p in roots(prop, 'quick'):
            r = valid(p) if isinstance(p, list) else None
            if r is not None:
                d = None if r.d is None else tuple(sorted(r.d.items()))
                seen.setdefault((p[0], d, bool(r.vmap), r.lin, r.diff), p)
        _REPS[prop] = list(seen.values())
    return _REPS[prop]


def cases(prop, tier):
    for r in roots(prop, tier):
        yield r
    for p in reps(prop):
        yield ['&', p]
    for r in ternary():
        yield r
    for i in range(len(CHAINS[prop]) if tier == 'thorough' else 3):
        for op in CHAIN_OPS:
            yield ['~', i, op]
    if tier == 'thorough':
        leaves, numbers = alphabet(prop, tier)
        leaves = [l for l in leaves if l in ('x', 'w', 'k', 'p', 'Dw', 'h', 'z')]
        numbers = numbers[:2]
        seen = set()
        for l in leaves:
            for p in E.extend(l, leaves, numbers, fun1=['Log', 'Exp'], funn=['Min']):
                if valid(p) is None:
                    continue
                for p2 in E.extend(p, leaves, numbers, fun1=['Log', 'Sqrt', 'Abs', 'Sin'], funn=['Max']):
                    s = repr(p2)
                    if s not in seen:
                        seen.add(s)
                        yield ['#', p2]


# the operands, in turn, of long expressions
CHAINS = {
    'units': [['x', 'p', 'y', 'q', 'x', 'p'], ['w', 2, 'n', 'h', 'u', 'Dz'], ['x', 'l', 'z', 'Gx', 2, 'k'],
              ['Dx', 'l', 'Dx', 'z', 'z', 'w'], [2, 'x', 0.5, 'q', 'k', 'y'], ['k', 'h', 'w', 'v', 'o', 'n']],
    'value': [['w', 'v', 'n', 'k', 'x', 'e'], [2, 'x', 'y', -3.25, 'h', 'p'], ['k', 'h', 'e', 'w', 'o', 'y'],
              ['x', 'x', 'x', 'w', 'x', 'x'], ['e', 'n', 'u', 0.5, 'v', 'w'], ['y', 1.5, 'q', 2, 'k', -1]],
    'maps': [['x', 'y', 'q', 'p', 'x', 'y'], ['w', 'u', 'k', 'n', 'e', 'v'], [2, 'k', 'w', 'h', 'w', 'o'],
             ['p', 'x', 0.5, 'p', 'q', -1], ['o', 'w', 'o', 'v', 'e', 'u'], ['v', 2, 'v', 'k', 'v', 'n']],
    'type': [['k', 'h', 'w', 'e', 'v', 2], ['x', 'p', 'q', 'l', 'y', 'o'], [2, 'w', 'k', 'Dz', 'n', 'h'],
             ['h', 2, 'k', 'e', 'o', 'w'], ['w', -0.5, 'Dz', 'h', 'k', 'v'], ['p', 'k', 'x', 0.5, 'l', 'e']],
}
CHAIN_OPS = ['+', '-', '*', '/', 'r-', 'r/']


def run_chain(prop, case, ctx, check):
    """every expression a1 o a2 o a3 ... of up to 5 (thorough: 6) operands in the order of the chain, each operation either way"""
    names = CHAINS[prop][case[1]][:6 if ctx.tier == 'thorough' else 5]
    world = E.World()

    def step(node, r, prog, i, op):
        a, b = prog, names[i]
        rev = op[0] == 'r'
        new = [op[-1], b, a] if rev else [op, a, b]
        rb = E.ref(b)
        args_ref = [rb, r] if rev else [r, rb]
        if E.pairs(new[0], new[1], new[2]) is None:
            return
        nb = world.build(b)
        args = [nb, node] if rev else [node, nb]
        try:
            rn = E.apply_ref(new[0], args_ref)
        except E.Undefined:
            return ctx.skip()
        except E.Rejected as rej:
            ctx.step(E.show(new) + ' must be refused')
            return refuse(lambda: world.apply(new[0], args), new, rej, ctx)
        if not E.constructible(rn):
            return ctx.skip()
        out = world.apply(new[0], args)
        ctx.step(E.show(new))
        check(world, new, rn, out)
        if i + 1 < len(names):
            for o in CHAIN_OPS:
                step(out, rn, new, i + 1, o)
    step(world.build(names[0]), E.ref(names[0]), names[0], 1, case[2])


def children(prop, tier, root, reduced):
    leaves, numbers = alphabet(prop, tier)
    if reduced:
        leaves = [l for l in leaves if l in ('x', 'w', 'k', 'Dw', 'h', 'z', 'v')]
        numbers = numbers[:2]
    if reduced == '&':
        for other in reps(prop):
            for op in E.BIN + E.FUNN:
                yield [op, root, other]
        return
    for p in E.extend(root, leaves, numbers):
        yield p


def run(prop, case, ctx, check, on_reject=None):
    """Builds the root and every one-operation extension of it; `check(world, prog, refnode, node)`."""
    if isinstance(case, list) and case[0] == '~':
        return run_chain(prop, case, ctx, check)
    reduced = isinstance(case, list) and case[0] in '#&' and case[0]
    root = case[1] if reduced else case
    world = E.World()
    try:
        rr = E.ref(root)
    except E.Undefined:
        return ctx.skip()
    except E.Rejected as rej:
        expect_rejected(world, root, rej, ctx)
        return
    if not E.constructible(rr):
        return ctx.skip()
    node = world.build(root)
    ctx.step(E.show(root))
    check(world, root, rr, node)
    before = E.contents(node)
    for prog in children(prop, ctx.tier, root, reduced):
        args_ref = [rr if a is root or a == root else E.ref(a) for a in prog[1:]]
        try:
            r = E.apply_ref(prog[0], args_ref)
        except E.Undefined:
            ctx.skip()
            continue
        except E.Rejected as rej:
            args = [node if a == root else world.build(a) for a in prog[1:]]
            ctx.step(E.show(prog) + ' must be refused')
            refuse(lambda: world.apply(prog[0], args), prog, rej, ctx)
            continue
        if not E.constructible(r):
            ctx.skip()
            continue
        args = [node if a == root else world.build(a) for a in prog[1:]]
        new = world.apply(prog[0], args)
        ctx.step(E.show(prog))
        check(world, prog, r, new)
    if E.contents(node) != before:
        ctx.check(False, "building further expressions on %s altered it: %r -> %r" % (
            E.show(root), before, E.contents(node)))


def refuse(fn, prog, rej, ctx):
    try:
        got = fn()
    except Exception as e:
        names = {c.__name__ for c in type(e).__mro__}
        ctx.check(names & set(rej.kinds), "%s (%s): expected %s, got %s: %s" % (
            E.show(prog), rej.why, '/'.join(rej.kinds), type(e).__name__, e))
        ctx.state(('refused', rej.why))
        return
    ctx.check(False, "%s (%s) was accepted, with dimension %r" % (
        E.show(prog), rej.why, getattr(getattr(got, 'unit_object', None), 'dimension', None)))


def expect_rejected(world, root, rej, ctx):
    """The root itself is refused: its arguments are not (they are roots of their own)."""
    try:
        args_ok = all(valid(a) is not None for a in root[1:])
    except Exception:
        args_ok = False
    if not args_ok:
        return ctx.skip()
    args = [world.build(a) for a in root[1:]]
    ctx.step(E.show(root) + ' must be refused')
    refuse(lambda: world.apply(root[0], args), root, rej, ctx)
