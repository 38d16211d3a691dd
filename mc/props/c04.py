"""C04: which objects an expression refers to; operations have no side effects."""
from .. import expr as E, exprcheck as X, sut

CHUNK = 4
RULE = ("every expression of <=2 (thorough: <=3) operations, of 3 operations with two composed sides, and long ones of 5 (thorough: 6) operands joined in every way by + - * /: the objects it reports as used are exactly those of its "
        "leaves (the very objects), the unknown ones exactly the unspecified; operands, leaf objects and units are "
        "unchanged; expressions built before an object receives a value keep reporting what they did")


def bounds(tier):
    return "operations per expression <= %d" % (3 if tier == 'thorough' else 2)


def cases(tier):
    return X.cases('maps', tier)


def snapshot(world):
    return {n: (o.name, o.value, o.is_specified, tuple(sorted(sut.dims(o.units).items())), id(o.units))
            for n, o in world.obj.items()}


def run_case(case, ctx):
    built = []
    first = {}

    def check(world, prog, r, node):
        if 'w' not in first:
            first['w'] = world
            first['s'] = snapshot(world)
        ctx.eq(sorted(node.symbolic_map), sorted(r.smap), "objects used by %s" % E.show(prog))
        ctx.eq(sorted(node.variable_map), sorted(r.vmap), "unspecified objects used by %s" % E.show(prog))
        for m in (node.symbolic_map, node.variable_map):
            for n, o in m.items():
                ctx.check(o is world.obj[n], "%s refers to a %r which is not the object it was built from" % (
                    E.show(prog), n))
        for _, other, _ in built[-3:]:
            ctx.check(other is not node and other.symbolic_map is not node.symbolic_map
                      and other.variable_map is not node.variable_map, "two expressions share their bookkeeping")
        if len(built) < 40:
            built.append((prog, node, E.contents(node)))
        ctx.state((tuple(sorted(r.smap)), tuple(sorted(r.vmap))))
    X.run('maps', case, ctx, check)
    if not built:
        return
    world = first['w']
    ctx.eq(snapshot(world), first['s'], "leaf objects after building the expressions")
    # history: values are given to the objects only now
    for n in 'xqu':
        world.obj[n].setValue(7.5)
    world.obj['p'].setValue(-4.)
    ctx.step('setValue x q u p', 4)
    for prog, node, c in built:
        ctx.eq(E.contents(node), c, "expression %s after values were assigned to its objects" % E.show(prog))
