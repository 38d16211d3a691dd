"""C17: histories of domains."""
import itertools
import numpy as np
from .. import sut

CHUNK = 4
RULE = ("every history of <=4 (thorough: <=5) steps over two domains (one to three independent variables) that share variables: "
        "distribute, register one or several rows, arrays or lists, rows equal to the last one, for either independent variable, malformed rows, "
        "rename, reset, read; after each step the tables of both domains compared with reference tables")
OPS = ['dist a', 'dist b', 'dist a on F', 'reg', 'reg2', 'reglist', 'regsame', 'regfirst', 'bad', 'bad0', 'rename', 'rename t', 'rename none', 'swap',
       'reset', 'call', 'regF', 'resetF', 'read']


def bounds(tier):
    return "histories of <= %d steps from %d" % (5 if tier == 'thorough' else 4, len(OPS))


def cases(tier):
    for two in (False, True, 3):
        for a in OPS:
            for b in OPS:
                yield [two, [a, b], (3 if tier == 'thorough' else 2) - (two == 3)]


class Ref:
    def __init__(self, ind):
        self.ind = ind
        self.dep = []
        self.set = False
        self.tab = {}

    def reset(self):
        self.set = True
        self.tab = {i: [list(self.ind) + list(self.dep), []] for i in self.ind}


def world(two):
    un = sut.tu.dimless
    t, w, w2 = sut.Variable('t', un, ''), sut.Variable('w', un, ''), sut.Variable('w2', un, '')
    o = {n: sut.Variable(n, un, '') for n in 'ab'}
    d = {'E': sut.Domain('E', un, [t, w, w2] if two == 3 else [t, w] if two else t), 'F': sut.Domain('F', un, [t])}
    r = {'E': Ref(['t', 'w', 'w2'] if two == 3 else ['t', 'w'] if two else ['t']), 'F': Ref(['t'])}
    return o, d, r


def compare(ctx, d, r, what):
    for k in d:
        ctx.eq(d[k].is_set, r[k].set, what + ': set')
        ctx.eq(list(d[k].dependent_objs), r[k].dep, what + ': distributed variables of %s' % k)
        if not r[k].set:
            ctx.eq(d[k].values, None, what + ': values of %s' % k)
            continue
        ctx.eq(sorted(d[k].values), sorted(r[k].tab), what + ': tables of %s' % k)
        for i, (cols, rows) in r[k].tab.items():
            df = d[k].values[i]
            ctx.eq(list(df.columns), cols, "%s: columns of %s[%s]" % (what, k, i))
            ctx.eq(df.values.tolist(), rows, "%s: rows of %s[%s]" % (what, k, i))


def run(ops, two, ctx):
    o, d, r = world(two)
    n = 0
    what = '%d independent variables' % (1 + int(two)) if two else 'domain'
    for op in ops:
        what += ' ; ' + op
        ctx.step(what)
        k = 'F' if op.endswith('F') else 'E'
        dom, ref = d[k], r[k]
        if op.startswith('dist'):
            v = op[5]
            o[v].distributeOnDomain(dom)
            if v not in ref.dep:
                ref.dep.append(v)
            ref.reset()
            ctx.check(o[v].domain is dom and dom.dependent_objs[v] is o[v], what)
        elif op in ('reset', 'resetF', 'call'):
            if op == 'call':
                dom()
            else:
                dom._reset()
            ref.reset()
        elif op == 'swap':
            if not ref.set:
                continue
            mp = {'a': 'b', 'b': 'a'}
            dom._renameHeaders(mp)
            for i in ref.tab:
                ref.tab[i][0] = [mp.get(c, c) for c in ref.tab[i][0]]
        elif op.startswith('rename'):
            if not ref.set:
                continue
            mp = {'rename': {'a': 'A', 'zz': 'Z'}, 'rename t': {'t': 'T', 'b': 'B'}, 'rename none': {}}[op]
            dom._renameHeaders(mp)
            for i in ref.tab:
                ref.tab[i][0] = [mp.get(c, c) for c in ref.tab[i][0]]
        elif op.startswith('reg'):
            if not ref.set:
                continue
            rows = []
            for _ in range(2 if op in ('reg2', 'reglist', 'regsame') else 1):
                n += 1
                rows.append([(n * 7) % 5 + n * 0.01 + 0.1 * j for j in range(len(ref.ind) + len(ref.dep))])
            i = ref.ind[-1]
            if op == 'regsame' and ref.tab[i][1]:
                rows[0] = list(ref.tab[i][1][-1])                # as the last row of the table
            arg = rows if op == 'reglist' else np.array(rows)
            if op == 'regfirst':
                i = ref.ind[0]
                dom._register(arg, list(dom.independent_vars.values())[0])
            else:
                dom._register(arg)
            ref.tab[i][1] += [list(x) for x in rows]
            arg[0][0] = -7.                                      # the array handed over is not shared
        elif op.startswith('bad'):
            if not ref.set:
                continue
            width = len(ref.ind) + len(ref.dep) + 1 if op == 'bad' else len(ref.ind) + len(ref.dep) - 1
            if width == 0:
                continue
            ctx.raises(Exception, lambda: dom._register(np.ones((1, width))), what)
        elif op == 'read':
            if not ref.set:
                continue
            for i, (cols, rows) in ref.tab.items():
                for js in itertools.chain([[c] for c in cols], [cols, cols[::-1]]):
                    got = dom[i, js if len(js) > 1 else js[0]]
                    want = [[x[cols.index(j)] for x in rows] for j in js]
                    ctx.eq(got.tolist(), want, "%s: reading %s over %s" % (what, js, i))
            i = list(ref.tab)
            if len(i) > 1 and len({len(ref.tab[q][1]) for q in i}) == 1 and all(ref.tab[q][0] == ref.tab[i[0]][0] for q in i):
                for js in (ref.tab[i[0]][0], ref.tab[i[0]][0][::-1]):
                    got = dom[i, js]
                    ctx.eq(got.tolist(), [[x[ref.tab[q][0].index(j)] for x in ref.tab[q][1]] for q in i for j in js],
                           what + ': reading several columns of all tables')
            if len(i) == 2 and len(ref.tab[i[0]][1]) == len(ref.tab[i[1]][1]) and ref.tab[i[0]][0] == ref.tab[i[1]][0]:
                c = ref.tab[i[0]][0][-1]
                got = dom[i, c]
                ctx.eq(got.tolist(), [[x[-1] for x in ref.tab[q][1]] for q in i], what + ': reading both tables')
        compare(ctx, d, r, what)
    for v in o:                                                  # only distributed variables have derivatives
        w = '%s ; derivative of %s' % (what, v)
        if any(v in x.dep for x in r.values()):
            if not ctx.check(isinstance(o[v].Diff(d['F'].independent_vars['t']), sut.EquationNode), w):
                break
        else:
            ctx.raises(Exception, lambda: o[v].Diff(d['F'].independent_vars['t']), w)
            ctx.raises(Exception, lambda: o[v].Diff(), w)
    ctx.state(repr([(k, x.dep, x.tab) for k, x in r.items()]))


def run_case(case, ctx):
    two, head, more = case
    for n in range(0, more + 1):
        for tail in itertools.product(OPS, repeat=n):
            if n == more or n == 0:
                run(head + list(tail), two, ctx)
