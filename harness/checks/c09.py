"""C09: tables keep their cells on one grid (spec/Table.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import table

SHAPES = dict(grid=(2, [(0, 0, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 1, 1)]),
              rows=(2, [(0, 0, 2, 1), (0, 1, 1, 1), (1, 1, 1, 1), (2, 0, 1, 1), (2, 1, 1, 1)]),
              cols=(2, [(0, 0, 1, 1), (0, 1, 1, 1), (1, 0, 1, 2)]),
              both=(3, [(0, 0, 2, 2), (0, 2, 1, 1), (1, 2, 1, 1), (2, 0, 1, 1), (2, 1, 1, 2)]),
              after=(3, [(0, 0, 2, 1), (0, 1, 1, 2), (1, 1, 1, 2)]))


def of_model(m, how):
    cols, sh = SHAPES[m['shape']]
    n = m['n']
    cells = [dict(row=a, col=b, rs=c, cs=d, kind='t', n=k, st={'fill': 'red'} if a == b == 0 else {}) for (a, b, c, d), k in zip(sh, n)]
    return dict(page=[440, 100], margin=[20, 20, 20, 20], how=how, pre=2 if m['low'] else 0, ws=None, rows=max(c['row'] + c['rs'] for c in cells), cols=cols,
                style={}, borders=[], fills=[], cells=cells)


def model_scenarios(ctx, faults):
    cfgs = [None if ctx.quick else 'TableMC_thorough.cfg'] + ['TableMC_%s.cfg' % f for f in faults] + ([] if ctx.quick else ['TableMC_live.cfg'])
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda c: ctx.scenarios('TableMC', c), cfgs))
    ctx.machinery += ['%s: the fault never shows' % c for c, x in zip(cfgs[1:], res[1:1 + len(faults)]) if not x]
    return [of_model(m, ctx.rng.choice(['pdf', 'doc'])) for m in res[0]]


def of(t, ev):
    return [i for i, e in enumerate(t) if e['ev'] == ev]


def corrupt(t):
    atoms = of(t, 'atom')
    for i in atoms[:6]:
        for name, dx, dy in (('moved down', 0, -1300), ('moved up', 0, 1300), ('moved aside', 400, 0)):
            c = copy.deepcopy(t)
            for a, d in (('x1', dx), ('x2', dx), ('top', dy), ('bot', dy)):
                c[i][a] += d
            yield name, c
        c = copy.deepcopy(t)
        del c[i]
        yield 'piece left out', c
        c = copy.deepcopy(t)
        c.insert(i, c[i])
        yield 'piece twice', c
        c = copy.deepcopy(t)
        c[i]['page'] += 1
        yield 'on another page', c
    for i, j in zip(atoms, atoms[1:]):
        c = copy.deepcopy(t)
        for k in ('top', 'bot', 'page', 'x1', 'x2'):
            c[i][k], c[j][k] = c[j][k], c[i][k]
        yield 'two pieces swapped', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, ['lose', 'again', 'low', 'past'])
    sc += [table.random_scenario(r) for _ in range(ctx.n(1000, 12000))]
    items = ctx.run_traces('TableTrace', table.trace, sc, limit=60, cfg='TableTrace_Cells.cfg')
    ctx.need('row continued', 'row moved on', 'three pages', 'column span', 'row span', 'row span over pages', 'column span over pages',
             'row span makes its rows higher', 'kind t', 'kind b', 'kind i', 'kind e')
    ctx.binding_selftest('TableTrace', items[-20:], corrupt, limit=20, cfg='TableTrace_Cells.cfg')
