"""C08: content boxes (spec/Flow.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import flow


def of_model(m, how):
    def el(q):
        if q[0] == 'p':
            return {'k': 'p', 'n': int(q[1:])}
        if q[0] == 'g':
            return {'k': 'g', 'c': [{'k': 'p', 'n': 1, 'st': {'mb': 0}}, {'k': 'p', 'n': 1}]}
        return {'k': 'i', 'r': int(q[1:]) / 100, 'place': 'normal' if q[0] == 'n' else 'flow'}
    n = m['cols']
    return dict(tree={'k': 'box', 'cols': n, 'gap': 10, 'c': [el(q) for q in m['els']]}, page=[100 * n + 10 * (n - 1) + 40, 100],
                margin=[20, 20, 20, 20], how=how)


def model_scenarios(ctx, r):
    cfgs = [None if ctx.quick else 'FlowMC_thorough.cfg'] + ['FlowMC_%s.cfg' % f for f in ('lose', 'late', 'uneven', 'early')]
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(lambda c: ctx.scenarios('FlowMC', c), cfgs))
    ctx.machinery += ['%s: the fault never shows' % c for c, x in zip(cfgs, res) if not x]
    sc = [of_model(m, r.choice(['pdf', 'doc'])) for m in res[0]]
    return sc


def corrupt(t):
    atoms = [i for i, e in enumerate(t) if e['ev'] == 'atom']
    if len(atoms) < 3:
        return
    for i in atoms[:6]:
        for name, d in (('moved down', -2600), ('moved up', 2700)):
            c = copy.deepcopy(t)
            c[i]['top'] += d
            c[i]['bot'] += d
            yield name, c
        c = copy.deepcopy(t)
        c[i]['x1'] += 300
        c[i]['x2'] += 300
        yield 'moved aside', c
        c = copy.deepcopy(t)
        del c[i]
        yield 'piece left out', c
        c = copy.deepcopy(t)
        c.insert(i, c[i])
        yield 'piece twice', c
    for i, j in zip(atoms, atoms[1:]):
        c = copy.deepcopy(t)
        for k in ('top', 'bot', 'page', 'x1', 'x2'):
            c[i][k], c[j][k] = c[j][k], c[i][k]
        yield 'two pieces swapped', c
    c = copy.deepcopy(t)
    c[atoms[-1]]['page'] += 1
    yield 'on another page', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, r)
    sc += [flow.random_scenario(r) for _ in range(ctx.n(1000, 12000))]
    items = ctx.run_traces('FlowTrace', flow.trace, sc, limit=60)
    ctx.need('float overtaken', 'float moved on', 'split over pages', 'split over columns', 'balanced columns', 'columns in columns', 'group',
             'table split', 'group image scaled')
    ctx.binding_selftest('FlowTrace', items[-15:], corrupt, limit=15)
