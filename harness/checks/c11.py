"""C11: groups (the clauses for groups of spec/Flow.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import flow


def of_model(m, how):
    def el(q):
        n = int(q[1:])
        if q[0] == 'p':
            return {'k': 'p', 'n': n}
        return dict({'k': 'i', 'r': n / 100}, **({'min': {30: 10, 44: 20}[n]} if q[0] == 'm' else {}))
    c = [{'k': 'g', 'c': [el(q) for q in m['els']]}]
    if m['before']:
        c.insert(0, {'k': 'p', 'n': m['before']})
    if m['after']:
        c.append({'k': 'p', 'n': m['after']})
    return dict(tree={'k': 'box', 'c': c}, page=[140, 120], margin=[20, 20, 20, 20], how=how)


def corrupt(t):
    d = t[0]
    for g in sorted({e['grp'] for e in d['els']} - {0}):
        atoms = [i for i, e in enumerate(t) if e['ev'] == 'atom' and d['els'][e['el'] - 1]['grp'] == g]
        if len(atoms) < 2:
            continue
        c = copy.deepcopy(t)
        c[atoms[-1]]['page'] += 1
        yield 'split', c
        c = copy.deepcopy(t)
        del c[atoms[0]]
        yield 'part left out', c
        c = copy.deepcopy(t)
        c.insert(atoms[0], c[atoms[0]])
        yield 'part twice', c
        c = copy.deepcopy(t)
        c[atoms[-1]]['top'] -= 2600
        c[atoms[-1]]['bot'] -= 2600
        yield 'part moved down', c
        c = copy.deepcopy(t)
        for k in ('top', 'bot'):
            c[atoms[0]][k], c[atoms[-1]][k] = c[atoms[-1]][k], c[atoms[0]][k]
        yield 'parts swapped', c
        for i in atoms:
            if d['els'][t[i]['el'] - 1]['kind'] == 'i':
                c = copy.deepcopy(t)
                c[i]['x1'] += 300
                c[i]['x2'] -= 300
                yield 'image narrower', c


def run(ctx):
    r = ctx.rng
    with ThreadPoolExecutor(6) as ex:
        cfgs = ['GroupMC.cfg'] + ['GroupMC_%s.cfg' % f for f in ('split', 'small', 'wide', 'high', 'swap')]
        res = list(ex.map(lambda c: ctx.scenarios('GroupMC', c), cfgs))
    ctx.machinery += ['%s: the fault never shows' % c for c, x in zip(cfgs, res) if not x]
    model = [of_model(m, r.choice(['pdf', 'doc'])) for m in res[0]]
    sc = model if not ctx.quick else r.sample(model, 900)
    sc += [flow.random_scenario(r, groups=.4, least=.7) for _ in range(ctx.n(700, 9000))]
    items = ctx.run_traces('FlowTrace', flow.trace, sc, limit=60, cfg='FlowTrace_Group.cfg')
    ctx.need('group', 'group image scaled', 'group moved on', 'group in columns', 'table in a group')
    ctx.binding_selftest('FlowTrace', [x for x in items if len(x[1][0]['els']) > 3][:20], corrupt, limit=20, cfg='FlowTrace_Group.cfg')
