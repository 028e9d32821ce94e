"""C13: layout and running sections of pages (spec/Doc.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import docs

SETS = {'-': {}, 'size': {'size': [340, 220]}, 'turn': {'rot': True}, 'margin': {'margin': [60, 70, 60, 90]}, 'off': {'off': 7}, 'roman': {'sty': 'roman'},
        'reset': {'reset': True}, 'reset roman': {'reset': True, 'sty': 'roman'}}
RULES = {'1 margin': ('1', 'margin', [], []), '0:2 turn': ('0:2', 'turn', [], []), '1::2 size': ('1::2', 'size', [], []), ':1,2 -1': (':1,2', '-', [0], []),
         '1: +2': ('1:', '-', [], [1]), ': -1+1': (':', '-', [0], [0, 1])}


def of_model(m):
    run = dict(x='left', w=None, right=False, n=1)
    return dict(base=dict(size=[300, 240], margin=[90, 80], rot=False), runs=[dict(run, y=None, h='top'), dict(run, y='bottom', h='bottom')],
                rules=[dict(pages=p, set=SETS[s], exc=e, inc=i) for p, s, e, i in (RULES[x] for x in m['rules'])],
                sections=[dict(set=SETS[s['set']], runs=[int(c) - 1 for c in s['runs']], pars=[(s['n'], False, 1)]) for s in m['secs']])


def model_scenarios(ctx, faults):
    cfgs = ['DocMC.cfg' if ctx.quick else 'DocMC_thorough.cfg'] + ['DocMC_%s.cfg' % f for f in faults] + ([] if ctx.quick else ['DocMC_three.cfg', 'DocMC_live.cfg'])
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(lambda c: ctx.scenarios('DocMC', c), cfgs))
    ctx.machinery += ['%s: the fault never shows' % c for c, x in zip(cfgs, res) if not x]
    model = res[0] + (res[len(faults) + 1] if not ctx.quick else [])
    return [of_model(m) for m in (ctx.rng.sample(model, min(len(model), ctx.n(500, 9000))))]


def corrupt(t):
    for i, e in enumerate(t):
        if e['ev'] != 'page':
            continue
        def with_(f):
            c = copy.deepcopy(t)
            f(c[i])
            return c
        yield 'page wider', with_(lambda e: e.update(w=e['w'] + 500))
        yield 'page turned', with_(lambda e: e.update(w=e['h'], h=e['w'] + 1000))
        for kind, n in (('atoms', 'line'), ('runs', 'running section')):
            if not e[kind]:
                continue
            yield n + ' moved aside', with_(lambda e: e[kind][0].update(x1=e[kind][0]['x1'] + 300, x2=e[kind][0]['x2'] + 300))
            yield n + ' moved down', with_(lambda e: e[kind][0].update(top=e[kind][0]['top'] - 300, bot=e[kind][0]['bot'] - 300))
            yield n + ' left out', with_(lambda e: e[kind].pop())
            yield n + ' twice', with_(lambda e: e[kind].insert(0, e[kind][0]))
        if i + 1 < len(t) and t[i + 1]['ev'] == 'page':
            c = copy.deepcopy(t)
            del c[i]
            yield 'page left out', c
            c = copy.deepcopy(t)
            c.insert(i, c[i])
            yield 'page twice', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, ['leak', 'stay', 'endin', 'order', 'twice', 'lose'])
    sc += [docs.random_scenario(r) for _ in range(ctx.n(900, 12000))]
    items = ctx.run_traces('DocTrace', docs.trace, sc, limit=60, cfg='DocTrace_Pages.cfg')
    ctx.need('rule changes the layout', 'layout changes in a section', 'section with another style', 'rotated', 'several rules', 'running section excluded',
             'running section included', 'range with a step', 'section goes on', 'running section too long')
    ctx.binding_selftest('DocTrace', items[-20:], corrupt, limit=20, cfg='DocTrace_Pages.cfg')
