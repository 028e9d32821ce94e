"""C15: content streams (spec/Gfx.tla)."""
import copy

import gfx

FAULTS = ['unwrap', 'cache', 'tw', 'dash', 'font', 'image', 'open', 'nest']


def of_model(m, r):
    mine = dict(t=['t', [[{}, 1]], {}], j=['j', [[dict(own=True), 30]], {}], u=['t', [[dict(u=True, bg=True), 1]], {}],
                r=['r', dict(rows=1, cols=1, cells=[None], borders=[[False, 0, 1, 'dashed'], [False, 1, 1, 'solid']], fills=[[0, 0]], w=0, d='solid')],
                i=['i', .1])
    els = []
    for e in m['els']:
        x = copy.deepcopy(mine[e['kind']])
        if e['kind'] == 'r':
            x[1]['cells'] = [['t', [[{}, 1]], {}]]
        if e['kind'] in 'tju' and r.random() < .5:
            x[1][0][0]['f'] = r.choice(['Times', 'Helvetica'])
        els.append([e['page'], x])
    return dict(how='pdf', form=r.choice(['hex', 'text', 'list']), page=[400, 500], pages=2, els=els)


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c, i)
        return c
    last = {}
    for i, e in enumerate(t):
        if e['ev'] == 'op' and e['op'] in ('Tf', 'rg', 'RG', 'w', 'd', 'q', 'Q', 'BT', 'ET', 'S', 'F', 'Do', 'Tj') and not (e['op'] == 'Tj' and not e['toks']):
            last[e['op']] = i
    for op, i in last.items():
        if op not in ('RG', 'w', 'd', 'Tj'):
            yield 'without ' + op, with_(i, lambda c, i: c.pop(i))
        yield 'operand missing at ' + op, with_(i, lambda c, i: c[i].update(sig=c[i]['sig'][1:] + 'b'))
        if op in ('rg', 'w', 'RG'):
            yield 'other ' + op, with_(i, lambda c, i: c[i].update(n=[900 - x // 2 if x < 1500 else 700 for x in c[i]['n']]))
        if op == 'Tf':
            yield 'font not declared', with_(i, lambda c, i: c[i].update(font=''))
            yield 'other font', with_(i, lambda c, i: c[i].update(font='Symbol'))
            yield 'other size', with_(i, lambda c, i: c[i].update(n=[c[i]['n'][0] + 100]))
        if op == 'Do':
            yield 'image not declared', with_(i, lambda c, i: c[i].update(img=[]))
            yield 'other image', with_(i, lambda c, i: c[i].update(img=[1, 1]))
        if op == 'Tj':
            yield 'word spacing left', with_(i, lambda c, i: c.insert(i, dict(ev='op', op='Tw', sig='n', n=[400])))
            yield 'saved inside text', with_(i, lambda c, i: c.insert(i, dict(ev='op', op='q', sig='', n=[])))
        if op == 'F':
            yield 'unknown operator', with_(i, lambda c, i: c[i].update(op='FF'))
            yield 'color inside a path', with_(i, lambda c, i: c.insert(i, dict(ev='op', op='g', sig='n', n=[0])))
        if op == 'S':
            yield 'dashed', with_(i, lambda c, i: c.insert(i - 2, dict(ev='op', op='d', sig='an', n=[0], dash=[1234, 77])))


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('GfxMC', 'GfxMC.cfg' if ctx.quick else 'GfxMC_thorough.cfg', workers=6)
    ctx.faults_shown(model, FAULTS)
    model = [of_model(m, r) for m in model if m['fault'] == 'none']
    sc = model if not ctx.quick else r.sample(model, 250)
    sc += [gfx.random_scenario(r) for _ in range(ctx.n(300, 6000))]
    items = ctx.run_traces('GfxTrace', gfx.trace, sc, limit=60)
    ctx.need('word', 'justified', 'underline', 'solid', 'dashed', 'dotted', 'fill', 'image', 'saved')
    short = [x for x in items if len(x[1]) < 120 and any(e.get('op') == 'Do' for e in x[1]) and any(e.get('op') == 'S' for e in x[1])
             and any(t['just'] for t in x[1][0]['toks']) is False]
    ctx.binding_selftest('GfxTrace', short[:6], corrupt, limit=6)
