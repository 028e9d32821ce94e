"""C21: layout makes progress and comes to an end (spec/Progress.tla)."""
import copy

import progress

FAULTS = ['drop', 'endless', 'early', 'blank', 'force', 'twice']


def of_model(m, r):
    """Every piece an image or a group, with the height of the model in quarters of the page."""
    H = r.choice([200, 300, 400])
    W = 200 * m['cols']
    cw = (W - (m['cols'] - 1) * W / m['cols'] * .1) / m['cols']
    els = []
    for h in m['atoms']:
        q = h * (H - 12) / 4 - 6
        x = r.random()
        if x < .6:
            els.append(['i', q / cw, 0, r.choice(['normal', 'normal', 'flow'])])
        elif x < .8:
            els.append(['g', [['i', (q - 22) / cw, 0, 'normal'], ['p', 1, 8, {}, 0]]])
        else:
            els.append(['i', q / cw + .3, max(4, q / 3), 'normal'])
    return dict(how=r.choice(['doc', 'pdf']), page=[W, H], secs=[['b', m['cols'], els, 0]])


def corrupt(t):
    end = len(t) - 1
    pages = [i for i, e in enumerate(t) if e['ev'] == 'page']
    if t[end]['how'] == 'done' and pages and t[pages[0]]['new']:
        def with_(f):
            c = copy.deepcopy(t)
            f(c)
            return c
        yield 'dropped', with_(lambda c: c[pages[0]]['new'].pop())
        yield 'twice', with_(lambda c: c[pages[-1]]['new'].append(c[pages[0]]['new'][0]))
        yield 'an empty page', with_(lambda c: c.insert(pages[0], dict(ev='page', new=[])))
        yield 'crash', with_(lambda c: c[end].update(how='crash'))
        yield 'endless', with_(lambda c: c[end].update(how='endless'))
        yield 'too big', with_(lambda c: c[0]['atoms'][0].update(low=c[0]['atoms'][0]['full'] * 2 + 9000))
    if t[end]['how'] == 'error':
        c = copy.deepcopy(t)
        for _ in range(70):
            c.insert(end, dict(ev='page', new=[]))
        yield 'given up late', c
        c = copy.deepcopy(t)
        for a in c[0]['atoms']:
            a.update(h=1000, low=0, room=90000, full=90000)
        yield 'given up for nothing', c


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('ProgressMC', 'ProgressMC.cfg' if ctx.quick else 'ProgressMC_thorough.cfg', workers=4)
    model += ctx.scenarios('ProgressMC', 'ProgressMC_cols.cfg', workers=4)
    if not ctx.quick:
        model += ctx.scenarios('ProgressMC', 'ProgressMC.cfg', workers=4)
    ctx.faults_shown(model, FAULTS)
    ctx.design('ProgressMC', 'ProgressMC_live.cfg')
    sc = [of_model(m, r) for m in model if m['fault'] == 'none']
    sc = r.sample(sc, ctx.n(250, 5000))
    sc += [progress.random_scenario(r) for _ in range(ctx.n(700, 12000))]
    items = ctx.run_traces('ProgressTrace', progress.trace, sc, limit=60)
    ctx.need('done', 'error', 'everything fits', 'something never fits', 'several pages', 'given up after some')
    ctx.binding_selftest('ProgressTrace', [x for x in items if len(x[1]) < 80 and x[1][0]['atoms']][-20:], corrupt, limit=20)
