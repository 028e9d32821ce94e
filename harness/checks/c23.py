"""C23: the calls of a PDF (spec/Calls.tla)."""
import copy

import calls

FAULTS = ['sticky', 'fixed', 'same', 'bare', 'low', 'aside', 'late', 'drop', 'number', 'last', 'option', 'keep']


def of_model(m, r):
    return {'def': dict(m['def'], form=r.randrange(60)), 'ops': [dict(o, form=r.randrange(60)) for o in m['ops']]}


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c[i])
        return c
    for i, e in enumerate(t):
        if e['ev'] == 'para' and e['obs']:
            o = e['obs'][-1]['k'] > 0 and -1 or 0
            yield 'line elsewhere', with_(i, lambda e: e['obs'][o].update(x=e['obs'][o]['x'] + 900))
            yield 'line lower', with_(i, lambda e: e['obs'][0].update(base=e['obs'][0]['base'] + 4000))
            yield 'other page', with_(i, lambda e: e['obs'][o].update(page=e['obs'][o]['page'] + 1))
            yield 'other color', with_(i, lambda e: e['obs'][o].update(c=77))
            yield 'other size', with_(i, lambda e: e['obs'][o].update(s=e['obs'][o]['s'] + 500))
            yield 'line lost', with_(i, lambda e: e['obs'].pop(0))
            yield 'line twice', with_(i, lambda e: e['obs'].append(copy.deepcopy(e['obs'][0])))
        if e['ev'] == 'table' and e['obs']:
            yield 'cell lost', with_(i, lambda e: e['obs'].pop(0))
            yield 'table lower', with_(i, lambda e: [b.update(top=b['top'] + 3000, bottom=b['bottom'] + 3000) for b in e['boxes']])
        if e['ev'] == 'image' and e['obs']:
            yield 'image wider', with_(i, lambda e: e['obs'][0].update(w=e['obs'][0]['w'] + 4000))
        if e.get('made'):
            yield 'page of another size', with_(i, lambda e: e['made'][0].update(w=e['made'][0]['w'] + 1000))
            yield 'page not made', with_(i, lambda e: e['made'].pop())
            if any(e['made'][0]['heads']):
                yield 'no running section', with_(i, lambda e: e['made'][0].update(heads=[[] for _ in e['made'][0]['heads']]))
        if e['ev'] in ('para', 'table', 'image', 'set') and e['cur'][0]:
            yield 'cursor lower', with_(i, lambda e: e['cur'].__setitem__(2, e['cur'][2] + 2000))
            yield 'cursor aside', with_(i, lambda e: e['cur'].__setitem__(1, e['cur'][1] + 2000))
    yield 'something else', with_(len(t) - 1, lambda e: e.update(strange=1))


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('CallsMC', 'CallsMC.cfg', workers=8)
    ctx.faults_shown(model, FAULTS)
    if not ctx.quick:
        model += ctx.scenarios('CallsMC', 'CallsMC_thorough.cfg', workers=8)
        ctx.design('CallsMC', 'CallsMC_live.cfg')
    sc = [of_model(m, r) for m in model if m['fault'] == 'none']
    sc = r.sample(sc, min(len(sc), ctx.n(220, 8000)))
    sc += [calls.random_scenario(r) for _ in range(ctx.n(700, 9000))]
    items = ctx.run_traces('CallsTrace', calls.trace, sc, limit=60)
    ctx.need('text', '_text', 'content', '_content', 'table', '_table', 'image', 'in new pages', 'in new pages, from another page', 'table in new pages', 'next', 'unfinished',
             'at the cursor', 'number of the page', 'list text', 'running sections', 'set f', 'set s', 'set c', 'set al', 'set lh', 'set ind', 'setup', 'go', 'at', 'fmt', 'ctx',
             'own al', 'own lh', 'own ind', 'size named', 'size pair', 'size square', 'margins list', 'margins sides')
    ctx.binding_selftest('CallsTrace', [x for x in items if 6 < len(x[1]) < 12][-8:], corrupt, limit=8)
