"""C12: footnotes (spec/Notes.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import notes

FAULTS = ['first', 'over', 'lose', 'again', 'count', 'stale', 'order']


def of_model(m, form):
    lines = dict(a={}, b={1: 2}, c={4: 14}, d={2: 1, 3: 3})
    els = [['p', [[[lines[q][i], form()] if i in lines[q] else 0, '\n'] for i in (1, 2, 3, 4)]] for q in m['pars']]
    s = dict(els=els)
    if m['cols'] == 2:
        s.update(cols=2, gap=20)
    return dict(page=[400, 160], margin=[20, 20, 20, 20], secs=[s])


def model_scenarios(ctx):
    cfgs = ['NotesMC.cfg', 'NotesMC_cols.cfg'] if ctx.quick else ['NotesMC_%s.cfg' % q for q in ('thorough', 'cols', 'thorough1', 'thorough2', 'live')]
    with ThreadPoolExecutor(2) as ex:
        res = list(ex.map(lambda c: ctx.scenarios('NotesMC', c, workers=4), cfgs))
    ctx.faults_shown(res[0], FAULTS)
    r = ctx.rng
    model = [of_model(m, lambda: r.choice(['str', 'list', 'dict', 'style', 'named', 'tuple'])) for x in res for m in x if m['fault'] == 'none']
    return model if not ctx.quick else r.sample(model, 300)


def corrupt(t):
    pages = [i for i, e in enumerate(t) if e['ev'] == 'page']

    def with_(i, f):
        c = copy.deepcopy(t)
        f(c[i])
        return c
    for i in pages:
        e = t[i]
        if e['marks']:
            yield 'mark with another number', with_(i, lambda e: e['marks'][-1].update(text=e['marks'][-1]['text'] + '1'))
            yield 'mark left out', with_(i, lambda e: e['marks'].pop())
        if e['labels']:
            yield 'note with another number', with_(i, lambda e: e['labels'][0].update(text='0'))
            yield 'note without a number', with_(i, lambda e: e['labels'].pop())
            yield 'word of a note left out', with_(i, lambda e: e['words'].pop())
            yield 'note left out', with_(i, lambda e: e.update(words=[w for w in e['words'] if w['n'] != e['labels'][0]['n']], labels=e['labels'][1:]))
            low = min(x['bot'] for x in e['toks'])
            yield 'note over the content', with_(i, lambda e: e['words'][0].update(top=low + 3000))
            yield 'note under the margin', with_(i, lambda e: e['words'][-1].update(bot=t[0]['area']['bot'] - 500))
            yield 'note beside the margin', with_(i, lambda e: e['words'][-1].update(x2=t[0]['area']['x2'] + 500))
        if len(e['labels']) > 1:
            yield 'notes swapped', with_(i, lambda e: [e['labels'][0].update(n=t[i]['labels'][1]['n']), e['labels'][1].update(n=t[i]['labels'][0]['n'])])
        if e['toks']:
            yield 'word left out', with_(i, lambda e: e['toks'].pop())
            yield 'word twice', with_(i, lambda e: e['toks'].append(e['toks'][0]))
            yield 'something else', with_(i, lambda e: e.update(other=1))
    if len(pages) > 1:
        c = copy.deepcopy(t)
        c[pages[0]], c[pages[1]] = c[pages[1]], c[pages[0]]
        yield 'pages swapped', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx)
    sc += [notes.random_scenario(r) for _ in range(ctx.n(450, 9000))]
    items = ctx.run_traces('NotesTrace', notes.trace, sc, limit=60)
    ctx.need('page with notes', 'page without notes', 'more than nine notes', 'notes on a later page', 'numbers start again', 'note of several lines',
             'marks in columns', 'mark in a group', 'mark in a table', 'paragraph goes on after a page with notes')
    ctx.binding_selftest('NotesTrace', [x for x in items if len(x[1]) < 8 and any(e.get('labels') for e in x[1])][-8:], corrupt, limit=8)
