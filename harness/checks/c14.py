"""C14: page numbers (spec/Doc.tla)."""
import copy

import docs
from checks.c13 import model_scenarios


def corrupt(t):
    for i, e in enumerate(t):
        if e['ev'] == 'wrote':
            c = copy.deepcopy(t)
            c[i]['text'] += 'I' if e['sty'] == 'roman' else '0'
            yield 'number of another page', c
        elif e['ev'] == 'page' and e['nums']:
            c = copy.deepcopy(t)
            c[i]['nums'][-1]['text'] = '77'
            yield 'number of the page changed', c
            c = copy.deepcopy(t)
            c[i]['nums'].pop(0)
            yield 'number left out', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, ['zero', 'forget', 'still'])
    sc += [docs.random_scenario(r) for _ in range(ctx.n(500, 9000))]
    step = 31
    sc += [docs.numbers_scenario(n, min(step, 4000 - n)) for n in range(1, 4000, step)]     # every number from 1 to 3999 in roman
    items = ctx.run_traces('DocTrace', docs.trace, sc, limit=60, cfg='DocTrace_Numbers.cfg')
    ctx.need('roman', 'arabic', 'numbers start again', 'numbers go on', 'number in the content', 'number in a running section')
    ctx.binding_selftest('DocTrace', items[:12], corrupt, limit=12, cfg='DocTrace_Numbers.cfg')
    sc = [docs.random_history(r) for _ in range(ctx.n(300, 6000))]
    items = ctx.run_traces('DocTrace', docs.history, sc, limit=60, cfg='DocTrace_Numbers.cfg')
    ctx.need('earlier page', 'new page')
    ctx.binding_selftest('DocTrace', items[:8], corrupt, limit=8, cfg='DocTrace_Numbers.cfg')
