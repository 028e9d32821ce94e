"""C18: borders and fills of tables (spec/Table.tla)."""
import copy

import table
from checks.c09 import model_scenarios, of


def corrupt(t):
    for i in of(t, 'line')[:8]:
        for name, d in (('thicker', dict(w=700)), ('other color', dict(c='pink')), ('other dashes', dict(d='odd'))):
            c = copy.deepcopy(t)
            c[i].update({k: c[i][k] + v if k == 'w' else v for k, v in d.items()})
            yield 'border ' + name, c
        if t[i]['d'] != 'solid':
            c = copy.deepcopy(t)
            c[i].update(off=c[i]['off'] + 700)
            yield 'gaps of another width', c
        flat = t[i]['y1'] == t[i]['y2']
        for name, a, d in (('longer', 'x2' if flat else 'y2', 9000 if flat else -9000), ('shorter', 'x2' if flat else 'y2', -9000 if flat else 9000)):
            c = copy.deepcopy(t)
            c[i][a] += d
            yield 'border ' + name, c
        c = copy.deepcopy(t)
        for a in ('y1', 'y2') if flat else ('x1', 'x2'):
            c[i][a] += 700
        yield 'border moved', c
        c = copy.deepcopy(t)
        del c[i]
        yield 'border left out', c
        c = copy.deepcopy(t)
        c.insert(i, c[i])
        yield 'border twice', c
    for i in of(t, 'fill')[:4]:
        for name, d in (('higher', dict(y2=900)), ('wider', dict(x2=-900)), ('moved', dict(y1=800, y2=800)), ('over the text', dict(z=10 ** 6))):
            c = copy.deepcopy(t)
            for k, v in d.items():
                c[i][k] += v
            yield 'fill ' + name, c
        c = copy.deepcopy(t)
        c[i]['c'] = 'pink'
        yield 'fill of another color', c
        c = copy.deepcopy(t)
        del c[i]
        yield 'fill left out', c


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, ['inside', 'open', 'bare', 'short'])
    sc += [table.random_scenario(r) for _ in range(ctx.n(900, 10000))]
    items = ctx.run_traces('TableTrace', table.trace, sc, limit=60, cfg='TableTrace_Borders.cfg')
    ctx.need('row continued', 'column span', 'row span', 'row span over pages', 'column span over pages', 'fill', 'dashed border', 'position with a step',
             'border switched off', 'three pages')
    ctx.binding_selftest('TableTrace', items[-14:], corrupt, limit=14, cfg='TableTrace_Borders.cfg')
