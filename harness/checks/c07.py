"""C07: where lines and words are placed (spec/Para.tla)."""
import para
from checks.c06 import model_scenarios


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, 2500, 9216)
    sc += [para.random_scenario(r) for _ in range(ctx.n(1200, 12000))]
    sc += [para.tie_scenario(r) for _ in range(ctx.n(300, 3000))]
    items = ctx.run_traces('ParaTrace', para.trace, sc, cfg='ParaTrace_Place.cfg', limit=60)
    ctx.design('ParaMC', 'ParaMC_live.cfg')
    ctx.need('align l', 'align r', 'align c', 'align j', 'continued in another area', 'list', 'indent', 'below lowered text',
             'word wider than the area', 'empty line', 'justified line', 'raised', 'area with no room', 'area exactly full')

    def corrupt(t):
        import copy
        ls = [i for i, e in enumerate(t) if e['ev'] == 'line']
        if len(ls) < 3:
            return
        for f, d in (('x1', 900), ('x2', 900), ('y', -900), ('y', 900)):
            c = copy.deepcopy(t)
            c[ls[1]][f] += d
            yield 'line.%s%+d' % (f, d), c
        long = [i for i in ls if len(t[i]['ids']) > 2]
        if long:
            c = copy.deepcopy(t)
            c[long[0]]['xs'][1] += 700
            yield 'space', c
        # a word moved to the next line
        for a, b in zip(ls, ls[1:]):
            if b == a + 1 and len(t[a]['ids']) > 1:
                c = copy.deepcopy(t)
                c[b]['ids'].insert(0, c[a]['ids'].pop())
                c[b]['xs'].insert(0, c[b]['xs'][0])
                c[a]['xs'].pop()
                yield 'word carried over', c
                break
        # the last line of an area goes to the next one
        for a in ls:
            if t[a + 1]['ev'] == 'area' and t[a - 1]['ev'] == 'line':
                c = copy.deepcopy(t)
                del c[a]
                yield 'line carried over', c
                break
    long = [i for i in items if len(i[1]) > 15 and i[0].get('how') == 'direct']
    ctx.binding_selftest('ParaTrace', long[-14:], corrupt, cfg='ParaTrace_Place.cfg', limit=10)
