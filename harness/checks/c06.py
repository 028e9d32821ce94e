"""C06: all text painted once, in order (spec/Para.tla, spec/Words.tla)."""
import random

import deftext
import gen
import para
import sut
from pdfread import Bad


class WordGen(gen.Gen):
    """Words end with a letter, so that marks set after them can be told apart."""

    def word(self):
        self.n += 1
        return 'w%d%s' % (self.n, self.r.choice(['a', 'bc', 'def', '(x', ')y', '\\z', 'xyzxyz']))

    def number(self):
        self.n += 1
        return 7000000 + self.n + self.r.choice([0, 0, .5, .125])

    def simple(self):
        """An element that is not a dictionary."""
        x = self.r.randrange(5)
        return [self.number(), self.number(), self.words(1, 6), [self.words(1, 3), ' ', self.number()], (self.words(1, 3) + ' ', {'.b': self.number()})][x]

    def element(self, depth):
        return self.simple() if self.p(.15) else super().element(depth)

    def cell(self, depth):
        return self.simple() if self.p(.1) else super().cell(depth)

    def group(self):
        d = super().group()
        if self.p(.2):
            d['group'].append(self.simple())
        return d


def whole(sc):
    try:
        return deftext.word_events(sc['doc'], sut.View(sut.build(gen.materialize(sc['doc']))))
    except Bad as e:
        return [dict(ev='malformed', rule=e.rule)]


def model_scenarios(ctx, quick, thorough):
    r = ctx.rng
    sc = ctx.scenarios('ParaMC')
    if not ctx.quick:
        ctx.design('ParaMC', 'ParaMC_thorough.cfg', timeout=1500)
    r.shuffle(sc)
    return [dict(para.from_model(s, r), how='direct') for s in sc[:ctx.n(quick, thorough)]]


def run(ctx):
    r = ctx.rng
    sc = model_scenarios(ctx, 1500, 9216)
    sc += [para.random_scenario(r) for _ in range(ctx.n(500, 6000))]
    items = ctx.run_traces('ParaTrace', para.trace, sc, cfg='ParaTrace_Text.cfg', limit=60)
    docs = []
    for _ in range(ctx.n(200, 2500)):
        docs.append(dict(doc=WordGen(random.Random(r.random()), images=r.random() < .5).document()))
    docs_items = ctx.run_traces('WordsTrace', whole, docs, limit=60)
    ctx.need('continued in another area', 'word wider than the area', 'empty line', 'list', 'raised', 'area with no room',
             'paragraph over two pages', 'paragraph over two columns')

    def corrupt(t):
        import copy
        ls = [i for i, e in enumerate(t) if e['ev'] == 'line']
        if len(ls) < 2:
            return
        c = copy.deepcopy(t)
        del c[ls[-1]]
        yield 'line lost', c
        c = copy.deepcopy(t)
        c.insert(ls[0], copy.deepcopy(c[ls[0]]))
        yield 'line repeated', c
        c = copy.deepcopy(t)
        c[ls[0]], c[ls[1]] = c[ls[1]], c[ls[0]]
        yield 'lines exchanged', c
        c = copy.deepcopy(t)
        c[ls[0]]['ids'] = c[ls[0]]['ids'][1:]
        c[ls[0]]['xs'] = c[ls[0]]['xs'][1:]
        yield 'word lost', c
        c = copy.deepcopy(t)
        c[ls[0]]['x1'] -= 30000
        yield 'left of the area', c
        c = copy.deepcopy(t)
        c[ls[1]]['y'] += 100000
        yield 'line out of place', c
    long = [i for i in items if len(i[1]) > 12 and i[0].get('how') == 'direct']
    ctx.binding_selftest('ParaTrace', long[-10:], corrupt, cfg='ParaTrace_Text.cfg', limit=8)

    def corrupt2(t):
        import copy
        ps = [i for i, e in enumerate(t) if e['ev'] == 'painted']
        if len(ps) < 4:
            return
        c = copy.deepcopy(t)
        del c[ps[2]]
        yield 'document word lost', c
        c = copy.deepcopy(t)
        c.insert(ps[2], c[ps[2]])
        yield 'document word repeated', c
        c = copy.deepcopy(t)
        c[ps[2]]['page'] += 1
        yield 'document word on another page', c
    ctx.binding_selftest('WordsTrace', docs_items[:6], corrupt2)
