"""C22: embedded fonts (spec/Fonts.tla)."""
import copy

import fonts_

FAULTS = ['shared', 'mode', 'default', 'last', 'stale', 'family', 'layout', 'glyph', 'back', 'width']


def of_model(m, r):
    f = lambda no: dict(no=no, n=20, upem=1000, chars=[[32, 3], [65, 3 - no], [66, no]], adv=[500, 100 * no + 10, 100 * no + 30, 250], names='std', os2=True)
    ops = []
    for o in m['ops']:
        if o['op'] == 'register':
            ops.append(['register', o['fam'], o['mode'], o['file'] - 1])
        elif o['op'] == 'add':
            ops.append(['add', o['d'] - 1, o['fam'], o['mode'], o['file'] - 1])
        else:
            ops.append(['par', o['d'] - 1, [[o['fam'], o['mode'], 10, 'ABA']]])
    return dict(files=[f(1), f(2)], docs=[dict(kind='pdf', just=False, align=r.choice('lrc')) for _ in range(2)], ops=ops)


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c[i])
        return c
    for i, e in enumerate(t):
        if e['ev'] == 'painted' and e['glyphs']:
            for k, g in enumerate(e['glyphs'][:3]):
                if g['file']:
                    yield 'another glyph', with_(i, lambda e: e['glyphs'][k].update(g=g['g'] + 1))
                    yield 'another width', with_(i, lambda e: e['glyphs'][k].update(w=g['w'] + 40))
                    yield 'another file', with_(i, lambda e: e['glyphs'][k].update(file=g['file'] + 1))
                    if g['g']:
                        yield 'reads otherwise', with_(i, lambda e: e['glyphs'][k].update(uni=[g['uni'][0] + 1] if g['uni'] else [1]))
                else:
                    yield 'another standard font', with_(i, lambda e: e['glyphs'][k].update(base='Symbol'))
            yield 'one is missing', with_(i, lambda e: e['glyphs'].pop(0) if e['glyphs'][0]['uni'] != [32] else e['glyphs'].append(e['glyphs'][0]))
        if e['ev'] == 'place':
            yield 'painted elsewhere', with_(i, lambda e: e.update(px=e['px'] + 100))
            yield 'painted wider', with_(i, lambda e: e.update(pw=e['pw'] + 100))
        if e['ev'] == 'text' and e['how'] == 'ok' and e['fam'] != 'Helvetica':
            yield 'not painted', with_(i, lambda e: e.update(chars=e['chars'] + e['chars'][:1]))


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('FontsMC', 'FontsMC.cfg', workers=6) + ctx.scenarios('FontsMC', 'FontsMC_modes.cfg', workers=4)
    ctx.faults_shown(model, FAULTS)
    if not ctx.quick:
        model += ctx.scenarios('FontsMC', 'FontsMC_thorough.cfg', workers=8)
        ctx.design('FontsMC', 'FontsMC_live.cfg')
    sc = [of_model(m, r) for m in model if m['fault'] == 'none']
    if len(sc) > ctx.n(300, 6000):
        sc = r.sample(sc, ctx.n(300, 6000))
    sc += [fonts_.random_scenario(r) for _ in range(ctx.n(500, 8000))]
    sc += [fonts_.random_scenario(r, True) for _ in range(ctx.n(8, 60))]
    # glyphs whose numbers are like surrogates
    sc.append(dict(files=[dict(no=1, n=60000, upem=1000, chars=[[c, g] for c, g in zip(range(32, 92), range(0xd7f0, 0xd7f0 + 60))], adv=[], names='std', os2=True)],
                   docs=[dict(kind='pdf', just=False, align='l')], ops=[['register', 'Ay', 'n', 0], ['par', 0, [['Ay', 'n', 10, 'ABCXYZ (1234)']]]]))
    items = ctx.run_traces('FontsTrace', fonts_.trace, sc, limit=60)
    ctx.need('ok', 'refused', 'another mode', 'a standard font', 'added for a standard family', 'documents with different fonts', 'several fonts in a document',
             'characters of one glyph', 'beyond the basic plane', 'justified', 'a large font', 'registered', 'registered anew', 'added', 'added after some text')
    ctx.binding_selftest('FontsTrace', [x for x in items if 4 < len(x[1]) < 15][-10:], corrupt, limit=10)
