"""C20: images (spec/Images.tla)."""
import copy

import images

FAULTS = ['near', 'last', 'sides', 'gray', 'again', 'each', 'mix', 'squash', 'stay', 'lose']


def of_model(m, r):
    v = lambda x: None if x < 0 else x / 1000
    return dict(files=[dict(kind='jpg', segs=m['segs'][:-1] + [m['segs'][-1]], src=r.choice(['str', 'path', 'bytes', 'file'])),
                       dict(kind='png', mode='RGB', dims=[50, 20], src=r.choice(['str', 'path', 'bytes', 'file']))],
                ops=[['page']] + [['page'] if o['op'] == 'page' else ['image', o['file'] - 1, v(o['x']), v(o['top']), v(o['w']), v(o['h']), o['move']] for o in m['ops']],
                create=r.random() < .3, same=r.random() < .2)


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c[i])
        return c
    for i, e in enumerate(t):
        if e['ev'] == 'obj':
            yield 'other width', with_(i, lambda e: e.update(w=e['w'] + 1))
            yield 'other color space', with_(i, lambda e: e.update(space='DeviceGray' if e['space'] == 'DeviceRGB' else 'DeviceRGB'))
            yield 'other depth', with_(i, lambda e: e.update(depth=4))
            yield 'other data', with_(i, lambda e: e.update(data=0))
            c = copy.deepcopy(t)
            last = max(k for k, q in enumerate(c) if q['ev'] == 'obj')
            c.insert(last + 1, copy.deepcopy(e))
            yield 'embedded twice', c
        if e['ev'] == 'paint':
            yield 'other height', with_(i, lambda e: e.update(h=e['h'] + 20000 + e['h'] // 5))
            yield 'elsewhere', with_(i, lambda e: e.update(x=e['x'] + 7000, w=e['w'] + 1000))
            c = copy.deepcopy(t)
            c.pop(i)
            yield 'not painted', c
            c = copy.deepcopy(t)
            c.insert(i, copy.deepcopy(e))
            yield 'painted twice', c


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('ImagesMC', 'ImagesMC.cfg', workers=6) + ctx.scenarios('ImagesMC', 'ImagesMC_pages.cfg', workers=4)
    ctx.faults_shown(model, FAULTS)
    if not ctx.quick:
        model += ctx.scenarios('ImagesMC', 'ImagesMC_thorough1.cfg', workers=8)
        model += ctx.scenarios('ImagesMC', 'ImagesMC_thorough2.cfg', workers=8)
        ctx.design('ImagesMC', 'ImagesMC_live.cfg')
    sc = [of_model(m, r) for m in model if m['fault'] == 'none']
    if ctx.quick:
        sc = r.sample(sc, 250)
    sc += [images.random_calls(r) for _ in range(ctx.n(300, 5000))]
    sc += [images.random_tree(r) for _ in range(ctx.n(300, 5000))]
    items = ctx.run_traces('ImagesTrace', images.trace, sc, limit=60)
    ctx.need('jpg', 'png', 'DeviceRGB', 'DeviceGray', 'DeviceCMYK', 'a segment like a frame', 'several frames', 'in a running section', 'moved bottom', 'moved next',
             'at the cursor', 'at a place', 'as wide as the page', 'made smaller', 'as wide as its place')
    ctx.binding_selftest('ImagesTrace', [x for x in items if 4 < len(x[1]) < 15][-8:], corrupt, limit=8)
