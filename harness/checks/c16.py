"""C16: builds do not influence each other (spec/Iso.tla)."""
import copy
from concurrent.futures import ThreadPoolExecutor

import iso

FAULTS = ['alias', 'counter', 'names', 'defaults', 'borrow', 'hash']


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c, i)
        return c
    for i, e in enumerate(t):
        if e['ev'] == 'end':
            for a in e['res']:
                yield 'other ' + a, with_(i, lambda c, i: c[i]['res'].update({a: 'x'}))
            yield 'build does not end', with_(i, lambda c, i: c.pop(i))
            break
    last = [i for i, e in enumerate(t) if e['ev'] == 'alone'][-1]
    yield 'another order of hashes, another text', with_(last, lambda c, i: c[i]['res'].update(text='x'))
    yield 'definition changed', with_(len(t) - 2, lambda c, i: c[i].update(after='x'))


def run(ctx):
    r = ctx.rng
    cfgs = ['IsoMC.cfg', 'IsoMC_three.cfg'] if ctx.quick else ['IsoMC.cfg', 'IsoMC_three.cfg', 'IsoMC_thorough.cfg', 'IsoMC_live.cfg']
    with ThreadPoolExecutor(2) as ex:
        res = list(ex.map(lambda c: ctx.scenarios('IsoMC', c, workers=4), cfgs))
    ctx.faults_shown(res[0], FAULTS)
    pool = iso.pool(r, ctx.n(8, 80))
    two = [m for m in res[0] if m['fault'] == 'none']
    sc = [iso.of_model(r, m, pool) for m in r.sample(two, ctx.n(120, 3000))]
    # three builds at the same time: the steps of the model are parts of a build
    for m in r.sample(res[1], ctx.n(60, 1000)):
        m = dict(m, sched=[b for b in m['sched'] for _ in range(2)])
        sc.append(iso.of_model(r, m, pool))
    sc += [iso.random_scenario(r) for _ in range(ctx.n(220, 3500))]
    items = ctx.run_traces('IsoTrace', iso.trace, sc, limit=60)
    ctx.need('another order of hashes', 'built again', 'after another', 'at the same time as another', 'twice at the same time', 'definition looked at')
    ctx.binding_selftest('IsoTrace', [x for x in items if len(x[1]) < 60][-6:], corrupt, limit=6)
