"""C19: the style of every character (spec/Style.tla)."""
import copy

import cascade

FAULTS = ['outer', 'order', 'leak', 'drop', 'sticky', 'rise']
MENU = {'-': ([], []), 'bold': ([['b', True]], []), 'thin': ([], [['b', False]]),
        'both': ([['s', 12], ['c', ['num', [.3]]]], [['s', 9]]), 'rise': ([['r', .5]], [['s', 8]]),
        'line': ([['u', True]], [['c', ['name', 'red']]]), 'back': ([], [['bg', ['hex', [1, 2, 3]]]]), 'none': ([['bg', ['none', []]], ['u', False]], [])}


def of_model(m, r):
    """The chain of elements of the model: the outer ones boxes, tables or cells where they have no style string."""
    t = m['tree']
    outer = 0
    while outer < len(t) - 1 and not MENU[t[outer]][0] and r.random() < .7:
        outer += 1
    node = None
    for k in reversed(range(outer, len(t))):
        a, b = MENU[t[k]]
        kids = ['w'] + ([node] + ['w'] if node else [])
        node = dict(k='in' if k > outer else 'par', str=copy.deepcopy(a), sty=copy.deepcopy(b), named=r.random() < .4, kids=kids)
    node['k'] = 'par'
    for k in reversed(range(outer)):
        o = dict(sty=copy.deepcopy(MENU[t[k]][1]), named=r.random() < .3)
        word = dict(k='par', kids=['w'])
        node = dict(o, k='table', kids=[[word, node], [copy.deepcopy(word), copy.deepcopy(word)]]) if r.random() < .5 else dict(o, k='box', kids=[word, node, copy.deepcopy(word)])
    if node['k'] != 'box' or r.random() < .5:
        node = dict(k='box', kids=[node])
    return dict(how='doc', how_=r.randrange(1000), root=[], secs=[node])


def corrupt(t):
    def with_(i, f):
        c = copy.deepcopy(t)
        f(c[i])
        return c
    for i, e in enumerate(t):
        if e['ev'] == 'tok' and e['looks']:
            yield 'other font', with_(i, lambda e: e['looks'][0].update(font='Courier-Bold' if e['looks'][0]['font'] != 'Courier-Bold' else 'Courier'))
            yield 'other size', with_(i, lambda e: e['looks'][0].update(size=e['looks'][0]['size'] + 10))
            yield 'other color', with_(i, lambda e: e['looks'][0].update(c=[x + 30 for x in e['looks'][0]['c']]))
            yield 'other rise', with_(i, lambda e: e['looks'][0].update(rise=e['looks'][0]['rise'] + 100))
            yield 'other underline', with_(i, lambda e: e.update(under=[] if e['under'] else [[0, 0, 0]]))
            yield 'other background', with_(i, lambda e: e.update(back=[] if e['back'] else [0, 0, 0]))
            yield 'one character different', with_(i, lambda e: e['looks'].append(dict(e['looks'][0], size=e['looks'][0]['size'] + 500)))
            c = copy.deepcopy(t)
            c.pop(i)
            yield 'word not painted', c


def run(ctx):
    r = ctx.rng
    model = ctx.scenarios('StyleMC', 'StyleMC.cfg' if ctx.quick else 'StyleMC_thorough.cfg', workers=6)
    ctx.faults_shown(model, FAULTS)
    if not ctx.quick:
        ctx.design('StyleMC', 'StyleMC_live.cfg')
    sc = [of_model(m, r) for m in model if m['fault'] == 'none']
    if ctx.quick:
        sc = r.sample(sc, 300)
    sc += [cascade.random_scenario(r) for _ in range(ctx.n(500, 9000))]
    items = ctx.run_traces('StyleTrace', cascade.trace, sc, limit=60)
    ctx.need(*['hides ' + a for a in ('f', 'b', 'i', 'u', 's', 'r', 'c', 'bg')])
    ctx.need('bold switched off', 'underline switched off', 'background switched off', 'color num', 'color hex', 'color name', 'underline', 'background', 'lowered', 'raised')
    ctx.binding_selftest('StyleTrace', [x for x in items if len(x[1]) < 20][-6:], corrupt, limit=6)
