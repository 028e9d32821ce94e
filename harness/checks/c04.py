"""C04: named destinations (spec/Dests.tla)."""
import random

import gen
import observe
import refs
import sut
from pdfread import Bad


def file_events(data, defn):
    ev = []
    try:
        v = sut.View(data)
        pl = refs.places(v)
        nowhere = dict(page=-2, x=0, y=0, size=0)
        for lab, tok in refs.labels(defn):
            ev.append(dict(ev='declared', key=refs.key(lab), **pl.get(tok, nowhere)))
        nodes, _ = refs.dest_nodes(v)
        ev += nodes
        want = refs.ref_tokens(defn)
        for p, page in enumerate(v.pages):
            rects = [(a, [x / 1000 for x in r]) for a, r in observe.links(page) if 'Dest' in a]
            used = set()
            for w in observe.words(page):
                for m in refs.TOK.finditer(w.s):
                    gs = w.gs[m.start():m.end()]
                    cx, cy = (gs[0].x + gs[-1].x + gs[-1].w) / 2, gs[0].y + gs[0].rise
                    over = [i for i, (a, r) in enumerate(rects) if r[0] <= cx <= r[2] and r[1] <= cy <= r[3]]
                    names = [list(rects[i][0]['Dest']) for i in over if isinstance(rects[i][0]['Dest'], bytes)]
                    for ref in want.get(m.group(), ()):
                        ev.append(dict(ev='link', want=refs.key(ref), got=names))
                    used.update(i for i in over if rects[i][0]['Dest'] in [x.encode('latin-1') for x in want.get(m.group(), ())])
            for i in set(range(len(rects))) - used:
                ev.append(dict(ev='stray', name=i))
    except Bad as e:
        return ev + [dict(ev='malformed', rule=e.rule)]
    return ev + [dict(ev='end')]


def labels_doc(sc):
    """Labels with the given keys, in the given order, in paragraphs of the low-level interface."""
    from pdfme import PDF
    r = random.Random(sc['seed'])
    pdf = PDF(page_size=(300, 200), margin=20, font_family='Courier', font_size=r.choice([8, 10]), text_align=r.choice('lrcj'))
    pdf.add_page()
    keys = [bytes(k).decode('latin-1') for k in sc['keys']]
    defn, n = [], 0

    def word():
        nonlocal n
        n += 1
        return 'w%d' % n
    i = 0
    while i < len(keys):
        par = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < .6 and i < len(keys):
                par.append({'label': keys[i], '.' + r.choice(['', 'b', 's:14', 'r:0.4']): ' '.join(word() for _ in range(r.choice([1, 1, 2, 12, 80])))})
                i += 1
            elif x < .8:
                par.append({'ref': r.choice(keys), '.': [word(), ' ' + word()]})
            else:
                par.append(' '.join(word() for _ in range(r.randint(1, 6))))
            par.append(' ')
        defn.append(par)
        pdf.text([dict(x) if isinstance(x, dict) else x for x in par])
        for _ in range(sc.get('writes', 1) - 1):
            sut.out(pdf)
    return file_events(sut.out(pdf), defn)


def whole(sc):
    return file_events(sut.build(gen.materialize(sc['doc'])), sc['doc'])


def rkey(r):
    al = r.choice(['ab', 'abcXYZ', '()\\ ', 'aé~ÿ0', '\r\n\t', '0123456789'])
    return list(''.join(r.choice(al) for _ in range(r.randint(1, 6))).encode('latin-1'))


def run(ctx):
    r = ctx.rng
    sets = ctx.scenarios('DestsMC', ctx.n('DestsMC.cfg', 'DestsMC_thorough.cfg'))
    ctx.design('DestsMC', 'DestsMC_fan2.cfg')
    small = [s for s in sets if len(s) <= 4]
    r.shuffle(small)
    sc = [dict(keys=s, seed=r.randrange(10 ** 6)) for s in small[:ctx.n(250, 3000)] + [s for s in sets if len(s) > 4]]
    sizes = list(range(1, 24)) + [48, 49, 50, 51, 56, 57, 98, 343, 344, 350]
    for n in sizes if ctx.quick else sizes + list(range(24, 60)) + [99, 400, 700]:
        if r.random() < .5:
            keys = [[97 + i // 26 // 26, 97 + i // 26 % 26, 97 + i % 26] for i in range(n)]
        else:
            keys = []
            while len(keys) < n:
                k = rkey(r) + ([48 + len(keys) % 10] if n > 10 else [])
                if k not in keys:
                    keys.append(k)
        r.shuffle(keys)
        sc.append(dict(keys=keys, seed=r.randrange(10 ** 6), writes=1 if n > 30 else r.choice([1, 2])))
    items = ctx.run_traces('DestsTrace', labels_doc, sc, limit=60)
    docs = []
    for _ in range(ctx.n(250, 2500)):
        g = gen.Gen(random.Random(r.random()), footnotes=False, vars=False)
        d = g.document()
        if g.labels:
            docs.append(dict(doc=d))
    ctx.run_traces('DestsTrace', whole, docs)
    ctx.need('leaf below the root', 'inner node below the root', 'label on a later page', 'link')

    def corrupt(t):
        import copy
        nodes = [i for i, e in enumerate(t) if e['ev'] == 'node']
        if len(nodes) < 2:
            return
        c = copy.deepcopy(t)
        c[nodes[-1]]['limits'][1] = c[nodes[-1]]['limits'][0]
        yield 'limit damaged', c
        c = copy.deepcopy(t)
        c[nodes[-1]]['names'][-2:] = c[nodes[-1]]['names'][-2:][::-1]
        yield 'keys swapped', c
        for f in ('page', 'x', 'y'):
            c = copy.deepcopy(t)
            c[nodes[-1]]['at'][0][f] += 1000
            yield 'destination.' + f, c
        for i, e in enumerate(t):
            if e['ev'] == 'link':
                c = copy.deepcopy(t)
                c[i]['got'] = [k + [65] for k in c[i]['got']]
                yield 'link target', c
                break
    ctx.binding_selftest('DestsTrace', [x for x in items if len(x[0]['keys']) in range(9, 30)], corrupt)
