"""C05: the outline tree (spec/Outline.tla)."""
import random

import gen
import refs
import sut
from pdfread import Bad, Ref


def ident(x):
    return int(x) if isinstance(x, Ref) else 0


def file_events(data, defn, levels):
    ev = [dict(ev='open', levels=levels)]
    try:
        v = sut.View(data)
        pl = refs.places(v)
        nowhere = dict(page=-2, x=0, y=0, size=0)
        for lv, title, tok in refs.outlines(defn):
            ev.append(dict(ev='declared', level=lv, title=refs.key(title), **pl.get(tok, nowhere)))
        _, flat = refs.dest_nodes(v)
        pdf = v.pdf
        root = pdf.root.get('Outlines')
        if root is not None:
            d = pdf.get(root)
            ev.append(dict(ev='root', id=ident(root), first=ident(d.get('First')), last=ident(d.get('Last')), count=d.get('Count', 0)))
            seen = set()

            def chain(ref):
                while isinstance(ref, Ref):
                    if int(ref) in seen:
                        raise Bad('OutlineIsATree')
                    seen.add(int(ref))
                    o = pdf.get(ref)
                    if not isinstance(o, dict):
                        raise Bad('OutlineItem', o)
                    to = flat.get(o.get('Dest'), dict(page=-3, x=0, y=0))
                    if not isinstance(o.get('Title'), bytes) or not isinstance(o.get('Count', 0), int):
                        raise Bad('OutlineItem', o)
                    ev.append(dict(ev='item', id=int(ref), title=list(o['Title']), hascount='Count' in o, count=o.get('Count', 0),
                                   **{k.lower(): ident(o.get(k)) for k in ('Parent', 'Prev', 'Next', 'First', 'Last')}, **to))
                    chain(o.get('First'))
                    ref = o.get('Next')
            chain(d.get('First'))
    except Bad as e:
        return ev + [dict(ev='malformed', rule=e.rule)]
    return ev + [dict(ev='end')]


def levels_doc(sc):
    """Entries of the given levels through the low-level interface."""
    from pdfme import PDF
    r = random.Random(sc['seed'])
    pdf = PDF(page_size=(260, 160), margin=20, font_family='Courier', font_size=9, outlines_level=sc['open'], text_align=r.choice('lrcj'))
    pdf.add_page()
    defn, told, n, i = [], [], 0, 0

    def words(k):
        nonlocal n
        out = ['w%d' % (n + j + 1) for j in range(k)]
        n += k
        return ' '.join(out)
    title = r.choice(['t', 'part (', 'a\\b '])
    while i < len(sc['levels']):
        par = []
        if r.random() < .4:
            par.append(words(r.choice([1, 5, 40])) + ' ')
        for _ in range(r.randint(1, 2)):
            if i < len(sc['levels']):
                el = {'label': 'L%d' % i, 'outline': {'level': sc['levels'][i], 'text': '%s%d' % (title, r.choice([i, i, 0]))}}
                el['.' + r.choice(['', 'b'])] = words(r.choice([1, 2, 30, 90]))
                if sc['levels'][i] == 1 and r.random() < .3:
                    del el['outline']['level']
                if r.random() < .4:
                    del el['label']
                if r.random() < .2:
                    el['outline']['text'] = next(v for k, v in el.items() if k.startswith('.'))
                    told.append(el['outline'])
                par += [el, ' ']
                i += 1
        titles = [(o, o.pop('text')) for o in told]     # the text of the element, if no other is given
        defn.append(par)
        how = r.random()
        if how < .6:
            pdf.text(par)
        elif how < .8:
            pdf.content({'content': [{'.': par}, {'.': words(3)}], 'cols': {'count': r.choice([1, 2, 3])}})
        else:
            pdf.table([[{'.': par}, words(2)]])
        for o, t in titles:
            o['text'] = t
        told = []
        if r.random() < .1:
            sut.out(pdf)
    for p in defn:
        for el in p:
            if isinstance(el, dict) and 'outline' in el:
                el['outline'].setdefault('level', 1)
    return file_events(sut.out(pdf), defn, sc['open'])


def whole(sc):
    return file_events(sut.build(gen.materialize(sc['doc'])), sc['doc'], sc['doc']['style'].get('outlines_level', 1))


def run(ctx):
    r = ctx.rng
    seqs = ctx.scenarios('OutlineMC', ctx.n('OutlineMC.cfg', 'OutlineMC_thorough.cfg'))
    r.shuffle(seqs)
    sc = [dict(s, seed=r.randrange(10 ** 6)) for s in seqs[:ctx.n(800, 6000)]]
    for _ in range(ctx.n(30, 300)):
        lv = [1]
        for _ in range(r.choice([8, 20, 40])):
            lv.append(r.randint(1, min(6, lv[-1] + 1)))
        sc.append(dict(levels=lv, open=r.randint(1, 6), seed=r.randrange(10 ** 6)))
    items = ctx.run_traces('OutlineTrace', levels_doc, sc, limit=60)
    docs = []
    while len(docs) < ctx.n(150, 1500):
        g = gen.Gen(random.Random(r.random()), footnotes=r.random() < .3)
        d = g.document()
        if g.labels:
            docs.append(dict(doc=d))
    ctx.run_traces('OutlineTrace', whole, docs)
    ctx.need('open entry', 'closed entry', 'sibling', 'third level', 'later page')

    def corrupt(t):
        import copy
        its = [i for i, e in enumerate(t) if e['ev'] == 'item']
        if len(its) < 3:
            return
        for f in ('parent', 'prev', 'next', 'first', 'last', 'count', 'page', 'x', 'y'):
            c = copy.deepcopy(t)
            c[its[1]][f] += 1000
            if f == 'count':
                c[its[1]]['hascount'] = True
            yield 'item.' + f, c
        c = copy.deepcopy(t)
        del c[its[-1]]
        yield 'item dropped', c
        c = copy.deepcopy(t)
        c[[i for i, e in enumerate(t) if e['ev'] == 'root'][0]]['count'] += 1
        yield 'root.count', c
    ctx.binding_selftest('OutlineTrace', items[-12:], corrupt, limit=6)
