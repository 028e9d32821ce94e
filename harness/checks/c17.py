"""C17: link areas (spec/Links.tla)."""
import itertools
import random
import re

import gen
import observe
import sut
from pdfread import Bad, Ref
from sut import mpt

TOK = re.compile(r'w\d+[a-vx-z()\\]+')


class WordGen(gen.Gen):
    def word(self):
        self.n += 1
        return 'w%d%s' % (self.n, self.r.choice(['a', 'bc', 'def', '(x', ')y', '\\z', 'xyzxyz']))

    def par(self):
        d = super().par()
        if 'uri' in d or 'ref' in d:      # numbers in links are no words
            k = next(k for k in d if k.startswith('.'))
            d[k] = [x for x in d[k] if not (isinstance(x, dict) and ('var' in x or 'footnote' in x))]
        return d


def chars(o, targets=()):
    """[(text, targets)] of a paragraph."""
    if isinstance(o, (int, float)):
        o = str(o)
    if isinstance(o, str):
        yield o, targets
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from chars(x, targets)
    elif isinstance(o, dict):
        if 'ref' in o:
            targets = targets + ('r:' + o['ref'],)
        if 'uri' in o:
            targets = targets + ('u:' + o['uri'],)
        if 'footnote' in o or 'var' in o:
            yield '0', targets
            return
        for k, v in o.items():
            if k.startswith('.'):
                yield from chars(v, targets)


def paragraphs(o):
    """Every paragraph of a definition, with its footnotes."""
    if isinstance(o, (str, list, tuple)):
        yield o
    elif isinstance(o, dict):
        if any(k.startswith('.') for k in o):
            yield o
        elif 'table' in o:
            for row in o['table']:
                for c in row:
                    yield from paragraphs(c)
        else:
            for x in o.get('content', o.get('group', [])):
                yield from paragraphs(x)
    if not isinstance(o, str):
        yield from notes(o)


def notes(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from notes(x)
    elif isinstance(o, dict):
        if 'footnote' in o:
            yield from paragraphs(o['footnote'])
        for k, v in o.items():
            if k.startswith('.'):
                yield from notes(v)


def definition(doc):
    """token -> (targets, targets of some of the white space before it, of all of it)."""
    out = {}
    ps = []
    for s in doc.get('sections', []):
        ps += paragraphs(s)
    for s in doc.get('running_sections', {}).values():
        ps += paragraphs(s)
    for p in ps:
        text, tg = '', []
        for s, t in chars(p):
            text += s
            tg += [t] * len(s)
        last = 0
        for m in TOK.finditer(text):
            gap = [tg[i] for i in range(last, m.start()) if text[i].isspace()]
            some = sorted({x for g in gap for x in g})
            out[m.group()] = (list(dict.fromkeys(tg[m.start()])), some, [x for x in some if all(x in g for g in gap)])
            last = m.end()
    return out


def goes_on(gs):
    """Nothing but painted white space is between the first and the last of these."""
    return all(g.c == ' ' for g in gs[1:-1]) and all(
        abs(a.y - b.y) < .01 and abs(a.x + a.w - b.x) < .02 for a, b in zip(gs, gs[1:]))


def file_events(data, doc):
    ev = []
    try:
        want = definition(doc)
        v = sut.View(data)
        for page in v.pages:
            ws = observe.words(page)
            boxes = sorted((w.x, w.x2, w.gs[0].y + w.gs[0].rise, max(g.size for g in w.gs)) for w in ws)
            messy = any(c[0] < b[1] - .05 and (b[2] - .3 * b[3] < c[2] < b[2] + .8 * b[3] or c[2] - .3 * c[3] < b[2] < c[2] + .8 * c[3])
                        for i, b in enumerate(boxes) for c in itertools.takewhile(lambda c: c[0] < b[1], boxes[i + 1:]))
            ev.append(dict(ev='page', messy=messy))
            prev, gs = None, observe.glyphs(page)
            for w in ws:
                for m in TOK.finditer(w.s):
                    g, h = w.gs[m.start()], w.gs[m.end() - 1]
                    t, some, all_ = want.get(m.group(), ([], [], []))
                    x1, x2, y = mpt(g.x), mpt(h.x + h.w), mpt(g.y + g.rise)
                    on = prev is not None and goes_on(gs[prev[1]:g.seq + 1])
                    ev.append(dict(ev='tok', x1=x1, x2=x2, y=y, b=mpt(g.y), on=on, px=prev[0] if on else x1, t=t, some=some, all=all_))
                    prev = (x2, h.seq)
            for a, r in observe.links(page):
                obj = 0
                if 'Dest' in a:
                    d = v.pdf.get(a['Dest'])
                    if not isinstance(d, bytes):
                        raise Bad('LinkDestination', d)
                    t = 'r:' + d.decode('latin-1')
                else:
                    act = v.pdf.get(a.get('A'))
                    if not isinstance(act, dict) or act.get('S') != 'URI' or not isinstance(v.pdf.get(act.get('URI')), bytes):
                        raise Bad('LinkAction', act)
                    t = 'u:' + v.pdf.get(act['URI']).decode('latin-1')
                    obj = int(a['A']) if isinstance(a['A'], Ref) else -1 - len(ev)
                ev.append(dict(ev='annot', t=t, obj=obj, x1=min(r[0], r[2]), x2=max(r[0], r[2]), y1=min(r[1], r[3]), y2=max(r[1], r[3])))
            ev.append(dict(ev='endpage'))
    except Bad as e:
        ev.append(dict(ev='malformed', rule=e.rule))
    return ev


def small(sc):
    """A paragraph of the model: words in and out of links, in lines of sc.per words."""
    from pdfme import PDF
    r = random.Random(sc['seed'])
    link = {'a': {'uri': 'http://a.b/c'}, 'b': {'ref': 'here'}}
    par = [{'label': 'here', '.': 'w90x'}, '\n']
    els = []
    for i, w in enumerate(sc['ws']):
        word = 'w%dz' % (i + 1)
        if w['same']:
            els[-1][1] += ' ' + word
        else:
            els.append([w['k'], word])
    for i, (k, text) in enumerate(els):
        if i:
            par.append(' ')
        if k == '':
            par.append(text)
        elif len(k) == 1:
            par.append(dict(link[k], **{'.' + r.choice(['', 'b', 'u', 'r:0.4']): text}))
        elif r.random() < .5:
            par.append(dict(link['a'], **dict(link['b'], **{'.': text})))
        else:
            par.append(dict(link['a'], **{'.': [dict(link['b'], **{'.': [text]})]}))
    doc = {'sections': [{'content': [{'.f:Courier;s:10': par}]}]}
    import copy
    pdf = PDF(page_size=(18 + 24 * sc['per'] + 1 + 40, 200), margin=20)
    pdf.add_page()
    if r.random() < .5:
        pdf.text(copy.deepcopy(doc['sections'][0]['content'][0]), text_align=r.choice('lrc'))
    else:
        pdf.content(copy.deepcopy(doc['sections'][0]))
    return file_events(sut.out(pdf), doc)


def whole(sc):
    return file_events(sut.build(gen.materialize(sc['doc'])), sc['doc'])



def once(o, targets=()):
    """No link inside of a link to the same target."""
    if isinstance(o, (list, tuple)):
        for x in o:
            once(x, targets)
    elif isinstance(o, dict):
        for k in ('ref', 'uri'):
            if k in o:
                if (k, o[k]) in targets:
                    del o[k]
                else:
                    targets += ((k, o[k]),)
        for v in o.values():
            once(v, targets)


URIS = ['http://x.y/', 'http://x.y', 'http://X.y/', 'HTTP://x.y', 'mailto:a@b.c', 'http://x.y/a(b)c', 'file:///c:\\d\\e', 'http://x.y/?a=b&c=d#e', 'http://x.y/%20 z ',
        'x', '#top', 'http://x.y/\xe9\xfc', 'http://x.y/' + 'long/' * 80, '/a//b/../c', 'http://u:p@x.y:80/z', 'ref:L0', '$uri:x', 'http://x.y/((', 'http://x.y/1', 'http://x.y/2']


def other_uris(o, names):
    if isinstance(o, (list, tuple)):
        for x in o:
            other_uris(x, names)
    elif isinstance(o, dict):
        if 'uri' in o:
            o['uri'] = names[o['uri']]
        for v in o.values():
            other_uris(v, names)


def linked(g, doc):
    """With links in running sections, which are painted on every page."""
    if g.r.random() < .7:
        k = g.r.randrange(len(URIS)) if g.r.random() < .5 else None
        # some that look alike, or any
        pool = URIS[k:k + 4] if k is not None and k < len(URIS) - 4 else g.r.sample(URIS, 4)
        other_uris(doc, {'http://x.y/%d' % (i + 1): u for i, u in enumerate(pool)})
    once(doc)
    for i, s in enumerate(doc.get('running_sections', {}).values()):
        s['content'] = [{'.': [{'uri': 'http://x.y/1', '.': ['w990000%da' % i, ' ', {'.b': 'w991000%da' % i}]}]}]
    return doc


def run(ctx):
    r = ctx.rng
    sc = ctx.scenarios('LinksMC')
    if not ctx.quick:
        ctx.design('LinksMC', 'LinksMC_thorough.cfg')
    sc = [dict(s, seed=r.randrange(10 ** 6)) for s in sc]
    items = ctx.run_traces('LinksTrace', small, sc)
    docs = []
    for _ in range(ctx.n(300, 3000)):
        g = WordGen(random.Random(r.random()), images=r.random() < .3)
        docs.append(dict(doc=linked(g, g.document())))
    ctx.run_traces('LinksTrace', whole, docs, limit=60)
    ctx.need('link in a link', 'link of two words', 'link over two lines', 'uri used again', 'link to a label')

    def corrupt(t):
        import copy
        an = [i for i, e in enumerate(t) if e['ev'] == 'annot']
        if not an:
            return
        for f, d in (('x1', 1500), ('x1', -1500), ('x2', 1500), ('x2', -1500), ('y1', 9000)):
            c = copy.deepcopy(t)
            c[an[0]][f] += d
            yield 'area.%s%+d' % (f, d), c
        c = copy.deepcopy(t)
        del c[an[0]]
        yield 'area lost', c
        c = copy.deepcopy(t)
        c.insert(an[0], c[an[0]])
        yield 'area repeated', c
        c = copy.deepcopy(t)
        c[an[0]]['t'] = 'u:other'
        yield 'target', c
        for i in an:
            if t[i]['obj'] and [j for j in an if t[j]['obj'] == t[i]['obj'] and j != i]:
                c = copy.deepcopy(t)
                c[i]['obj'] = 9999
                yield 'uri stored twice', c
                break
    ctx.binding_selftest('LinksTrace', items[-30:], corrupt, limit=12)
