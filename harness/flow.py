"""Scenarios of content boxes (spec/Flow.tla) and how they are run and observed.

Tree: {'k': 'box', 'cols', 'gap', 'c', 'st'}, {'k': 'p', 'n', 'st'}, {'k': 't', 'n', 'st'},
{'k': 'i', 'r' (height over width), 'min', 'place', 'st'}, {'k': 'g', 'c', 'st'};
st: own margins among mt, mb, ml, mr (points), inherited by what is inside."""
import os
import re

import gen
import observe
import sut
from sut import mpt

NAMES = dict(mt='margin_top', mb='margin_bottom', ml='margin_left', mr='margin_right')
TOK = re.compile(r'e(\d+)k(\d+)z')


def tiny_jpeg(w, h):
    """File with the header segments of a JPEG of that size."""
    path = os.path.join(gen.image_dir(), 'tiny_%d_%d.jpg' % (w, h))
    if not os.path.exists(path):
        sof = b'\xff\xc0\x00\x0b\x08' + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + b'\x01\x01\x11\x00'
        with open(path, 'wb') as f:
            f.write(b'\xff\xd8' + b'\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00' + sof + b'\xff\xd9')
    return path


class Plan:
    """The elements of a tree in source order, its definition, and what the specification needs to know."""

    def __init__(self, sc):
        self.sc = sc
        self.els, self.boxes, self.nels = [], [], 0
        W, M = sc['page'][0], sc['margin']
        self.width = W - M[1] - M[3]
        root = dict(sc['tree'])
        base = dict(mt=0, mb=5, ml=0, mr=0)
        self.doc = self.box(root, base, [], self.width)
        self.doc['style'] = dict(self.doc.get('style', {}), f='Courier', s=10)

    def own(self, o):
        return {NAMES[k]: v for k, v in o.get('st', {}).items()}

    def box(self, o, inh, chain, width):
        st = dict(inh, **o.get('st', {}))
        b = dict(mt=st['mt'], mb=st['mb'], cols=o.get('cols', 1), gap=-1 if o.get('gap') is None else o['gap'], nest=0)
        self.boxes.append(b)
        n = len(self.boxes)
        b['chain'] = chain + [n]
        if b['cols'] > 1:
            for k in b['chain']:
                self.boxes[k - 1]['nest'] += 1
        g = b['gap'] if b['gap'] >= 0 else max(width / 25, 7)
        cw = (width - g * (b['cols'] - 1)) / b['cols']
        d = {'content': [self.element(c, st, n, cw) for c in o['c']]}
        if 'cols' in o:
            d['cols'] = {'count': o['cols']}
            if o.get('gap') is not None:
                d['cols']['gap'] = o['gap']
        if self.own(o):
            d['style'] = self.own(o)
        return d

    def element(self, o, inh, box, cw, grp=0):
        if o['k'] == 'box':
            return self.box(o, inh, self.boxes[box - 1]['chain'], cw)
        st = dict(inh, **o.get('st', {}))
        if o['k'] == 'g':
            first = len(self.els) + 1
            d = {'group': [self.element(c, st, box, cw, first) for c in o['c']]}
            els = self.els[first - 1:]
            els[0]['mt'] = st['mt']
            need = sum(e['one'] for e in els) + sum(a['mb'] + b['mt'] for a, b in zip(els, els[1:]))
            for e in els:
                e.update(unit=first, need=need, min=need)
        else:
            e = dict(box=box, kind=o['k'], grp=grp, unit=0, n=o.get('n', 1), normal=o.get('place') == 'normal', full=0, low=0, px=(0, 0),
                     **{k: st[k] for k in ('mt', 'mb', 'ml', 'mr')})
            self.els.append(e)
            i = len(self.els)
            toks = ['e%dk%dz' % (i, k + 1) for k in range(e['n'])]
            if o['k'] == 'p':
                d = {'.': '\n'.join(toks)}
                e.update(need=12.3, one=12.3 * e['n'])
            elif o['k'] == 't':
                d = {'table': [[t] for t in toks]}
                e.update(need=23.5, one=23.5 * e['n'])
            else:
                pw = 200 + i
                ph = max(1, int(pw * o['r']))
                e['full'] = (cw - st['ml'] - st['mr']) * ph / pw
                e['px'] = (pw, ph)
                e['need'] = e['one'] = e['low'] = min(o.get('min') or 10 ** 4, e['full'])
                if not grp:
                    e['unit'] = i
                d = {'image': tiny_jpeg(pw, ph)}
                own = {}
                if o.get('min'):
                    own['min_height'] = o['min']
                if o.get('place'):
                    own['image_place'] = o['place']
                if own:
                    d['style'] = own
            e['min'] = e['need']
        if self.own(o):
            d['style'] = dict(d.get('style', {}), **self.own(o))
        return d

    def definition(self):
        W, H = self.sc['page']
        M = self.sc['margin']
        els = [dict({k: e[k] for k in ('box', 'kind', 'grp', 'unit', 'n', 'normal')}, pw=e['px'][0], ph=e['px'][1],
                    **{k: mpt(e[k]) for k in ('mt', 'mb', 'ml', 'mr', 'need', 'min', 'full', 'low')}) for e in self.els]
        boxes = [dict(b, mt=mpt(b['mt']), mb=mpt(b['mb']), gap=mpt(b['gap'])) for b in self.boxes]
        return dict(ev='def', page=dict(x=mpt(M[3]), w=mpt(W - M[1] - M[3]), top=mpt(H - M[0]), bot=mpt(M[2])), boxes=boxes, els=els)


def trace(sc):
    p = Plan(sc)
    W, H = sc['page']
    M = sc['margin']
    if sc.get('how') == 'doc':
        data = sut.build({'style': {'page_size': [W, H], 'margin': M}, 'sections': [p.doc]})
    else:
        from pdfme import PDF
        pdf = PDF(page_size=(W, H), margin=M)
        pdf.add_page()
        pdf.content(p.doc)
        data = sut.out(pdf)
    return [p.definition()] + atoms(p, data) + [dict(ev='end')]


def atoms(p, data):
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return [dict(ev='malformed', rule=e.rule)]
    out = []
    px = {e['px']: i for i, e in enumerate(p.els, 1) if e['kind'] == 'i'}
    for n, page in enumerate(v.pages, 1):
        for w in observe.words(page):
            for m in TOK.finditer(w.s):
                i, k = int(m.group(1)), int(m.group(2))
                g, h = w.gs[m.start()], w.gs[m.end() - 1]
                if i > len(p.els):
                    continue
                e = p.els[i - 1]
                pad = 5.25 if e['kind'] == 't' else 0
                out.append((i, k, n, dict(ev='atom', el=i, k=k, page=n, x1=mpt(g.x - pad), x2=mpt(h.x + h.w + pad), top=mpt(g.y + g.size + pad),
                                          bot=mpt(g.y - pad), slack=2400)))
        for m in page.marks:
            if m['t'] != 'image':
                continue
            x = page.xobjects[m['name']][1].dict
            i = px.get((x['Width'], x['Height']), 0)
            if i:
                x1, y1, x2, y2 = m['x'], m['y'], m['x'] + m['w'], m['y'] + m['h']
                out.append((i, 1, n, dict(ev='atom', el=i, k=1, page=n, x1=mpt(x1), x2=mpt(x2), top=mpt(y2), bot=mpt(y1), slack=0)))
    out.sort(key=lambda a: a[:3])
    return [a[3] for a in out]


# -- random trees ------------------------------------------------------------
class Tree:
    def __init__(self, r, **kw):
        self.r = r
        self.o = dict(images=True, groups=.12, tables=True, margins=True, depth=3, least=.4)
        self.o.update(kw)

    def st(self, o, sides=('mt', 'mb')):
        r = self.r
        if self.o['margins']:
            s = {k: r.choice([0, 3, 5, 9, 14]) for k in sides if r.random() < .25}
            if s:
                o['st'] = s
        return o

    def leaf(self, grp=False):
        r = self.r
        x = r.random()
        if x < .65 or not self.o['images']:
            if self.o['tables'] and r.random() < .15:
                return self.st({'k': 't', 'n': r.randint(1, 2 if grp else 5)})
            o = {'k': 'p', 'n': r.choice([1, 1, 2, 3, 5, 8] if not grp else [1, 2, 3])}
            return self.st(o, ('mt', 'mb') if grp else ('mt', 'mb', 'ml', 'mr'))
        o = {'k': 'i', 'r': r.choice([.2, .4, .7, 1.0])}
        if r.random() < self.o['least']:
            o['min'] = r.choice([8, 20, 40])
        if not grp and r.random() < .5:
            o['place'] = r.choice(['normal', 'flow'])
        return self.st(o, ('mt', 'mb', 'ml', 'mr'))

    def element(self, depth, prod):
        r = self.r
        x = r.random()
        if x < self.o['groups']:
            c = [self.leaf(True) for _ in range(r.randint(1, 3))]
            for i, e in enumerate(c):          # the margins around a group are its own
                e.pop('st', 0) if i in (0, len(c) - 1) else 0
            return self.st({'k': 'g', 'c': c})
        if x < self.o['groups'] + .2 and depth < self.o['depth']:
            return self.box(depth + 1, prod)
        return self.leaf()

    def box(self, depth=0, prod=1):
        r = self.r
        o = {'k': 'box'}
        if r.random() < .55:
            o['cols'] = r.choice([n for n in (1, 2, 2, 3, 4) if n * prod <= 4])
            if r.random() < .4:
                o['gap'] = r.choice([0, 5, 20] if o['cols'] * prod < 4 else [3, 5])
        o['c'] = [self.element(depth, prod * o.get('cols', 1)) for _ in range(r.randint(1, 6 if depth == 0 else 4))]
        return self.st(o)


def random_scenario(r, **kw):
    """A tree whose images and groups fit an empty page."""
    while True:
        t = Tree(r, **kw)
        sc = dict(tree=t.box(), page=[r.choice([360, 400]), r.choice([170, 220, 300])], margin=r.choice([[20, 20, 20, 20], [30, 15, 40, 25]]),
                  how=r.choice(['pdf', 'doc']))
        p = Plan(sc)
        if all(e['min'] < sc['page'][1] - sc['margin'][0] - sc['margin'][2] - 1 for e in p.els):
            return sc
