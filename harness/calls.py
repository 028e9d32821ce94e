"""Calls of a PDF, one by one (spec/Calls.tla), and how they are run and observed.

A scenario is {'def': .., 'ops': [..]}: the events of the specification without what was observed, and with 'form', which picks how
a value is written down (a margin as a list, a text or a dict, a style as a dict, a text or a named format)."""
import io
import os

import gen
import observe
import sut
from sut import mpt

NOST = dict(name='', f='', s=-1, c=-1, b=-1)
NOOPT = dict(al='', lh=-1, ind=-1)
NONE = dict(kind='none', v=[])
NOLIST = dict(n=0, ind=-1)
NOBOX = dict(x=-1, y=-1, w=-1, h=-1)
# id -> how it is written, what is painted
COLORS = {100: ([0.1], (.1, .1, .1)), 1: (['blue', '0 0 1', [0, 0, 1], '#00f'], (0, 0, 1)), 2: (['red', '#ff0000', (1, 0, 0)], (1, 0, 0)),
          3: ([[.2, .4, .6], '.2 .4 .6', '#336699'], (.2, .4, .6)), 4: ([.5, [.5], '0.5'], (.5, .5, .5)), 5: (['black', 0, '#000'], (0, 0, 0))}
SEEN = {tuple(round(x, 3) for x in v): k for k, (_, v) in COLORS.items()}


def seen(c):
    c = tuple(round(x, 3) for x in c or ())
    return SEEN.get(c * 3 if len(c) == 1 else c, 0)

FAMILY = {'Helvetica': 'Helvetica', 'Courier': 'Courier', 'Times': 'Times'}
BASES = {'Helvetica': ('Helvetica', 0), 'Helvetica-Bold': ('Helvetica', 1), 'Courier': ('Courier', 0), 'Courier-Bold': ('Courier', 1),
         'Times-Roman': ('Times', 0), 'Times-Bold': ('Times', 1)}


def num(v):
    v = v / 1000
    return int(v) if v == int(v) else v


def color(c, form=0):
    f = COLORS[c][0]
    return f[form % len(f)]


def size_of(s, form=0):
    k, v = s['kind'], s['v']
    return None if k == 'none' else v[0] if k == 'named' else num(v[0]) if k == 'square' else [tuple, list][form % 2](num(x) for x in v)


def margin_of(m, form=0):
    k = m['kind']
    if k == 'none':
        return None
    if k == 'sides':
        return {s: num(x) for s, x in zip(('top', 'right', 'bottom', 'left'), m['v']) if x >= 0}
    v = [num(x) for x in m['v']]
    if form % 4 == 3 and v:
        return ' '.join(map(str, v))
    if form % 4 == 2 and v:
        return ','.join(map(str, v))
    if len(v) == 1 and form % 4 == 1:
        return v[0]
    return v if form % 2 else tuple(v)


def style(st, form=0):
    """(style, dot text)"""
    if st['name']:
        return st['name'], ''
    d = {}
    if st['f']:
        d['f'] = st['f']
    if st['s'] >= 0:
        d['s'] = num(st['s'])
    if st['c'] >= 0:
        d['c'] = color(st['c'], form)
    if st['b'] >= 0:
        d['b'] = bool(st['b'])
    if form % 3 == 2 and d and st['b'] != 0 and not isinstance(d.get('c'), (list, tuple)):
        return None, ';'.join(k if v is True else '%s:%s' % (k, v) for k, v in d.items())
    return d, ''


def options(o, list_=NOLIST, listtext=None):
    d = {}
    if o['al']:
        d['text_align'] = o['al']
    if o['lh'] >= 0:
        d['line_height'] = o['lh'] / 1000
    if o['ind'] >= 0:
        d['indent'] = num(o['ind'])
    if list_['n']:
        d['list_text'] = listtext
        if list_['ind'] >= 0:
            d['list_indent'] = num(list_['ind'])
    return d


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.n = {}          # id -> (call, k, digits)
        self.events = []
        self.heads = []
        self.imgs = {}
        self.cols = {}
        self.files = []

    def word(self, call, k, n):
        w = '%03d%03d' % (call, k if k > 0 else 500 - k)
        self.n[w] = (call, k, n)
        return w + '0' * (n - 6)

    def paragraph(self, call, el, k, form):
        """(content, list text) of paragraph el, whose first line is line k + 1 of the call."""
        parts = []
        plain = True
        for i, it in enumerate(el['items']):
            w = self.word(call, k + 1 + i, it['n'])
            st, dot = style(it['st'], form + i)
            if i:
                parts.append('\n')
            if it['st'] != NOST or it['var']:
                plain = False
                p = {'.' + dot: [w, {'var': it['var']}] if it['var'] else w if form % 2 else [w]}
                if st:
                    p['style'] = st
                parts.append(p)
            else:
                parts.append(w)
        if plain and form % 2:
            parts = ''.join(parts)
        lt = self.word(call, -(k + 1), el['list']['n']) if el['list']['n'] else None
        return parts, lt

    def elements(self, call, e):
        out, k = [], 0
        for q, el in enumerate(e['elems']):
            form = e.get('form', 0) + q
            parts, lt = self.paragraph(call, el, k, form)
            k += len(el['items'])
            st, dot = style(el['st'], form)
            o = options(el['opts'], el['list'], lt)
            if o and not isinstance(st, dict):
                if el['st']['name']:
                    st = dict(self.formats[el['st']['name']], **o)
                else:
                    st, dot = style(el['st'], 0)
                    st = dict(st, **o)
            elif o:
                st = dict(st, **o)
            if st or dot:
                d = {'.' + dot: parts}
                if st:
                    d['style'] = st
                out.append(d)
            else:
                out.append(parts if isinstance(parts, str) or form % 3 == 0 else {'.': parts})
        return out

    def para(self, e):
        """Arguments (content, keywords) of text, _text, content and _content."""
        call = self.call
        if e['gap'] == 0:
            el = e['elems'][0]
            parts, lt = self.paragraph(call, el, 0, e.get('form', 0))
            both = dict(el['st'])
            st, dot = style(both, e.get('form', 0))
            content = parts
            if st or dot:
                content = {'.' + dot: parts}
                if st:
                    content['style'] = st
            return content, options(el['opts'], el['list'], lt)
        st, _ = style(e['st'], e.get('form', 0) // 3 * 3)
        o = options(e['opts'])
        if o:
            st = dict(self.formats[e['st']['name']] if e['st']['name'] else st, **o)
        d = {'content': self.elements(call, e)}
        if st:
            d['style'] = st
        return d, {}

    def box(self, e):
        """Where an own-place call goes; wide enough."""
        p = self.pdf.page
        b = e['box']
        x = p.x if b['x'] < 0 else b['x'] / 1000
        w = p.width - p.margin_right - x if b['w'] < 0 else b['w'] / 1000
        if w < 150:
            b.update(x=mpt(p.margin_left), w=150000)
        return {k: num(b[s]) for s, k in (('x', 'x'), ('y', 'y'), ('w', 'width'), ('h', 'height')) if b[s] >= 0}

    def do(self, e):
        pdf, ev = self.pdf, e['ev']
        form = e.get('form', 0)
        if ev == 'set':
            v = e['v']
            setattr(pdf, dict(f='font_family', s='font_size', c='font_color', al='text_align', lh='line_height', ind='indent')[e['what']],
                    v if isinstance(v, str) else color(v, form) if e['what'] == 'c' else num(v))
        elif ev in ('setup', 'page'):
            kw = {}
            for k, v in (('page_size', size_of(e['size'], form)), ('rotate_page', None if e['rot'] < 0 else bool(e['rot'])), ('margin', margin_of(e['m'], form))):
                if v is not None or form % 5 == 4:
                    kw[k] = v
            (pdf.setup_page if ev == 'setup' else pdf.add_page)(**kw)
        elif ev == 'fmt':
            self.formats[e['name']] = pdf.formats[e['name']] = style(e['st'], 0)[0]
        elif ev == 'ctx':
            pdf.context[e['name']] = e['v']
        elif ev == 'head':
            c, _ = self.para(dict(e, gap=5000))
            pdf.add_running_section(c, num(e['w']), num(e['h']), num(e['x']), num(e['y']))
            self.heads.append(self.call)
        elif ev == 'go':
            e['page'] = e['page'] % len(pdf.pages) + 1
            pdf.page_index = e['page'] - 1
        elif ev == 'at':
            if e['x'] >= 0:
                pdf.page.x = num(e['x'])
            if e['y'] >= 0:
                pdf.page.y = num(e['y'])
        elif ev == 'para':
            if not e['own']:
                kw = self.box(e)
                if e['move'] != 'bottom' or form % 2:
                    kw['move'] = e['move']
                c, o = self.para(e)
                (pdf._text if e['gap'] == 0 else pdf._content)(c, **o, **kw)
            else:
                c, o = self.para(e)
                (pdf.text if e['gap'] == 0 else pdf.content)(c, **o)
        elif ev == 'table':
            call = self.call
            rows = [[self.word(call, r * e['cols'] + c + 1, 6) for c in range(e['cols'])] for r in range(e['rows'])]
            u = (call % 9 / 10 + .05, call // 9 % 10 / 10, call // 90 / 10 + .03)
            self.cols[tuple(round(x, 3) for x in u)] = call
            st = style(e['st'], 0)[0]
            st = dict(self.formats[st] if isinstance(st, str) else st, border_color=list(u))
            if e['own']:
                pdf.table(rows, style=st)
            else:
                kw = self.box(e)
                if e['move'] != 'bottom' or form % 2:
                    kw['move'] = e['move']
                pdf._table(rows, style=st, **kw)
        elif ev == 'image':
            from PIL import Image
            p = os.path.join(gen.image_dir(), 'call%d.jpg' % self.call)
            Image.new('RGB', (e['num'], e['den']), (self.call * 37 % 250, self.call * 91 % 250, self.call)).save(p, comment=b'call %d' % self.call)
            self.files.append(p)
            self.imgs[open(p, 'rb').read()] = self.call
            kw = {k: num(e[s]) for s, k in (('x', 'x'), ('y', 'y'), ('w', 'width'), ('h', 'height')) if e[s] >= 0}
            pdf.image(p, **kw, **({'move': e['move']} if e['move'] != 'bottom' or form % 2 else {}))

    def run(self):
        from pdfme import PDF
        d = dict(self.sc['def'])
        form = d.get('form', 0)
        kw = dict(page_size=size_of(d['size'], form), rotate_page=None if d['rot'] < 0 else bool(d['rot']), margin=margin_of(d['m'], form),
                  font_family=d['f'] or None, font_size=None if d['s'] < 0 else num(d['s']), font_color=None if d['c'] < 0 else color(d['c'], form),
                  text_align=d['al'] or None, line_height=None if d['lh'] < 0 else d['lh'] / 1000, indent=None if d['ind'] < 0 else num(d['ind']),
                  page_numbering_style='roman' if d['roman'] else None)
        self.formats = {}
        self.pdf = pdf = PDF(**{k: v for k, v in kw.items() if v is not None})
        self.events.append(d)
        try:
            for n, op in enumerate(self.sc['ops']):
                self.call = n + 1
                e = dict(op, **({'box': dict(op['box'])} if 'box' in op else {}))
                before = len(pdf.pages)
                self.do(e)
                e['cur'] = [pdf.page_index + 1, mpt(pdf.page.x), mpt(pdf.page.y), len(pdf.pages)] if pdf.pages else [0, 0, 0, 0]
                e['new'] = list(range(before, len(pdf.pages)))
                e['hd'] = list(self.heads)
                self.events.append(e)
            return sut.out(pdf)
        finally:
            for p in self.files:
                os.remove(p)

    def pieces(self, page):
        """(call, k, glyphs, digits) of the words of a page; None: of no call."""
        for w in observe.words(page):
            gs = w.gs
            while gs:
                s = ''.join(g.c for g in gs)
                if s[:6] not in self.n:
                    yield None
                    break
                call, k, n = self.n[s[:6]]
                cut = n if k < 0 else len(gs)
                yield call, k, gs[:cut], n
                gs = gs[cut:]

    def trace(self):
        data = self.run()
        try:
            v = sut.View(data)
        except sut.Bad as x:
            return [self.events[0], dict(ev='malformed', rule=x.rule)]
        strange = 0
        obs, boxes, imgs = {}, {}, {}
        for p, page in enumerate(v.pages):
            top = lambda y: mpt(page.height - y)
            for w in self.pieces(page):
                if w is None:
                    strange += 1
                    continue
                call, k, gs, n = w
                g = gs[0]
                f, b = BASES.get(g.font, ('', 0))
                same = all((q.font, q.size, q.color) == (g.font, g.size, g.color) for q in gs)
                c = seen(g.color) if same else 0
                obs.setdefault(call, []).append(dict(k=k, page=p + 1, x=mpt(g.x), base=top(g.y), w=mpt(gs[-1].x + gs[-1].w - g.x), s=mpt(g.size), f=f, b=b, c=c,
                                                     tail=''.join(q.c for q in gs[n:])))
            for m in page.marks:
                if m['t'] == 'line':
                    call = self.cols.get(tuple(round(x, 3) for x in m['color']))
                    if call is None:
                        strange += 1
                        continue
                    xs, ys = boxes.setdefault(call, {}).setdefault(p, ([], []))
                    if abs(m['y1'] - m['y2']) < .01:
                        ys.append(m['y1'])
                    else:
                        xs.append(m['x1'])
                elif m['t'] == 'image':
                    call = self.imgs.get(page.xobjects[m['name']][1].raw)
                    if call is None:
                        strange += 1
                        continue
                    imgs.setdefault(call, []).append(dict(page=p + 1, x=mpt(m['x']), y=top(m['y'] + m['h']), w=mpt(m['w']), h=mpt(m['h'])))
                elif m['t'] != 'text':
                    strange += 1
        out = [self.events[0]]
        for n, e in enumerate(self.events[1:]):
            call = n + 1
            made = [dict(w=mpt(v.pages[q].width), h=mpt(v.pages[q].height), heads=[[o for o in obs.get(h, []) if o['page'] == q + 1] for h in e['hd']])
                    for q in e.pop('new') if q < len(v.pages)]
            e.pop('hd')
            if e['ev'] in ('page', 'para', 'table'):
                e['made'] = made
            if e['ev'] in ('para', 'table'):
                e['obs'] = obs.get(call, [])
            if e['ev'] == 'table':
                e['boxes'] = [dict(page=p + 1, top=mpt(v.pages[p].height - max(ys)), bottom=mpt(v.pages[p].height - min(ys)), left=mpt(min(xs)), right=mpt(max(xs)))
                              for p, (xs, ys) in sorted(boxes.get(call, {}).items())]
            if e['ev'] == 'image':
                e['obs'] = imgs.get(call, [])
            out.append(e)
        return out + [dict(ev='end', pages=len(v.pages), strange=strange)]


def trace(sc):
    return Run(sc).trace()


# -- random --------------------------------------------------------------------
def random_size(r):
    k = r.choice(['none', 'none', 'named', 'pair', 'pair', 'square'])
    if k == 'none':
        return NONE
    if k == 'named':
        return dict(kind=k, v=[r.choice(['a5', 'a4', 'a3', 'b5', 'b4', 'jis-b5', 'jis-b4', 'letter', 'legal', 'ledger'])])
    if k == 'square':
        return dict(kind=k, v=[r.choice([330000, 420500])])
    return dict(kind=k, v=[r.choice([330000, 400000, 455250]), r.choice([340000, 500000, 610750])])


def random_margin(r):
    k = r.choice(['none', 'none', 'list', 'list', 'sides'])
    side = lambda: r.choice([0, 20000, 33500, 50000])
    if k == 'none':
        return NONE
    if k == 'list':
        return dict(kind=k, v=[side() for _ in range(r.choice([0, 1, 1, 2, 3, 4, 4]))])
    return dict(kind=k, v=[r.choice([-1, side()]) for _ in range(4)])


def random_style(r, names=(), p=.5):
    if r.random() < p:
        return dict(NOST)
    if names and r.random() < .3:
        return dict(NOST, name=r.choice(names))
    return dict(name='', f=r.choice(['', '', 'Courier', 'Times', 'Helvetica']), s=r.choice([-1, -1, 8000, 9500, 13000]), c=r.choice([-1, -1, 1, 2, 3, 4, 5]),
                b=r.choice([-1, -1, 1]))


def random_opts(r, p=.6):
    if r.random() < p:
        return dict(NOOPT)
    return dict(al=r.choice(['', 'l', 'r', 'c', 'j']), lh=r.choice([-1, 1000, 1500, 2250]), ind=r.choice([-1, 0, 12000, 25500]))


def random_elem(r, names, many, list_=True):
    n = r.choice([1, 1, 2, 3, 5] + ([20, 60] if many else []))
    var = lambda: r.choice(['$page', 'v1', 'v2', 'never']) if r.random() < .2 else ''
    items = [dict(n=r.choice([6, 7, 9]), st=random_style(r, names, .85), var=var()) for _ in range(n)]
    lst = dict(n=6, ind=r.choice([-1, 60000, 70500])) if list_ and r.random() < .15 else dict(NOLIST)
    return dict(st=random_style(r, names, .6), opts=random_opts(r), list=lst, items=items)


def random_para(r, names, own):
    e = dict(ev='para', own=own, box=dict(NOBOX), gap=0, move='bottom', st=dict(NOST), opts=dict(NOOPT), form=r.randrange(60))
    if r.random() < .45:
        e.update(gap=5000, st=random_style(r, names), opts=random_opts(r), elems=[random_elem(r, names, own) for _ in range(r.choice([1, 2, 3, 6]))])
    else:
        e['elems'] = [random_elem(r, names, own)]
    if not own:
        e['move'] = r.choice(['bottom', 'bottom', 'next', 'next', 'none'])
        e['box'] = dict(x=r.choice([-1, -1, 0, 15000, 120500]), y=r.choice([-1, -1, 0, 40000, 215250]), w=r.choice([-1, -1, 160000, 200000]), h=r.choice([-1, -1, 10000, 45000, 150000]))
    return e


def random_set(r):
    w = r.choice(['f', 's', 'c', 'al', 'lh', 'ind'])
    v = dict(f=['Courier', 'Times', 'Helvetica'], s=[7000, 12000, 15500], c=[1, 2, 3, 4, 5], al=['l', 'r', 'c', 'j'], lh=[1000, 1300, 2000], ind=[0, 10000, 22000])[w]
    return dict(ev='set', what=w, v=r.choice(v), form=r.randrange(60))


def random_scenario(r):
    d = dict(ev='def', size=random_size(r), rot=r.choice([-1, -1, 0, 1]), m=random_margin(r), f=r.choice(['', '', 'Times', 'Courier']), s=r.choice([-1, -1, 10000, 14000]),
             c=r.choice([-1, -1, 1, 3, 5]), al=r.choice(['', '', 'r', 'c', 'j']), lh=r.choice([-1, -1, 1000, 1800]), ind=r.choice([-1, -1, 18000]), roman=int(r.random() < .3),
             form=r.randrange(60))
    ops, names, heads = [], [], 0
    pages = 0
    if r.random() < .3:
        # a format used before and after defaults change
        names.append('fmt0')
        ops += [dict(ev='page', size=NONE, rot=-1, m=NONE), dict(ev='fmt', name='fmt0', st=random_style(r, (), 0))]
        pages = 1
        for _ in range(2):
            e = random_para(r, names, r.random() < .6)
            r.choice([e, e, *e['elems']] if e['gap'] else e['elems'])['st'] = dict(NOST, name='fmt0')
            ops += [e, random_set(r)]
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if not pages and x > .3:
            x = .1
        form = r.randrange(60)
        if x < .06:
            ops.append(dict(ev='setup', size=random_size(r), rot=r.choice([-1, 0, 1]), m=random_margin(r), form=form))
        elif x < .17:
            mine = r.random() < .5
            ops.append(dict(ev='page', size=random_size(r) if mine else NONE, rot=r.choice([-1, 0, 1]) if mine else -1, m=random_margin(r) if mine else NONE, form=form))
            pages += 1
        elif x < .26:
            ops.append(random_set(r))
        elif x < .29:
            st = random_style(r, (), 0)
            names.append('fmt%d' % len(names) if not names or r.random() < .6 else r.choice(names))
            ops.append(dict(ev='fmt', name=names[-1], st=st))
        elif x < .33:
            ops.append(dict(ev='ctx', name=r.choice(['v1', 'v2']), v=r.choice(['77', '1234', '5'])))
        elif x < .37 and heads < 3:
            heads += 1
            e = random_elem(r, names, False, False)
            e['items'] = e['items'][:2]
            if e['st']['name']:
                e['opts'] = dict(NOOPT)  # the harness would write down what the format says now
            st = random_style(r, names)
            ops.append(dict(ev='head', x=r.choice([0, 10000, 50000]), y=r.choice([0, 5000, 25500]), w=160000, h=90000, gap=5000, st=st, opts=dict(NOOPT) if st['name'] else random_opts(r), elems=[e], form=form))
        elif x < .42:
            ops.append(dict(ev='go', page=r.randrange(6)))
        elif x < .47:
            ops.append(dict(ev='at', x=r.choice([-1, 30000, 111250]), y=r.choice([-1, 0, 77000, 290000])))
        elif x < .54:
            ops.append(dict(ev='image', x=r.choice([-1, -1, 20000]), y=r.choice([-1, -1, 60500]), w=r.choice([-1, 50000, 120000]), h=r.choice([-1, 40000]), move=r.choice(['bottom', 'next', 'none']),
                            num=r.choice([40, 30, 64]), den=r.choice([20, 25, 10]), form=form))
        elif x < .66:
            own = r.random() < .6
            ops.append(dict(ev='table', own=own, box=dict(NOBOX) if own else dict(x=r.choice([-1, 10000]), y=r.choice([-1, 90000]), w=r.choice([-1, 210000]), h=r.choice([-1, 120000])),
                            move='bottom' if own else r.choice(['bottom', 'next', 'none']), rows=r.choice([1, 2, 4, 15, 30]) if own else r.choice([1, 2, 3, 8]), cols=r.choice([1, 2]),
                            st=random_style(r, names), form=form))
        else:
            ops.append(random_para(r, names, r.random() < .6))
    if not pages:
        ops.append(dict(ev='page', size=NONE, rot=-1, m=NONE))
    return dict(ops=ops, **{'def': d})
