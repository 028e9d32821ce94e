"""Scenarios of content streams (spec/Gfx.tla) and how they are run and observed.

how: 'pdf' (elements put on given pages with the calls of PDF) or 'doc'.  Elements: ['t'|'j', parts, props], ['r', table], ['i', ratio],
['b', cols, elements], ['g', elements].  parts: [style, words]; style: f, s, b, i, u, bg (flags), own (own color)."""
import re

import flow
import para
import sut
from sut import mpt

TOK = re.compile(rb'w(\d+)z')
GREY = (.2, .2, .2)


class Plan:
    def __init__(self, sc):
        self.sc = sc
        self.n = 0
        self.toks, self.lines, self.fills, self.imgs = [], [], [], []

    def unique(self):
        self.n += 1
        k = self.n
        return (k % 9 / 10 + .05, k // 9 % 10 / 10, k // 90 % 10 / 10 + .03)

    def given(self, c):
        """A color in some notation."""
        form = self.sc['form']
        if form == 'hex':
            return '#' + ''.join('%02x' % round(x * 255) for x in c)
        if form == 'text':
            return ' '.join('%.3f' % x for x in c)
        return list(c)

    def color(self, c):
        return [round(round(x * 255) / 255 * 1000) for x in c] if self.sc['form'] == 'hex' else [round(x * 1000) for x in c]

    def fill(self):
        c = self.unique()
        self.fills.append(dict(c=self.color(c), must=True))
        return self.given(c)

    def part(self, st, n, just):
        c = self.unique() if st.get('own') or st.get('u') else GREY
        d = {k: st[k] for k in ('f', 's', 'b', 'i', 'u', 'r') if k in st}
        d['c'] = self.given(c)
        if st.get('bg'):
            d['bg'] = self.fill()
        full = dict(dict(f='Courier', s=10), **d)
        words = []
        for _ in range(n):
            self.toks.append(dict(font=para.base(full), size=mpt(full['s']), c=self.color(c), just=just, under=bool(st.get('u'))))
            words.append('w%dz' % len(self.toks))
        text = ' '.join(words)
        if st.get('form') == 'str' and self.sc['form'] != 'list':
            return {'.' + para.style_str(d): text}
        return {'.': text, 'style': d}

    def paragraph(self, parts, props):
        out = []
        for i, (st, n) in enumerate(parts):
            if i:
                out.append(' ')
            out.append(self.part(st, n, props.get('text_align') == 'j'))
        d = dict(props)
        mark = d.pop('mark', None)
        if mark:
            # the mark has the style of the first text under its own
            first = parts[0][0]
            one = self.part(dict(dict(f=first.get('f', 'Courier'), s=first.get('s', 10), b=bool(first.get('b')), i=bool(first.get('i'))), **mark), 1, False)
            d['list_text'] = next(one[k] for k in one if k[0] == '.') + ' '
            d['list_style'] = dict(one.get('style') or {})
            if not d['list_style']:
                raise ValueError('the style of a mark is a dictionary')
        if d.pop('note', None):
            out.append({'footnote': 'note'})
            self.lines.append(dict(c=[0, 0, 0], w=500, d='solid', must=False))
        if d.pop('page', None):
            out.append({'var': '$page'})
        return {'.': out}, d

    def table(self, t):
        st = dict(border_width=t['w'])
        c = self.unique()
        st['border_color'] = self.given(c)
        st['border_style'] = t['d']
        self.lines.append(dict(c=self.color(c), w=mpt(t['w']), d=t['d'], must=False))
        grid = [[None] * t['cols'] for _ in range(t['rows'])]
        for i in range(t['rows']):
            for j in range(t['cols']):
                x = t['cells'][i * t['cols'] + j]
                if x:
                    grid[i][j] = self.element(x, True)
        borders, fills = [], []
        for vert, at, w, d in t['borders']:
            c = self.unique()
            self.lines.append(dict(c=self.color(c), w=mpt(w), d=d, must=True))
            borders.append(dict(pos=('v;%d' if vert else 'h%d') % at, width=w, color=self.given(c), style=d))
        for i, j in t['fills']:
            fills.append(dict(pos='%d;%d' % (i, j), color=self.fill()))
        out = dict(table=grid, style=st)
        if borders:
            out['borders'] = borders
        if fills:
            out['fills'] = fills
        return out

    def element(self, e, inner=False):
        if e[0] in 'tj':
            d, props = self.paragraph(e[1], dict(e[2], **({'text_align': 'j'} if e[0] == 'j' else {})))
            if props:
                d['style'] = props
            return d
        if e[0] == 'r':
            return self.table(e[1])
        if e[0] == 'i':
            return self.image(e[1])
        if e[0] == 'g':
            return {'group': [self.element(x) for x in e[1]]}
        d = {'content': [self.element(x) for x in e[2]]}
        if e[1] > 1:
            d['cols'] = {'count': e[1]}
        return d

    def image(self, ratio):
        # a number: another image; a text: the image of that name again
        pw, ph = (300 + len(self.imgs), max(1, int(300 * ratio)))
        if isinstance(ratio, str):
            pw, ph = 200 + int(ratio), 30
        self.imgs.append(dict(w=pw, h=ph, must=True))
        return {'image': flow.tiny_jpeg(pw, ph), 'style': {'min_height': 5}}


def by_calls(p, sc):
    from pdfme import PDF
    pdf = PDF(page_size=sc['page'], margin=30, font_family='Courier', font_size=10, font_color=list(GREY))
    for _ in range(sc['pages']):
        pdf.add_page()
    for page, e in sc['els']:
        pdf.page_index = min(page, len(pdf.pages)) - 1
        if e[0] in 'tj':
            d, props = p.paragraph(e[1], dict(e[2], **({'text_align': 'j'} if e[0] == 'j' else {})))
            pdf.text(d, **{k: v for k, v in props.items() if not k.startswith('margin')})
        elif e[0] == 'r':
            d = p.table(e[1])
            pdf.table(d['table'], style=d['style'], borders=d.get('borders'), fills=d.get('fills'))
        elif e[0] == 'i':
            pdf.image(p.image(e[1])['image'], width=60)
        else:
            pdf.content(p.element(e) if e[0] == 'b' else {'content': [p.element(e)]})
    return sut.out(pdf)


def by_document(p, sc):
    d = dict(style=dict(f='Courier', s=10, c=list(GREY), page_size=sc['page'], margin=[50, 30, 30, 30]), sections=[])
    if sc.get('head'):
        d['running_sections'] = {'head': dict(width='full', height='top', x='left', y='top', content=[p.element(e) for e in sc['head']])}
    for els in sc['secs']:
        s = {'content': [p.element(e) for e in els]}
        if sc.get('head'):
            s['running_sections'] = ['head']
        d['sections'].append(s)
    return sut.build(d)


def kind(o):
    import pdfread
    if isinstance(o, pdfread.Name):
        return 'N'
    if isinstance(o, bool):
        return 'b'
    if isinstance(o, bytes):
        return 's'
    if isinstance(o, list):
        return 'a'
    if isinstance(o, dict):
        return 'd'
    try:
        float(o)
        return 'n'
    except (TypeError, ValueError):
        return '?'


def number(o):
    return max(-2000000000, min(2000000000, mpt(o)))


def events(data, ntoks):
    import pdfread
    pdf = pdfread.Pdf(data)
    out = []
    for _, d in pdf.pages():
        res = pdf.get(d.get('Resources', {})) or {}
        fonts = {str(k): pdf.get(v) for k, v in (pdf.get(res.get('Font', {})) or {}).items()}
        images = {str(k): pdf.get(v) for k, v in (pdf.get(res.get('XObject', {})) or {}).items()}
        out.append(dict(ev='page'))
        for op, args in pdfread.operators(pdf.get(d['Contents']).data):
            e = dict(ev='op', op=str(op), sig=''.join(kind(a) for a in args), n=[number(a) for a in args if kind(a) == 'n'])
            if op == 'Tf' and e['sig'] == 'Nn':
                f = fonts.get(str(args[0]))
                e['font'] = str(f.get('BaseFont')) if isinstance(f, dict) and f.get('Type') == 'Font' else ''
            if op == 'Do' and e['sig'] == 'N':
                x = images.get(str(args[0]))
                e['img'] = [x.dict['Width'], x.dict['Height']] if isinstance(x, pdfread.Stream) and x.dict.get('Subtype') == 'Image' else []
            if op == 'd' and e['sig'] == 'an':
                e['dash'] = [number(a) for a in args[0]]
            if op in ('Tj', 'TJ', "'", '"'):
                s = b''.join(a for x in args for a in (x if isinstance(x, list) else [x]) if isinstance(a, bytes))
                e['toks'] = [int(m.group(1)) for m in TOK.finditer(s) if int(m.group(1)) <= ntoks]
                e['blank'] = not s.strip()
            out.append(e)
        out.append(dict(ev='close'))
    return out


def trace(sc):
    p = Plan(sc)
    data = by_calls(p, sc) if sc['how'] == 'pdf' else by_document(p, sc)
    def_ = dict(ev='def', toks=p.toks, lines=p.lines, fills=p.fills, imgs=p.imgs)
    try:
        return [def_] + events(data, len(p.toks)) + [dict(ev='end')]
    except sut.Bad as e:
        return [def_, dict(ev='malformed', rule=e.rule)]


# -- random ------------------------------------------------------------------
def random_style(r, rich=True):
    st = {}
    if r.random() < .4:
        st['f'] = r.choice(['Courier', 'Helvetica', 'Times'])
    if r.random() < .4:
        st['s'] = r.choice([8, 9.5, 10, 12, 14])
    for k, q in (('b', .25), ('i', .2), ('own', .3)):
        if r.random() < q:
            st[k] = True
    if rich:
        for k, q in (('u', .2), ('bg', .2)):
            if r.random() < q:
                st[k] = True
        if r.random() < .15:
            st['r'] = r.choice([.3, -.3, .5])
    if r.random() < .4:
        st['form'] = 'str'
    return st


def random_parts(r, most=5):
    return [[random_style(r), r.choice([1, 2, 3, 8])] for _ in range(r.randint(1, most))]


def random_par(r, doc=False, long=.1):
    props = {}
    k = r.choice('ttttj')
    if k == 't' and r.random() < .4:
        props['text_align'] = r.choice('lrc')
    if r.random() < .25:
        st = random_style(r, False)
        st.pop('form', None)
        props['mark'] = st
        if r.random() < .4:
            props['list_indent'] = 40
    if r.random() < .2:
        props['indent'] = 15
    parts = random_parts(r)
    if r.random() < long:
        parts.append([random_style(r), 90])     # goes on on other pages
    if doc and r.random() < .15:
        props['note'] = True
    if doc and r.random() < .15:
        props['page'] = True
    return [k, parts, props]


def random_table(r, depth=0):
    rows, cols = r.randint(1, 3), r.randint(1, 3)
    cells = []
    long = depth == 0 and r.random() < .2       # cells that go on on other pages
    if long:
        rows, cols = r.choice([1, 1, 2]), r.choice([2, 2, 3])
    for _ in range(rows * cols):
        x = r.random()
        if long and x < .8:
            cells.append([r.choice('tj'), [[random_style(r), r.choice([20, 45, 90])] for _ in range(r.choice([1, 1, 2]))], {}])
        elif x < .1:
            cells.append(None)
        elif x < .2:
            cells.append(['i', r.choice([.1, .2])])
        elif x < .3 and depth < 1:
            cells.append(random_table(r, depth + 1))
        elif x < .4:
            cells.append(['b', 1, [random_par(r) for _ in range(r.randint(1, 2))]])
        else:
            cells.append([r.choice('ttj'), random_parts(r, 2), {}])
    for i in range(rows):
        if not cells[i * cols]:
            cells[i * cols] = ['t', random_parts(r, 2), {}]
    # lines of one direction do not hide each other
    vert = r.random() < .5
    n = cols + 1 if vert else rows + 1
    ws = [.5, 1, 1.5, 2, 3]
    borders = [[vert, i, r.choice(ws), r.choice(['solid', 'dashed', 'dotted'])] for i in range(n) if r.random() < .6]
    fills = [[i, j] for i in range(rows) for j in range(cols) if r.random() < .25]
    return ['r', dict(rows=rows, cols=cols, cells=cells, borders=borders, fills=fills, w=r.choice([0, .5, 1, 2]), d=r.choice(['solid', 'solid', 'dashed', 'dotted']))]


def random_element(r, depth=0, doc=False):
    x = r.random()
    if x < .5:
        return random_par(r, doc)
    if x < .7:
        return random_table(r)
    if x < .8:
        return ['i', r.choice([.1, .2, .3, '1', '2'])]
    if x < .9 and depth < 2:
        return ['b', r.choice([1, 2, 3]), [random_element(r, depth + 1) for _ in range(r.randint(1, 3))]]
    if x < .95 and doc:
        return ['g', [random_par(r, long=0) for _ in range(r.randint(1, 2))]]
    return random_par(r, doc)


def random_scenario(r):
    sc = dict(how=r.choice(['pdf', 'doc']), form=r.choice(['hex', 'text', 'list']), page=r.choice([[400, 300], [400, 180], [500, 500], [420, 600]]))
    if sc['how'] == 'pdf':
        sc['pages'] = r.choice([1, 2, 3])
        sc['els'] = [[r.randint(1, sc['pages'] + 2), random_element(r)] for _ in range(r.randint(1, 8))]
    else:
        sc['secs'] = [[random_element(r, doc=True) for _ in range(r.randint(1, 5))] for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .5:
            sc['head'] = [['t', [[random_style(r), r.choice([1, 2])] for _ in range(r.choice([1, 2]))], {}]]
            if r.random() < .3:
                sc['head'].insert(0, ['i', .02])
    return sc
