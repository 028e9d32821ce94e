"""Scenarios of tables (spec/Table.tla) and how they are run and observed.

Scenario: page [w, h], margin [top, right, bottom, left], how ('pdf' or 'doc'), pre (lines of text above),
ws (proportions or None), style (of the table, points), rows, cells [row, col, rs, cs, kind, n, ratio, st (own margins,
fill)], borders [vert, at, on, own], fills [at, on, c].  A position: ['list', numbers] or ['range', a, b, s]."""
import re

import flow
import observe
import sut
from sut import mpt

NONE = 9999
TOK = re.compile(r'^(\d+)k(\d+)z$')
SIDES = dict(mt='cell_margin_top', mr='cell_margin_right', mb='cell_margin_bottom', ml='cell_margin_left')
COLORS = {'red': (1, 0, 0), 'blue': (0, 0, 1), 'green': (0, .502, 0), 'black': (0, 0, 0), '#08f': (0, .533, 1), '0.5': (.5, .5, .5),
          '0.8': (.8, .8, .8), 'yellow': (1, 1, 0), '0': (0, 0, 0)}


def color_name(c):
    c = tuple(float(x) for x in c)
    if len(c) == 1:
        c *= 3
    for n, v in COLORS.items():
        if max(abs(a - b) for a, b in zip(c, v)) < .004:
            return n
    return str(c)


def given(c):
    return 0 if c == '0' else float(c) if c[0] == '0' else c


def seen(c):
    return 'black' if c == '0' else c


def pos_text(p):
    if p[0] == 'list':
        return ','.join(str(i) for i in p[1])
    a, b, s = ('' if v is None else str(v) for v in p[1:])
    return a + ':' + b + (':' + s if s else '')


def pos_value(p):
    if p[0] == 'list':
        return dict(t='list', v=list(p[1]))
    return dict(t='range', **dict(zip('abs', (NONE if v is None else v for v in p[1:]))))


def pos_full(at, on):
    x, y = pos_text(at), pos_text(on)
    return x if y == ':' else x + ';' + y


class Plan:
    def __init__(self, sc):
        self.sc = sc
        st = sc['style']
        cols = sc['cols']
        self.grid = [[None] * cols for _ in range(sc['rows'])]
        self.cells = []
        self.px = {}
        for k, c in enumerate(sc['cells'], 1):
            own = c.get('st', {})
            every = own.get('m', st.get('m', 5))
            m = {}
            for s in SIDES:
                # a side given anywhere wins over the margin of all sides
                m[s] = own.get(s, st.get(s, every))
            pw = 300 + k
            ph = max(1, int(pw * c.get('ratio', 1)))
            self.px[(pw, ph)] = k
            fill = own.get('fill', st.get('fill', ''))
            self.cells.append(dict(row=c['row'], col=c['col'], rs=c['rs'], cs=c['cs'], kind=c['kind'], n=0 if c['kind'] == 'e' else c['n'],
                                   pw=pw, ph=ph, fill=seen(fill), **{s: mpt(v) for s, v in m.items()}))
            toks = ['%dk%dz' % (k, i + 1) for i in range(c['n'])]
            style = {SIDES[s]: own[s] for s in SIDES if s in own}
            if 'm' in own:
                style['cell_margin'] = own['m']
            if 'fill' in own:
                style['cell_fill'] = given(own['fill'])
            d = {}
            if c['kind'] == 't':
                d = {'.': '\n'.join(toks)}
            elif c['kind'] == 'b':
                d = {'content': [{'.': t} for t in toks]}
            elif c['kind'] == 'i':
                d = {'image': flow.tiny_jpeg(pw, ph)}
            if style:
                d['style'] = style
            if c['rs'] > 1:
                d['rowspan'] = c['rs']
            if c['cs'] > 1:
                d['colspan'] = c['cs']
            if c['kind'] == 't' and set(d) == {'.'} and c.get('plain'):
                d = d['.']
            if not d:
                d = {}
            self.grid[c['row']][c['col']] = d if d != {} else None
        self.style = dict(f='Courier', s=10)
        for a, b in (('bw', 'border_width'), ('bs', 'border_style'), ('m', 'cell_margin')):
            if a in st:
                self.style[b] = st[a]
        for s in SIDES:
            if s in st:
                self.style[SIDES[s]] = st[s]
        if 'bc' in st:
            self.style['border_color'] = given(st['bc'])
        if 'fill' in st:
            self.style['cell_fill'] = given(st['fill'])
        self.borders = []
        for b in sc['borders']:
            d = {'pos': ('v' if b['vert'] else 'h') + pos_full(b['at'], b['on'])}
            if 'w' in b:
                d['width'] = b['w']
            if 'c' in b:
                d['color'] = given(b['c'])
            if 'd' in b:
                d['style'] = b['d']
            self.borders.append(d)
        self.fills = [{'pos': pos_full(f['at'], f['on']), 'color': given(f['c'])} for f in sc['fills']]
        self.props = {}
        if sc.get('ws'):
            self.props['widths'] = sc['ws']
        if self.borders:
            self.props['borders'] = self.borders
        if self.fills:
            self.props['fills'] = self.fills

    def definition(self):
        sc, st = self.sc, self.sc['style']
        W, H = sc['page']
        M = sc['margin']
        default = dict(w=mpt(st.get('bw', .5)), c=seen(st.get('bc', 'black')), d=st.get('bs', 'solid'))
        rules = [dict(vert=b['vert'], at=pos_value(b['at']), on=pos_value(b['on']), w=mpt(b['w']) if 'w' in b else default['w'],
                      c=seen(b.get('c', default['c'])), d=b.get('d', default['d'])) for b in sc['borders']]
        fills = [dict(at=pos_value(f['at']), on=pos_value(f['on']), c=seen(f['c'])) for f in sc['fills']]
        return dict(ev='def', page=dict(x=mpt(M[3]), w=mpt(W - M[1] - M[3]), top=mpt(H - M[0]), bot=mpt(M[2])), ws=sc.get('ws') or [1] * sc['cols'],
                    rows=sc['rows'], cells=self.cells, default=default, rules=rules, fills=fills)


def trace(sc):
    p = Plan(sc)
    W, H = sc['page']
    M = sc['margin']
    pre = ['before'] * sc.get('pre', 0)
    if sc['how'] == 'doc':
        content = [{'.': w, 'style': {'s': 10}} for w in pre] + [dict({'table': p.grid, 'style': p.style}, **p.props)]
        data = sut.build({'style': {'page_size': [W, H], 'margin': M}, 'sections': [{'content': content}]})
    else:
        from pdfme import PDF
        pdf = PDF(page_size=(W, H), margin=M)
        pdf.add_page()
        for w in pre:
            pdf.text({'.': w, 'style': {'s': 10}})
        pdf.table(p.grid, style=p.style, **p.props)
        data = sut.out(pdf)
    return [p.definition()] + events(p, data) + [dict(ev='end')]


def events(p, data):
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return [dict(ev='malformed', rule=e.rule)]
    out = []
    for n, page in enumerate(v.pages, 1):
        for w in observe.words(page):
            m = TOK.match(w.s)
            if m:
                out.append(dict(ev='atom', cell=int(m.group(1)), k=int(m.group(2)), page=n, x1=mpt(w.x), x2=mpt(w.x2), top=mpt(w.y + w.gs[0].size), bot=mpt(w.y),
                                lead=1100, z=w.gs[0].mark))
        for z, m in enumerate(page.marks):
            if m['t'] == 'image':
                d = page.xobjects[m['name']][1].dict
                k = p.px.get((d['Width'], d['Height']), 0)
                if k:
                    out.append(dict(ev='atom', cell=k, k=1, page=n, x1=mpt(m['x']), x2=mpt(m['x'] + m['w']), top=mpt(m['y'] + m['h']), bot=mpt(m['y']), lead=0, z=z))
            elif m['t'] == 'line':
                arr = m['dash'][0]
                d = 'solid' if not arr else 'dotted' if arr[0] == 0 else 'dashed'
                out.append(dict(ev='line', page=n, w=mpt(m['w']), c=color_name(m['color']), d=d, round=m['cap'] == 1,
                                on=mpt(arr[0]) if arr else 0, off=mpt(arr[-1]) if arr else 0, **{k: mpt(m[k]) for k in ('x1', 'y1', 'x2', 'y2')}))
            elif m['t'] == 'fill':
                y = sorted((m['y'], m['y'] + m['h']))
                x = sorted((m['x'], m['x'] + m['w']))
                out.append(dict(ev='fill', page=n, x1=mpt(x[0]), x2=mpt(x[1]), y1=mpt(y[0]), y2=mpt(y[1]), c=color_name(m['color']), z=z))
    return out


# -- random tables -----------------------------------------------------------
def position(r, n):
    """A position among 0..n-1."""
    x = r.random()
    if x < .35:
        return ['list', sorted(r.choice([i, i - n]) for i in r.sample(range(n), r.randint(1, min(3, n))))]
    if x < .6:
        return ['range', None, None, None]
    a, b = r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n)])
    return ['range', a, b, r.choice([None, None, 1, 2, 3, -1, -2])]


def random_scenario(r, **kw):
    o = dict(spans=.5, borders=True, fills=True)
    o.update(kw)
    cols, rows = r.choice([1, 2, 3, 3, 4, 5]), r.randint(1, 6)
    W, H = 440, r.choice([170, 220, 300])
    M = r.choice([[20, 20, 20, 20], [30, 15, 40, 25]])
    ws = None
    if cols > 1 and r.random() < .5:
        ws = [r.choice([2, 3, 4]) for _ in range(cols)]
        if cols > 3:
            ws = [3 + (i == 1) for i in range(cols)]
    full = W - M[1] - M[3]
    body = H - M[0] - M[2]
    sc = dict(page=[W, H], margin=M, how=r.choice(['pdf', 'doc']), pre=r.choice([0, 0, 1, 3, 7]), ws=ws, rows=rows, cols=cols, style={}, borders=[], fills=[])
    st = sc['style']
    if r.random() < .4:
        st['bw'] = r.choice([0, .5, 1, 2, 3])
    if r.random() < .3:
        st['bc'] = r.choice(list(COLORS))
    if r.random() < .2:
        st['bs'] = r.choice(['dashed', 'dotted', 'solid'])
    if r.random() < .4:
        st['m'] = r.choice([0, 2, 5, 8])
    if r.random() < .15:
        st[r.choice(list(SIDES))] = r.choice([0, 3, 6])
    if r.random() < .07 and o['fills']:
        st['fill'] = r.choice(list(COLORS))
    cells = []
    taken = set()
    longest = r.choice([2, 5, 12])
    for i in range(rows):
        for j in range(cols):
            if (i, j) in taken:
                continue
            rs = cs = 1
            if r.random() < o['spans']:
                cs = r.choice([1, 1, 2, 3])
                rs = r.choice([1, 1, 1, 2, 3])
            cs = min(cs, cols - j)
            while any((i, q) in taken for q in range(j, j + cs)):
                cs -= 1
            rs = min(rs, rows - i)
            for a in range(i, i + rs):
                for b in range(j, j + cs):
                    taken.add((a, b))
            kind = r.choices('tbie', [12, 2, 2, 1.5])[0]
            n = 1 if kind == 'i' else r.choice([1, 1, 2, 3, r.randint(1, longest)])
            c = dict(row=i, col=j, rs=rs, cs=cs, kind=kind, n=n, st={})
            if kind == 'i':
                w = full * sum((ws or [1] * cols)[j:j + cs]) / sum(ws or [1] * cols)
                c['ratio'] = min(r.choice([.2, .5, .9]), (body - 45) / w)
            elif r.random() < .3:
                c['plain'] = True
            if r.random() < .25:
                c['st'][r.choice(list(SIDES))] = r.choice([0, 1, 4, 9])
            if r.random() < .1:
                c['st']['m'] = r.choice([0, 3, 7])
            if o['fills'] and r.random() < .15:
                c['st']['fill'] = r.choice(list(COLORS))
            cells.append(c)
    for c in cells:
        if c['kind'] == 'e' and ('m' in st or any(s in st for s in SIDES) or any(x['row'] <= c['row'] < x['row'] + x['rs'] and x['st'] for x in cells)):
            c['st'].update(mt=0, mb=0)
    for i in range(rows):     # a row is as high as a cell that ends in it
        if not any(c['row'] == i and c['rs'] == 1 and c['kind'] == 't' for c in cells):
            mine = [c for c in cells if c['row'] == i and c['rs'] == 1]
            if mine:
                c = r.choice(mine)
                c.update(kind='t', n=max(1, c['n']))
            else:
                return random_scenario(r, **kw)
    sc['cells'] = cells
    if o['borders'] and r.random() < .6:
        for _ in range(r.randint(1, 4)):
            vert = r.random() < .5
            b = dict(vert=vert, at=position(r, rows if vert else rows + 1), on=position(r, cols + 1 if vert else cols))
            if r.random() < .8:
                b['w'] = r.choice([0, 0, .5, 1, 2, 4])
            if r.random() < .5:
                b['c'] = r.choice(list(COLORS))
            if r.random() < .4:
                b['d'] = r.choice(['dashed', 'dotted', 'solid'])
            sc['borders'].append(b)
    if o['fills'] and r.random() < .45:
        for _ in range(r.randint(1, 3)):
            sc['fills'].append(dict(at=position(r, rows), on=position(r, cols), c=r.choice(list(COLORS))))
    return sc
