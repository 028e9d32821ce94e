"""Scenarios of styles (spec/Style.tla) and how they are run and observed.

A node: k (kind), str and sty (settings [attribute, value] of its style string and of its style), named (the style is a format), kids (nodes, and
'w' for a word).  Kinds: doc, box, group, table (kids: rows), cell, par, in, note, var, head.  Colors: [form, value]."""
import re

import observe
import sut
from sut import mpt

TOK = re.compile(r'w(\d+)z')
NAMES = ['black', 'white', 'red', 'lime', 'blue', 'yellow', 'cyan', 'magenta', 'gray', 'grey', 'green', 'navy', 'maroon', 'silver', 'orange', 'gold', 'brown',
         'tomato', 'orchid', 'teal', 'hotpink', 'indigo', 'khaki', 'rebeccapurple']
HEX = '0123456789abcdef'


def color_text(v, up=False):
    if v[0] == 'hex':
        s = '#' + ''.join(HEX[d] for d in v[1])
        return s.upper() if up else s
    if v[0] == 'name':
        return v[1]
    if v[0] == 'none':
        return ''
    return ('%s' if not up else '%s ').strip() % (' ' if not up else ',').join(str(x) for x in v[1])


def given(a, v, how):
    """The value as it stands in a dictionary."""
    if a in 'bui':
        return bool(v) if how % 2 else int(v)
    if a not in ('c', 'bg'):
        return v
    if v[0] == 'none':
        return None if how % 2 else ''
    if v[0] == 'num':
        if how % 4 == 3:
            return color_text(v)
        if len(v[1]) == 1 and how % 4:
            return v[1][0]
        return list(v[1]) if how % 2 else tuple(v[1])
    return color_text(v, how % 2)


def string(sets, how):
    """A style string of the settings."""
    out = []
    for n, (a, v) in enumerate(sets):
        if a in 'bui':
            s = a if v and how % 3 else '%s:%d' % (a, v)
        elif a in ('c', 'bg'):
            s = '%s:%s' % (a, color_text(v, how % 2))
        else:
            s = '%s:%s' % (a, v)
        out.append((' ' + s.replace(':', ': ')) if how % 5 == 1 else s)
    return ';'.join(out) + (';' if how % 7 == 1 else '')


def meaning(a, v):
    if a in 'bui':
        return dict(a=a, v=bool(v))
    if a == 'f':
        return dict(a=a, v=v)
    if a in 'sr':
        return dict(a=a, v=mpt(v))
    return dict(a=a, v=dict(form=v[0], v=[mpt(x) for x in v[1]] if v[0] == 'num' else v[1] if v[0] == 'hex' else v[1] if v[0] == 'name' else []))


class Plan:
    def __init__(self, sc):
        self.sc = sc
        self.nodes, self.toks, self.context, self.formats, self.marks = [], [], {}, {}, []
        self.how = sc.get('how_', 0)
        self.count = 0

    def turn(self):
        self.count += 1
        return self.how + self.count * 5

    def node(self, up, *sets):
        self.nodes.append(dict(up=up, sets=[meaning(a, v) for s in sets for a, v in s]))
        return len(self.nodes)

    def word(self, n):
        self.toks.append(n)
        return 'w%dz' % len(self.toks)

    def style(self, o, extra=()):
        """The style of an element: a dictionary, or the name of a format."""
        t = self.turn()
        d = {a: given(a, v, t + k) for k, (a, v) in enumerate(o.get('sty', []))}
        d.update(extra)
        if o.get('named') and d:
            name = 'fmt%d' % (len(self.formats) + 1)
            self.formats[name] = d
            return name
        return d

    def styled(self, d, o, extra=()):
        st = self.style(o, extra)
        if st:
            d['style'] = st
        return d

    def text(self, o, up, note=None):
        n = self.node(up, o.get('str', []), o.get('sty', []))
        out, first = [], True
        for kid in o['kids']:
            if kid == 'w':
                out.append(self.word(n))
            elif kid == ' ':
                out.append(' ')
            elif kid['k'] == 'note':
                out.append({'footnote': self.text(kid, self.notes)})
            elif kid['k'] == 'var':
                m = self.node(n, kid.get('str', []), kid.get('sty', []))
                name = 'v%d' % len(self.context)
                self.context[name] = self.word(m)
                d = {'var': name}
                if kid.get('str'):
                    d['.' + string(kid['str'], self.turn())] = ''
                out.append(self.styled(d, kid))
            else:
                out.append(self.text(kid, n))
        extra = {}
        if 'mark' in o:
            m = self.node(n, o['mark'])
            extra['list_text'] = self.word(m) + ' '
            self.marks.append(len(self.toks))
            st = {a: given(a, v, self.turn()) for a, v in o['mark']}
            if st and self.turn() % 3 == 0:
                self.formats['mark%d' % len(self.toks)] = st
                extra['list_style'] = 'mark%d' % len(self.toks)
            elif st:
                extra['list_style'] = st
        return self.styled({'.' + string(o.get('str', []), self.turn()): out}, o, extra)

    def element(self, o, up):
        if o['k'] in ('par', 'in'):
            return self.text(o, up)
        n = self.node(up, o.get('sty', []))
        if o['k'] == 'table':
            return self.styled({'table': [[self.cell(c, n) for c in row] for row in o['kids']]}, o, {'border_width': 0})
        return self.styled({'group' if o['k'] == 'group' else 'content': [self.element(x, n) for x in o['kids']]}, o)

    def cell(self, o, up):
        if o['k'] == 'par':
            if not o.get('str') and not o.get('sty') and o['kids'] == ['w'] and 'mark' not in o:
                return self.word(self.node(up))
            return self.text(o, up)
        return self.element(o, up)


def document(p, sc):
    root = p.node(0, sc['root'])
    notes = sc.get('notes', [['s', 10], ['c', ['num', [0]]]])
    p.notes = p.node(root, notes)
    d = dict(style=dict(page_size=[500, 700], margin=[60, 30, 30, 30], **{a: given(a, v, p.turn()) for a, v in sc['root']}), sections=[])
    if 'head' in sc:
        d['running_sections'] = {'head': dict(p.element(sc['head'], root), width='full', height=45, x='left', y=5)}
    for o in sc['secs']:
        s = p.element(o, root)
        if 'head' in sc:
            s['running_sections'] = ['head']
        d['sections'].append(s)
    d['formats'] = p.formats
    if 'notes' in sc:
        p.formats['$footnotes'] = {a: given(a, v, p.turn()) for a, v in notes}
    return sut.build(d, p.context)


def calls(p, sc):
    from pdfme import PDF
    names = dict(f='font_family', s='font_size', c='font_color')
    root = p.node(0, sc['root'])
    pdf = PDF(page_size=(500, 700), margin=30, **{names[a]: given(a, v, p.turn()) for a, v in sc['root']})
    pdf.add_page()
    for o in sc['secs']:
        e = p.element(o, root)
        pdf.formats.update(p.formats)
        pdf.context.update(p.context)
        if o['k'] == 'par':
            st = e.get('style')
            st = p.formats.get(st, st) if isinstance(st, str) else st
            kw = {}
            if isinstance(st, dict):
                kw = {k: st.pop(k) for k in list(st) if k.startswith('list')}
            pdf.text(e, **kw)
        elif o['k'] == 'table':
            pdf.table(e['table'], style=e['style'])
        else:
            pdf.content(dict(content=[e]) if o['k'] == 'group' else e)
    return sut.out(pdf)


def trace(sc):
    p = Plan(sc)
    data = calls(p, sc) if sc['how'] == 'pdf' else document(p, sc)
    out = [dict(ev='def', nodes=p.nodes, toks=p.toks, marks=p.marks)]
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return out + [dict(ev='malformed', rule=e.rule)]
    for page in v.pages:
        out += events(page, len(p.toks))
    return out + [dict(ev='end')]


def rgb(c):
    c = [mpt(x) for x in c]
    return c * 3 if len(c) == 1 else c


def events(page, n):
    out = []
    for w in observe.words(page):
        for m in TOK.finditer(w.s):
            if not 1 <= int(m.group(1)) <= n:
                continue
            gs = w.gs[m.start():m.end()]
            looks = []
            for g in gs:
                l = dict(font=g.font, size=mpt(g.size), c=rgb(g.color), rise=mpt(g.rise))
                if l not in looks:
                    looks.append(l)
            g, x1, x2 = gs[0], gs[0].x, gs[-1].x + gs[-1].w
            y = g.y + g.rise
            under, back = [], []
            for k, q in enumerate(page.marks):
                if q['t'] == 'line' and abs(q['y1'] - q['y2']) < .01 and min(q['x1'], q['x2']) <= x1 + .2 and max(q['x1'], q['x2']) >= x2 - .2 \
                        and y - .25 * g.size <= q['y1'] <= y + .02:
                    under.append(rgb(q['color']))
                if q['t'] == 'fill' and k < g.mark and q['x'] <= x1 + .2 and q['x'] + q['w'] >= x2 - .2 and q['y'] <= y + .2 * g.size <= q['y'] + q['h']:
                    back = rgb(q['color'])
            out.append(dict(ev='tok', k=int(m.group(1)), looks=looks, under=under, back=back))
    return out


# -- random --------------------------------------------------------------------
def random_color(r, none=False):
    x = r.random()
    if none and x < .25:
        return ['none', []]
    if x < .45:
        return ['num', [round(r.choice([0, .1, .25, .5, 1]), 3)]] if r.random() < .4 else ['num', [r.choice([0, .2, .35, .5, .75, 1]) for _ in range(r.choice([3, 3, 3, 4]))]]
    if x < .75:
        return ['hex', [r.randrange(16) for _ in range(r.choice([3, 6, 6, 8, 4]))]]
    return ['name', r.choice(NAMES)]


def random_set(r, a):
    if a in 'bui':
        return [a, r.random() < .65]
    if a == 'f':
        return [a, r.choice(['Helvetica', 'Courier', 'Times', 'Helvetica', 'Courier', 'Times', 'Symbol', 'ZapfDingbats'])]
    if a == 's':
        return [a, r.choice([8, 9, 10, 11.5, 12, 14, 16])]
    if a == 'r':
        return [a, r.choice([0, .3, -.3, .5, -.25])]
    return [a, random_color(r, a == 'bg')]


def random_sets(r, share, most=3):
    if r.random() > share:
        return []
    return [random_set(r, a) for a in r.sample(['f', 'b', 'i', 'u', 's', 'r', 'c', 'bg'], r.randint(1, most))]


def random_text(r, kind='par', depth=0, notes=False, near=True):
    """near: words may follow each other without a space (in a narrow cell they would be wider than it)"""
    o = dict(k=kind, str=random_sets(r, .5), sty=random_sets(r, .4), named=r.random() < .4, kids=[])
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < .55 or depth > 3:
            o['kids'].append('w')
        elif x < .9:
            o['kids'].append(random_text(r, 'in', depth + 1, notes, near))
        elif x < .95:
            o['kids'].append(dict(k='var', str=random_sets(r, .4), sty=random_sets(r, .4)))
        elif notes:
            o['kids'].append(random_text(r, 'note', 4, near=near))
        if not near or r.random() < .7:
            o['kids'].append(' ')
    if not any(q != ' ' for q in o['kids']):
        o['kids'].append('w')
    if kind == 'par' and o['kids'][0] == 'w' and r.random() < .15:
        o['mark'] = random_sets(r, .8)
    return o


def random_element(r, depth=0, notes=False, cell=False):
    x = r.random()
    if x < .45 or depth > 2:
        return random_text(r, notes=notes, near=not cell)
    o = dict(sty=random_sets(r, .7), named=r.random() < .3)
    if x < .7:
        cols = 1 if cell else r.choice([1, 2])
        return dict(o, k='table', kids=[[random_element(r, depth + 1, notes, True) for _ in range(cols)] for _ in range(r.choice([1, 2]))])
    if x < .8 and not cell and not notes:
        return dict(o, k='group', kids=[random_text(r, notes=notes) for _ in range(r.choice([1, 2]))])
    return dict(o, k='box', kids=[random_element(r, depth + 1, notes, cell) for _ in range(r.randint(1, 3))])


def random_scenario(r):
    how = r.choice(['doc', 'doc', 'pdf'])
    notes = how == 'doc' and r.random() < .4
    head = how == 'doc' and r.random() < .25
    names = ['f', 's', 'c'] if how == 'pdf' or notes or head else ['f', 's', 'c', 'b', 'i', 'u', 'r', 'bg']
    sc = dict(how=how, how_=r.randrange(1000), root=[random_set(r, a) for a in r.sample(names, r.randint(0, 3))])
    if how == 'doc':
        sc['secs'] = [dict(k='box', sty=random_sets(r, .5), named=r.random() < .3, kids=[random_element(r, 0, notes) for _ in range(r.randint(1, 4))])
                      for _ in range(r.choice([1, 1, 2]))]
        if notes and r.random() < .4:
            sc['notes'] = random_sets(r, 1)
        if head:
            sc['head'] = dict(k='box', sty=random_sets(r, .6), kids=[dict(k='par', str=random_sets(r, .5), sty=random_sets(r, .5), kids=['w'])])
    else:
        sc['secs'] = [random_element(r) for _ in range(r.randint(1, 4))]
    return sc
