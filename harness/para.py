"""Paragraph scenarios: source, the words it is made of, and what was painted, as events of spec/Para.tla."""
import sut
from sut import mpt

import observe

MODES = {'Courier': ('Courier', 'Courier-Bold', 'Courier-Oblique', 'Courier-BoldOblique'),
         'Helvetica': ('Helvetica', 'Helvetica-Bold', 'Helvetica-Oblique', 'Helvetica-BoldOblique'),
         'Times': ('Times-Roman', 'Times-Bold', 'Times-Italic', 'Times-BoldItalic')}


def base(st):
    return MODES[st['f']][(1 if st.get('b') else 0) + (2 if st.get('i') else 0)]


def style_str(st):
    return ';'.join(k if v is True else '%s:%s' % (k, v) for k, v in st.items())


def width(st, text):
    return round(sut.swidth(base(st), text) * st['s'])


class StreamPage:
    """The marks of one content stream made with the fonts of a PDFFonts."""

    def __init__(self, stream, fonts):
        self.fonts, self.annots = fonts, []

        def width_of(name, s):
            w = sut.AFM[fonts[name]['BaseFont']]
            return sum(w[b] for b in s) / 1000.0, s.count(b' ')
        self.marks = sut.interpret(stream.encode('latin-1'), fonts, {}, width_of)

    def base(self, name):
        return self.fonts[name]['BaseFont']


def chunks_of(sc):
    """[(text, style)] of a scenario's content, in order, plain strings merged like the library merges them."""
    out = []
    for c in sc['chunks']:
        if isinstance(c, str):
            if out and out[-1][2]:
                out[-1] = (out[-1][0] + c, sc['base'], True)
            else:
                out.append((c, sc['base'], True))
        else:
            out.append((c[1], dict(sc['base'], **c[0]), False))
    return out


PLAIN = {'f': 'Helvetica', 's': 11}


def content_of(sc):
    return {'.' + style_str(sc['base']): [c if isinstance(c, str) else dict({'.' + style_str(c[0]): [c[1]]}, **(c[2] if len(c) > 2 else {}))
                                          for c in sc['chunks']]}


def source(sc):
    """Words of the source: [dict(s, w, sz, up, dn, sp, br)], and breaks after the last."""
    words, cur, sp, br = [], None, 0, 0
    for text, st, _ in chunks_of(sc):
        space_here = False
        for ch in text:
            if ch == '\n':
                cur, sp, space_here = None, 0, False
                br += 1
            elif ch == ' ':
                cur = None
                if words and br == 0 and not space_here:
                    sp += width(st, ' ')
                space_here = True
            else:
                space_here = False
                if cur is None:
                    cur = dict(s='', w=0, sz=0, up=0, dn=0, sp=sp, br=br)
                    words.append(cur)
                    sp = br = 0
                cur['s'] += ch
                cur['w'] += width(st, ch)
                cur['sz'] = max(cur['sz'], mpt(st['s']))
                rise = mpt(st.get('r', 0) * st['s'])
                cur['up'], cur['dn'] = max(cur['up'], rise), max(cur['dn'], -rise)
    return words, br


def exact(sc):
    """Is everything that heights are made of without rounding, in any order of computation?"""
    if sc.get('how', 'direct') != 'direct' or 'areas' not in sc:
        return False
    styles = [dict(st, **(sc.get('list_style') or {})) for _, st, _ in chunks_of(sc)] + [st for _, st, _ in chunks_of(sc)]
    numbers = [st['s'] for st in styles] + [v for a in sc['areas'] for v in (a[1], a[3])] + [sc.get('line_height', 1.1)]
    return not any(st.get('r') for st in styles) and all(float(4 * v).is_integer() for v in numbers)


def head_events(sc):
    words, tail = source(sc)
    lst = sc.get('list_text')
    li = ls = 0
    if lst is not None:
        st = dict(chunks_of(sc)[0][1], **(sc.get('list_style') or {}))
        ls = mpt(st['s'])
        li = mpt(sc['list_indent']) if sc.get('list_indent') is not None else width(st, lst)
    lh = sc.get('line_height', 1.1)
    ev = [dict(ev='para', align=sc.get('align', 'l'), lh=round(lh * 100), indent=mpt(sc.get('indent', 0)),
               list=lst is not None, li=li, lsize=ls, lead=mpt(lh), exact=exact(sc))]
    for k, w in enumerate(words):
        ev.append(dict({f: w[f] for f in ('w', 'sz', 'up', 'dn', 'sp', 'br')}, ev='word', id=k + 1))
    return ev + [dict(ev='tail', br=tail)], {w['s']: k + 1 for k, w in enumerate(words)}


def line_events(lines, ids, mark, ignore=()):
    """Events of lines of words (top to bottom, left to right)."""
    ev = []
    for line in lines:
        line = [w for w in line if w.s not in ignore]
        ws = []
        for w in line:
            if w.s in ids:
                ws.append(w)
            elif mark is not None and w.s == mark:
                ev.append(dict(ev='mark', x=mpt(w.x), y=mpt(w.y)))
            else:
                ev.append(dict(ev='stray', s=w.s))
        if ws:
            ev.append(dict(ev='line', y=mpt(ws[0].y), x1=mpt(ws[0].x), x2=mpt(ws[-1].x2),
                           ids=[ids[w.s] for w in ws], xs=[mpt(w.x) for w in ws]))
    return ev


def mark_of(sc):
    return sc['list_text'].strip() if sc.get('list_text') is not None else None


def par_args(sc):
    return {k: sc[k] for k in ('line_height', 'indent', 'list_text', 'list_indent', 'list_style') if sc.get(k) is not None}


def areas_of(sc):
    i = 0
    while True:
        yield sc['areas'][i % len(sc['areas'])]
        i += 1


def direct(sc):
    """PDFText run in one area after another."""
    from pdfme.text import PDFText
    from pdfme.fonts import PDFFonts
    fonts = PDFFonts()
    ev, ids = head_events(sc)
    content = content_of(sc)
    if sc['base'] == PLAIN:
        # what is not said is as it is by default
        content = next(iter(content.values()))
        content = content[0] if len(content) == 1 and isinstance(content[0], str) else tuple(content) if len(content) % 2 else content
    t = PDFText(content, 1, 1, fonts=fonts, text_align=sc.get('align'), **par_args(sc))
    for n, (x, y, w, h) in enumerate(areas_of(sc)):
        res = t.run(x, y, w, h)
        used = {fonts.get_font(f, m).ref: {'BaseFont': base(dict(f=f, b='b' in m, i='i' in m))} for f, m in res['used_fonts']}
        page = StreamPage(t.stream, used)
        ev.append(dict(ev='area', x=mpt(x), y=mpt(y), w=mpt(w), h=mpt(h), hk=True))
        ev += line_events(observe.lines(page), ids, mark_of(sc))
        if t.finished or n > 400:
            break
    return ev + [dict(ev='finished', done=t.finished)]


def pages_events(sc, view, area, ev, ids, ignore=()):
    """area(page index, column) -> (x, y, w, h or None); columns are taken left to right."""
    last = max((i for i, p in enumerate(view.pages) if observe.words(p)), default=0)
    for i, page in enumerate(view.pages[:last + 1]):
        ls = observe.lines(page)
        for c in range(sc.get('cols', 1)):
            x, y, w, h = area(i, c)
            mine = [[v for v in l if x - 3 <= (v.x + v.x2) / 2 <= x + w + 3] if sc.get('cols', 1) > 1 else l for l in ls]
            mine = [l for l in mine if l]
            if not mine and i == last and c:
                continue
            hk = h is not None and not (i == last and sc.get('cols', 1) > 1)
            ev.append(dict(ev='area', x=mpt(x), y=mpt(y), w=mpt(w), h=mpt(h or 0), hk=hk))
            ev += line_events(mine, ids, mark_of(sc), ignore)
    return ev + [dict(ev='finished', done=True)]


def on_pages(sc):
    """PDF.text over the pages of a file."""
    from pdfme import PDF
    W, H, m = sc['page']
    pdf = PDF(page_size=(W, H), margin=m)
    pdf.add_page()
    pdf.text(content_of(sc), text_align=sc.get('align'), **par_args(sc))
    ev, ids = head_events(sc)
    return pages_events(sc, sut.View(sut.out(pdf)), lambda i, c: (m, H - m, W - 2 * m, H - 2 * m), ev, ids)


def in_document(sc):
    """A paragraph of a section, in columns."""
    W, H, m = sc['page']
    par = content_of(sc)
    st = dict(text_align=sc.get('align', 'l'), margin_left=sc.get('ml', 0), margin_right=sc.get('mr', 0), **par_args(sc))
    par['style'] = st
    n = sc.get('cols', 1)
    doc = {'style': {'page_size': [W, H], 'margin': m}, 'sections': [{'content': [par], 'cols': {'count': n, 'gap': sc.get('gap', 10)}}]}
    cw = (W - 2 * m - (n - 1) * sc.get('gap', 10)) / n
    ml, mr = st['margin_left'], st['margin_right']
    ev, ids = head_events(sc)
    return pages_events(sc, sut.View(sut.build(doc)),
                        lambda i, c: (m + c * (cw + sc.get('gap', 10)) + ml, H - m, cw - ml - mr, H - 2 * m), ev, ids)


def in_cell(sc):
    """A paragraph in the second of three cells of a table."""
    from pdfme import PDF
    W, H, m = sc['page']
    pdf = PDF(page_size=(W, H), margin=m)
    pdf.add_page()
    par = content_of(sc)
    par['style'] = dict(text_align=sc.get('align', 'l'), **par_args(sc))
    cm = 4
    pdf.table([['ZZ', par, 'YY']], widths=[1, 2, 1], style={'cell_margin': cm, 'border_width': 0})
    ev, ids = head_events(sc)
    # column widths in proportion
    cw = (W - 2 * m) / 4
    x = m + cw
    return pages_events(dict(sc, cols=1), sut.View(sut.out(pdf)), lambda i, c: (x + cm, H - m - cm, 2 * cw - 2 * cm, None), ev, ids,
                        ignore=('ZZ', 'YY'))


DRIVERS = dict(direct=direct, pages=on_pages, doc=in_document, cell=in_cell)


def trace(sc):
    return DRIVERS[sc.get('how', 'direct')](sc)


# -- scenarios ---------------------------------------------------------------
STYLES = [{}, {}, {'b': True}, {'i': True}, {'s': 8}, {'s': 14}, {'f': 'Helvetica'}, {'f': 'Times', 'i': True}, {'r': 0.4, 's': 7}, {'r': -0.3},
          {'u': True}, {'bg': 'yellow'}, {'c': 'red'}, {'s': 11.5, 'b': True}]


def from_model(s, r):
    """A scenario of ParaMC: word lengths in characters of Courier 10."""
    out, n = '', 0
    for k, t in enumerate(s['toks']):
        if t == 0:
            out += '\n'
        else:
            n += 1
            if out and out[-1] != '\n':
                out += r.choice([' ', ' ', '  '])
            out += chr(96 + n) + 'w' * (t - 1)
    areas = [(50, 700, c * 6 + 1, min(h, 600000) / 1000) for c, h in s['areas']]
    sc = dict(chunks=[out], base={'f': 'Courier', 's': 10}, align=s['align'], indent=s['indent'] * 6, areas=areas)
    if s['list']:
        sc.update(list_text='* ', list_indent=12)
    return sc


def tie_scenario(r):
    """Areas exactly as high as their lines."""
    s, lh = r.choice([8, 10, 12, 11.5, 11, 11]), r.choice([1, 1, 1.5, 2, 1.25])
    src = ' '.join('w%d' % (k + 1) + r.choice(['', 'a', 'mmm', 'xyz']) + '-' for k in range(r.choice([8, 20, 40])))
    if r.random() < .3:
        src = src.replace(' ', '\n', r.randint(1, 3))
    sc = dict(how='direct', base={'f': r.choice(['Courier', 'Helvetica', 'Times']), 's': s}, chunks=[src], align=r.choice('lrcj'), line_height=lh)
    first = s + lh
    if r.random() < .25:
        sc.update(list_text='* ', list_indent=15, list_style={'s': r.choice([s, s + 8])})
        first = max(first, sc['list_style']['s'])
    areas = []
    for k in range(r.randint(1, 4)):
        h = (first if k == 0 else s + lh) + r.randint(0, 3) * s * lh
        areas.append((20, 700, r.choice([90, 120, 200]), h - r.choice([0, 0, 0, .25])))
    sc['areas'] = areas + [(10, 600, 150, 400)] * (max(a[3] for a in areas) < first + 1)
    return sc


def random_scenario(r, how=None):
    how = how or r.choice(['direct', 'direct', 'direct', 'pages', 'doc', 'doc', 'cell'])
    base_ = {'f': r.choice(['Courier', 'Helvetica', 'Times']), 's': r.choice([8, 10, 12])} if r.random() < .85 else dict(PLAIN)
    plain = r.random() < .35
    n = r.choice([1, 3, 8, 20, 60, 60, 120])
    # runs of (style index, text)
    runs = []

    def put(st, text):
        if runs and runs[-1][0] == st:
            runs[-1] = (st, runs[-1][1] + text)
        else:
            runs.append((st, text))
    st = 0
    prev_space = True
    long_ok = not (how == 'doc')
    for k in range(n):
        new = r.randrange(len(STYLES)) if not plain and r.random() < .4 else st
        if r.random() < .5:
            st = new
        word = 'w%d' % (k + 1) + r.choice(['', 'a', 'ab', '(', ')x', '\\', 'xyz', 'mmmmm', 'i.']) + '-'
        if long_ok and r.random() < .02:
            word += 'q' * r.choice([30, 60])
        if k:
            x = r.random()
            if x < .05:
                put(st, r.choice(['\n', '\n', '\n\n', ' \n ', '\n\n\n']))
            else:
                put(st, r.choice([' '] * 6 + ['  ', '   ']))
        st = new
        while word:
            c = r.randint(1, len(word)) if not plain and r.random() < .2 else len(word)
            put(st, word[:c])
            word = word[c:]
            if word:
                st = r.randrange(len(STYLES))
    # white space at both sides of a style change is not collapsed: keep it on one side
    chunks = []
    for a, (st, text) in enumerate(runs):
        chunks.append(text if not STYLES[st] else [STYLES[st], text])
    fixed, tail = [], False
    for c in chunks:
        text = c if isinstance(c, str) else c[1]
        if tail:
            text = text.lstrip(' ')
        if not text:
            continue
        tail = text[-1] == ' '
        fixed.append(text if isinstance(c, str) else [c[0], text])
    sc = dict(how=how, base=base_, chunks=fixed, align=r.choice('lrcjj'))
    if r.random() < .3:
        sc['line_height'] = r.choice([1, 1.3, 1.5, 2])
    if r.random() < .3 and not sc['align'] in 'rc':
        sc['indent'] = r.choice([10, 25])
    if r.random() < .2:
        sc['list_text'] = r.choice(['* ', '1) ', '# '])
        if r.random() < .6:
            sc['list_indent'] = r.choice([15, 22])
        if r.random() < .4:
            sc['list_style'] = r.choice([{'s': 16}, {'s': 7}, {'b': True}])
    if how == 'direct':
        sc['areas'] = [(r.choice([0, 20, 33.3]), r.choice([700, 512.25]), r.choice([90, 120, 200.5, 300]), r.choice([5, 14, 30, 45.7, 100, 500]))
                       for _ in range(r.randint(1, 4))]
        if all(a[3] < 50 for a in sc['areas']):
            sc['areas'].append((10, 600, 150, 300))
    else:
        sc['page'] = r.choice([(200, 150, 20), (300, 200, 30), (400, 120, 25), (260, 400, 20)])
        if how == 'doc':
            sc['cols'] = r.choice([1, 1, 2, 3]) if sc['page'][0] > 250 else 1
            sc['gap'] = r.choice([10, 18])
            if sc['cols'] > 1:
                # no word goes over the next column
                W, _, m = sc['page']
                room = (W - 2 * m + sc['gap']) / sc['cols'] - (sc.get('indent', 0) + sc.get('list_indent', 30) * ('list_text' in sc))
                if max([w['w'] for w in source(sc)[0]], default=0) > room * 1000:
                    sc['cols'] = 1
            if sc['cols'] == 1 and r.random() < .4:
                sc['ml'], sc['mr'] = r.choice([0, 12]), r.choice([0, 7])
    return sc
