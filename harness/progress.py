"""Scenarios of layouts that may not fit (spec/Progress.tla) and how they are run and observed.

Elements: ['p', words, size, props, notes], ['i', ratio, min height, place], ['g', elements], ['t', rows of cells (an element or None, and their
rowspan), cell margin, border], ['b', columns, elements, margin], ['e', what] (something empty).  page: [content width, content height]."""
import re
import signal

import flow
import observe
import sut
from sut import mpt

TOK = re.compile(r'w(\d+)z')
M = 20


class Endless(BaseException):
    pass


class Plan:
    def __init__(self, sc):
        self.sc = sc
        self.atoms = []
        self.exact = set()
        self.notes = 0.0
        # lines that show nothing, but take their place
        self.silent = 0
        # how much wider than told the place of an element may be (a cell shares its borders with the next ones)
        self.slack = 0.0
        self.width, self.height = sc['page']

    def atom(self, h, room, hard=True):
        self.atoms.append([h, room, hard])
        return len(self.atoms)

    def par(self, e, room, width, sure=True, group=None):
        _, n, size, props, notes = e
        parts = []
        for k in range(n):
            i = self.atom(size * 1.25 * props.get('line_height', 1.1) / 1.1 + 2, room, False)
            if sure:
                # nothing makes a line lower than its letters
                self.atoms[-1].append(size)
            parts.append('w%dz ' % i)
            if k < notes:
                j = self.atom(10 * 1.5, room, False)
                self.notes += 10 * 1.5 * (1 if width > 60 else 3)
                parts.append({'footnote': 'w%dz' % j})
                parts.append(' ')
        d = {'.': parts, 'style': dict(s=size, **props)}
        return d

    def image(self, e, room, width, sure=True, top=False):
        _, ratio, least, place = e
        if least == 'page':
            least = self.height
        h = (width + self.slack) * ratio
        i = self.atom(min(h, least) if least else h, room, sure and not least)
        if sure and not least:
            self.atoms[-1].append(width * ratio)
        if least and top and h >= least:
            # it may be made exactly as high as the page
            self.exact.add(i)
        w = 1000 + i
        d = {'image': flow.tiny_jpeg(w, max(1, round(w * ratio))), 'style': {'image_place': place}}
        if least:
            d['style']['min_height'] = least
        return d

    def element(self, e, room, width, sure=True, top=False):
        k = e[0]
        if k == 'p':
            return self.par(e, room, width, sure)
        if k == 'i':
            return self.image(e, room, width, sure, top)
        if k == 'g':
            first = len(self.atoms)
            out = [self.element(x, room, width, sure) for x in e[1]]
            mine = self.atoms[first:]
            total = 0
            for a in mine:
                total += a[0] + 12
            hard = all(x[0] == 'p' or not x[2] for x in e[1]) and sure
            # what is sure: images take their heights, and a paragraph at least a line
            low = sum(width * x[1] if x[0] == 'i' else x[2] for x in e[1])
            for a in mine:
                a[:] = [total, room, False] + ([low] if hard else [])
            return {'group': out}
        if k == 't':
            _, rows, cm, bw = e
            n = max([len(r) for r in rows] + [1])
            pad = 2 * cm + 2 * bw
            self.slack += 2 * bw
            span = any(c and c[1] > 1 for r in rows for c in r)
            out = []
            busy = {}
            for ri, r in enumerate(rows):
                row = []
                before = len(self.atoms)
                for c in range(n):
                    cell = r[c] if c < len(r) else None
                    if busy.get(c, 0) > ri or not cell:
                        row.append(None if busy.get(c, 0) > ri else '')
                        continue
                    what = cell[0]
                    if width / n - pad < 2 and what[0] not in 'pe':
                        what = ['p', 2, 10, {}, 0]
                    if what[0] == 'i':
                        # only a content box makes images smaller
                        what = what[:2] + [0] + what[3:]
                    d = self.element(what, room - pad - 8, width / n - pad, sure and not span)
                    if cell[1] > 1:
                        busy[c] = ri + cell[1]
                        d['rowspan'] = cell[1]
                    row.append(d)
                free = [c for c in range(n) if row[c] is not None]
                if len(self.atoms) == before and free:
                    # a page with the borders of empty cells only would count as nothing
                    row[free[0]] = self.element(['p', 1, 8, {}, 0], room - pad - 8, width / n - pad, sure and not span)
                out.append(row)
            self.slack -= 2 * bw
            return {'table': out, 'style': dict(cell_margin=cm, border_width=bw)}
        if k == 'e':
            self.silent += {'blank': 1, 'lines': 3}.get(e[1], 0)
        if k == 'e' and e[1] in ('cell', 'cells') and room < 80:
            # as above
            return {'.': ' '}
        if k == 'b':
            _, cols, els, margin = e
            gap = width / cols * .1
            w = (width - gap * (cols - 1)) / cols - 2 * margin
            return {'content': [self.element(x, room, w, sure, top) for x in els], 'cols': dict(count=cols, gap=gap),
                    'style': dict(margin_left=margin, margin_right=margin)}
        return {'par': {'.': ''}, 'list': {'.': []}, 'blank': {'.': '   '}, 'lines': {'.': '\n\n'}, 'box': {'content': []}, 'group': {'group': []},
                'cell': {'table': [['']]}, 'cells': {'table': [['', ''], ['', '']]}}[e[1]]


def run(sc, p):
    """Builds it: (how it ended, the file or None)."""
    from pdfme import PDF, PDFDocument
    W, H = p.width, p.height
    page = dict(page_size=(W + 2 * M, H + 2 * M), margin=M)
    limit = 3 * len(p.atoms) + 400
    count = [0]
    base = PDF.add_page

    def add_page(self, *a, **k):
        count[0] += 1
        if count[0] > limit:
            raise Endless()
        return base(self, *a, **k)

    def alarm(*_):
        raise Endless()
    PDF.add_page = add_page
    old = signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 30)
    pdf, how, why = None, 'done', ''
    try:
        if sc['how'] == 'doc':
            d = dict(style=dict(page, f='Courier'), sections=[])
            for s in sc['secs']:
                before = len(p.atoms)
                d['sections'].append(p.element(s, H, W, top=True))
                if len(p.atoms) == before:
                    # the page of a section without anything is no page of a layout that goes on
                    d['sections'][-1]['content'].append(p.element(['p', 1, 6, {}, 0], H, W))
            doc = PDFDocument(d)
            pdf = doc.pdf
            doc.run()
        else:
            pdf = PDF(font_family='Courier', **page)
            pdf.add_page()
            for s in sc['secs']:
                e = p.element(s, H, W, top=True)
                if 'table' in e:
                    pdf.table(e['table'], style=e['style'])
                elif 'content' in e:
                    pdf.content(e)
                elif 'image' in e or 'group' in e:
                    pdf.content({'content': [e]})
                else:
                    pdf.text(e)
    except Endless:
        how = 'endless'
    except Exception as ex:
        how, why = ('error' if type(ex) in (Exception, ValueError) else 'crash'), '%s: %s' % (type(ex).__name__, str(ex)[:60])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        PDF.add_page = base
    return how, why, pdf


def trace(sc):
    p = Plan(sc)
    how, why, pdf = run(sc, p)
    out = []
    pages = []
    if pdf is not None and pdf.pages:
        try:
            pages = sut.View(sut.out(pdf)).pages
        except sut.Bad as e:
            if how == 'done':
                out.append(dict(ev='malformed', rule=e.rule))
    for page in pages[:3 * len(p.atoms) + 100]:
        new = []
        for m in page.marks:
            if m['t'] == 'text':
                new += [int(x) for x in TOK.findall(m['s'].decode('latin-1'))]
            elif m['t'] == 'image':
                new.append(int(page.xobjects[m['name']][1].dict['Width']) - 1000)
        out.append(dict(ev='page', new=new))
    atoms = []
    for k, a in enumerate(p.atoms, 1):
        h, room, hard = a[:3]
        room -= p.notes + (30 if p.notes else 0)
        low = a[3] if len(a) > 3 else h if hard else 0
        atoms.append(dict(h=mpt(min(h, 90000)), low=mpt(min(low, 90000)), room=mpt(room), full=mpt(p.height), exact=k in p.exact and not p.notes))
    return [dict(ev='def', atoms=atoms, silent=p.silent)] + out + [dict(ev='end', how=how, why=why, pages=len(pages))]


# -- random --------------------------------------------------------------------
def random_par(r, big, notes=False):
    size = r.choice([6, 10, 10, 14, 24] + ([60, 150, 300] if big else []))
    props = {}
    if r.random() < .2:
        props['indent'] = r.choice([5, 40, 300])
    if r.random() < .3:
        props['text_align'] = r.choice('ljrc')
    if r.random() < .15:
        props['line_height'] = r.choice([.8, 1, 1.5, 3])
    if r.random() < .15:
        props['list_text'] = r.choice(['* ', 'a long list text '])
    if r.random() < .2:
        props['margin_bottom'] = r.choice([0, 3, 30])
        props['margin_top'] = r.choice([0, 3, 30])
    n = r.choice([1, 2, 5, 20, 60])
    return ['p', n, size, props, r.choice([0, 0, 1, 2, min(n, 12)]) if notes else 0]


def random_image(r, big):
    x = r.choice([.1, .3, .6, 1] + ([1.5, 3, 10] if big else []))
    return ['i', x, r.choice([0, 0, 0, 5, 30] + ([400, 'page', 'page'] if big else [])), r.choice(['flow', 'normal'])]


def random_element(r, big, notes, depth=0, cell=False, cols=1):
    # cols: columns around it; balancing columns in columns takes long
    x = r.random()
    if x < .4 or depth > 2:
        return random_par(r, big and r.random() < .3, notes)
    if x < .55:
        return random_image(r, big and r.random() < .4)
    if x < .63:
        return ['e', r.choice(['par', 'list', 'blank', 'lines', 'box', 'cell', 'cells'] + ([] if cell else ['group']))]
    if x < .72 and not cell:
        return ['g', [random_par(r, False) if r.random() < .6 else random_image(r, big and r.random() < .3) for _ in range(r.randint(1, 4))]]
    if x < .87:
        n, rows = r.randint(1, 3), r.randint(1, 4)
        t = [[[random_element(r, big, notes, depth + 1, True, cols), 1] if r.random() < .85 else None for _ in range(n)] for _ in range(rows)]
        if r.random() < .25 and rows > 1 and t[0][0]:
            t[0][0][1] = r.randint(2, rows)
        return ['t', t, r.choice([0, 5, 5] + ([40] if big else [])), r.choice([0, .5, 2] + ([30] if big else []))]
    n = r.choice([x for x in (1, 1, 2, 3, 5) if x * cols < 7])
    return ['b', n, [random_element(r, big, notes, depth + 1, cell, n * cols) for _ in range(r.randint(1, 4))], r.choice([0, 0, 3])]


def random_scenario(r):
    big = r.random() < .5
    how = r.choice(['doc', 'pdf'])
    notes = how == 'doc' and r.random() < .3
    page = r.choice([[300, 400], [200, 150], [460, 660], [120, 300]]) if not big else [r.choice([20, 60, 150, 300, 460]), r.choice([15, 40, 100, 200, 500])]
    if how == 'doc':
        secs = [['b', n, [random_element(r, big, notes, cols=n) for _ in range(r.randint(1, 5))], 0] for n in r.choices([1, 1, 1, 2, 3], k=r.choice([1, 1, 2]))]
    else:
        secs = [random_element(r, big, False) for _ in range(r.randint(1, 4))]
        secs = [s if s[0] != 'e' else ['p', 1, 10, {}, 0] for s in secs]
    return dict(how=how, page=page, secs=secs)
