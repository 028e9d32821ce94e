"""Random documents (JSON-able definitions) used by the whole-document checks."""
import atexit
import io
import os
import shutil
import tempfile

COLORS = [0, 0.5, 'red', 'blue', '#0f0', '#123456', [0.2, 0.4, 0.6], 'green']
FONTS = ['Helvetica', 'Times', 'Courier']


class Gen:
    def __init__(self, rng, images=True, footnotes=True, links=True, tables=True, groups=True, cols=True, depth=2,
                 vars=True, lists=True):
        self.r = rng
        self.n = 0
        self.o = dict(images=images, footnotes=footnotes, links=links, tables=tables, groups=groups, cols=cols,
                      vars=vars, lists=lists)
        self.depth = depth
        self.labels = []
        self.level = 0
        self.in_table = 0

    def p(self, x):
        return self.r.random() < x

    def word(self):
        self.n += 1
        extra = self.r.choice(['', 'a', 'bc', 'def', '(', ')', '\\', 'xyzxyz'])
        return 'w%d%s' % (self.n, extra)

    def words(self, lo, hi):
        out = ''
        for i in range(self.r.randint(lo, hi)):
            if i:
                out += self.r.choice([' ', ' ', ' ', ' ', '  ', '\n'] if self.p(.3) else [' '])
            out += self.word()
        return out

    def inline_style(self):
        r = self.r
        parts = []
        if self.p(.3):
            parts.append('b')
        if self.p(.2):
            parts.append('i')
        if self.p(.2):
            parts.append('u')
        if self.p(.3):
            parts.append('s:%s' % r.choice([8, 9, 10, 12, 14]))
        if self.p(.2):
            parts.append('c:%s' % r.choice(['red', 'blue', '0.3', '#0f0']))
        if self.p(.15):
            parts.append('bg:%s' % r.choice(['yellow', '#eee', '0.9']))
        if self.p(.15):
            parts.append('r:%s' % r.choice([0.3, -0.3]))
        if self.p(.2):
            parts.append('f:%s' % r.choice(FONTS))
        return ';'.join(parts)

    def inline(self, depth=0):
        r = self.r
        d = {}
        content = []
        if self.o['links']:
            if self.p(.15):
                d['label'] = 'L%d' % len(self.labels) + r.choice(['', 'a', 'Z', ' x'])
                self.labels.append(d['label'])
                if self.p(.5) and not self.in_table:
                    lv = r.randint(1, min(3, self.level + 1))
                    self.level = lv
                    d['outline'] = {'level': lv, 'text': 'out %d' % len(self.labels)}
            if self.p(.15):
                d['uri'] = 'http://x.y/%d' % r.randint(1, 4)
            elif self.p(.15) and self.labels:
                d['ref'] = r.choice(self.labels)
        for _ in range(r.randint(1, 3)):
            if depth < 2 and self.p(.25):
                content.append(self.inline(depth + 1))
            else:
                content.append(self.words(1, 6) + (' ' if self.p(.8) else ''))
        d['.' + self.inline_style()] = content
        if self.p(.2):
            d['style'] = r.choice([{'c': r.choice(COLORS)}, {'s': r.choice([9, 11])}, 'fmt1', {'b': True}, {'u': True}])
        return d

    def par(self):
        r = self.r
        d = self.inline()
        key = next(k for k in d if k.startswith('.'))
        d[key] = list(d[key]) + [self.words(1, r.choice([3, 10, 40]))]
        if self.o['footnotes'] and self.p(.12):
            d[key].append({'footnote': self.words(1, 5)})
        if self.o['vars'] and self.p(.1):
            d[key].append({'var': '$page'})
        st = {}
        if self.p(.4):
            st['text_align'] = r.choice('lrcj')
        if self.p(.2):
            st['line_height'] = r.choice([1, 1.2, 1.5])
        if self.p(.2):
            st['indent'] = r.choice([10, 20])
        if self.o['lists'] and self.p(.15):
            st['list_text'] = r.choice(['* ', '1. ', '- '])
            if self.p(.5):
                st['list_indent'] = 20
        self.margins(st)
        if st:
            d['style'] = st
        return d

    def margins(self, st):
        for k, pr in (('margin_top', .15), ('margin_bottom', .15), ('margin_left', .1), ('margin_right', .1)):
            if self.p(pr):
                st[k] = self.r.choice([0, 5, 12])

    def image(self):
        w, h = self.r.choice([(40, 8), (64, 20), (64, 30), (40, 20), (90, 9)])
        d = {'image': '@img:%s:%d:%d' % (self.r.choice(['jpg', 'png']), w, h)}
        st = {}
        self.margins(st)
        st['min_height'] = 10
        if self.p(.5):
            st['image_place'] = self.r.choice(['normal', 'flow'])
        d['style'] = st
        return d

    def table(self, depth):
        r = self.r
        cols, rows = r.randint(1, 4), r.randint(1, 6)
        self.in_table += 1
        grid = [[self.cell(depth + 1) for _ in range(cols)] for _ in range(rows)]
        self.in_table -= 1
        if rows > 1 and cols > 1 and self.p(.4):
            # one span
            i, j = r.randrange(rows), r.randrange(cols)
            rs, cs = r.randint(1, min(3, rows - i)), r.randint(1, min(3, cols - j))
            if rs * cs > 1:
                for a in range(i, i + rs):
                    for b in range(j, j + cs):
                        if (a, b) != (i, j):
                            grid[a][b] = None
                c = grid[i][j]
                if not isinstance(c, dict):
                    c = {'.': c if isinstance(c, (list, tuple)) else [c or self.words(1, 2)]}
                c['rowspan'], c['colspan'] = rs, cs
                grid[i][j] = c
        d = {'table': grid}
        if self.p(.5):
            d['widths'] = [r.choice([1, 1.5, 2]) for _ in range(cols)]
        if self.p(.5):
            d['borders'] = [{'pos': r.choice(['h0', 'h1', 'v0', 'h0,-1;:', 'v;1', 'h;0', 'v::2']), 'width': r.choice([0, 1, 2]),
                             'color': r.choice(['red', 0.4]), 'style': r.choice(['solid', 'dashed', 'dotted'])}]
            d['borders'] = [b for b in d['borders'] if cols > 1 or '1' not in b['pos']]
        if self.p(.4):
            d['fills'] = [{'pos': r.choice([';0', '0;', '::2;', '-1;']), 'color': r.choice(['yellow', 0.9])}]
        st = {}
        self.margins(st)
        if self.p(.3):
            st['cell_margin'] = r.choice([1, 3, 6])
        if self.p(.2):
            st['border_width'] = r.choice([0, 1])
        if st:
            d['style'] = st
        return d

    def cell(self, depth):
        r = self.r
        x = r.random()
        if x < .1:
            return None
        if x < .55:
            return self.words(1, 6)
        if x < .7:
            return {'.' + self.inline_style(): [self.words(1, 8)]}
        if x < .8 and self.o['images']:
            d = self.image()
            return {'image': '@img:jpg:90:9'}
        if depth <= self.depth and x < .9:
            return {'content': [self.par() for _ in range(r.randint(1, 2))]}
        if depth <= self.depth and x < .95 and self.o['tables']:
            d = self.table(depth + 1)
            return {'table': d['table']}
        d = self.inline()
        if self.p(.4):
            d['style'] = {'cell_fill': r.choice(COLORS)}
        return d

    def group(self):
        els = [self.par_short() for _ in range(self.r.randint(1, 2))]
        if self.o['images'] and self.p(.4):
            im = self.image()
            im['style'] = {'min_height': 10}
            els.insert(self.r.randint(0, len(els)), im)
        return {'group': els}

    def par_short(self):
        d = {'.' + self.inline_style(): [self.words(1, 3)]}
        st = {}
        self.margins(st)
        if st:
            d['style'] = st
        return d

    def element(self, depth):
        x = self.r.random()
        if x < .55:
            return self.par()
        if x < .65 and self.o['images']:
            return self.image()
        if x < .78 and self.o['tables']:
            return self.table(depth)
        if x < .85 and self.o['groups']:
            return self.group()
        if depth < self.depth:
            return self.box(depth + 1)
        return self.par()

    def box(self, depth, n=None):
        d = {'content': [self.element(depth) for _ in range(n or self.r.randint(1, 4))]}
        if self.o['cols'] and self.p(.5):
            d['cols'] = {'count': self.r.choice([1, 2, 3])}
            if self.p(.5):
                d['cols']['gap'] = self.r.choice([5, 15])
        st = {}
        if self.p(.3):
            st['text_align'] = self.r.choice('lrcj')
        if self.p(.3):
            st['s'] = self.r.choice([8, 10])
        self.margins(st)
        if st:
            d['style'] = st
        return d

    def document(self, nsec=None, nel=None):
        r = self.r
        doc = {'style': {}, 'formats': {'fmt1': {'c': 'blue', 'b': True}}, 'sections': []}
        st = doc['style']
        if self.p(.7):
            st['page_size'] = r.choice(['a5', 'a4', [300, 400], [420, 300], 'letter'])
        st['margin'] = r.choice([40, [40, 50, 30, 45], {'top': 50, 'bottom': 40, 'left': 30, 'right': 35}])
        if self.p(.3):
            st['rotate_page'] = True
        if self.p(.3):
            st['f'] = r.choice(FONTS)
        if self.p(.5):
            st['outlines_level'] = r.choice([1, 2, 3])
        if self.p(.3):
            st['page_numbering_style'] = 'roman'
        if self.p(.2):
            st['page_numbering_offset'] = r.choice([1, 5])
        if self.p(.5):
            doc['running_sections'] = {
                'head': {'width': 'full', 'height': 'top', 'x': 'left', 'y': 'top', 'content': [{'.': ['head ', {'var': '$page'}]}]},
                'foot': {'width': 'full', 'height': 'bottom', 'x': 'left', 'y': 'bottom', 'content': [{'.': 'foot'}]}}
            if self.p(.5):
                doc['per_page'] = [{'pages': r.choice(['0', '1:', '::2', '1,3']),
                                    'style': {'margin': [60, 40, 60, 40]},
                                    'running_sections': {'exclude': ['head'], 'include': ['foot']}}]
        for _ in range(nsec or r.choice([1, 1, 2, 3])):
            s = self.box(0, nel or r.randint(1, 8))
            if 'running_sections' in doc and self.p(.7):
                s['running_sections'] = r.choice([['head'], ['head', 'foot'], ['foot']])
            if self.p(.2):
                s.setdefault('style', {})['page_numbering_reset'] = True
            s.pop('x', None)
            doc['sections'].append(s)
        return doc


# -- images ----------------------------------------------------------------
_dir = None


def image_dir():
    global _dir
    if _dir is None or not os.path.isdir(_dir) or not _dir.endswith('-%d' % os.getpid()):
        _dir = tempfile.mkdtemp(prefix='verif-img-', suffix='-%d' % os.getpid())
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def image_file(spec):
    """'@img:jpg:40:30' -> path of such an image (made on first use)."""
    from PIL import Image
    _, ext, w, h = spec.split(':')[:4]
    mode = (spec.split(':') + ['', '', '', ''])[4] or 'RGB'
    path = os.path.join(image_dir(), spec[1:].replace(':', '_') + '.' + ext)
    if not os.path.exists(path):
        w, h = int(w), int(h)
        im = Image.new(mode, (w, h))
        n = len(im.getbands())
        k = sum(map(ord, spec))
        vals = [((x * 7 + y * 13 + k * 3 + c * 50) % 256 for c in range(n)) for y in range(h) for x in range(w)]
        px = [tuple(v) if n > 1 else next(v) for v in vals]
        im.putdata(px)
        im.save(path, 'JPEG' if ext in ('jpg', 'jpeg') else 'PNG')
    return path


def materialize(o):
    if isinstance(o, str):
        return image_file(o) if o.startswith('@img:') else o
    if isinstance(o, list):
        return [materialize(x) for x in o]
    if isinstance(o, dict):
        return {k: materialize(v) for k, v in o.items()}
    return o
