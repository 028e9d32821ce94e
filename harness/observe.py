"""What a reader sees on the pages: glyphs, words, links; all numbers in milli-points."""
import re

import sut
from sut import AFM, mpt

TOKEN = re.compile(r'w\d+[A-Za-z]*')


class Glyph:
    __slots__ = ('c', 'x', 'y', 'w', 'size', 'font', 'color', 'rise', 'mark', 'seq')


def glyphs(page):
    """Every painted character of standard fonts, in paint order."""
    out = []
    for k, m in enumerate(page.marks):
        if m['t'] != 'text':
            continue
        base = page.base(m['font'])
        w = AFM.get(base)
        if w is None:
            continue
        x = m['x']
        for b in m['s']:
            g = Glyph()
            g.c, g.x, g.y = chr(b), x, m['y']
            g.w = w[b] / 1000.0 * m['size'] + (m['tw'] if b == 32 else 0)
            g.size, g.font, g.color, g.rise, g.mark, g.seq = m['size'], base, m['color'], m['rise'], k, len(out)
            x += g.w
            out.append(g)
    return out


class Word:
    """A run of characters without white space, contiguous on one line."""

    def __init__(self, gs):
        self.gs = gs
        self.s = ''.join(g.c for g in gs)
        self.x, self.y = gs[0].x, gs[0].y
        self.x2 = gs[-1].x + gs[-1].w


def words(page):
    out, cur = [], []
    for g in glyphs(page):
        if g.c in ' \t\n\r':
            if cur:
                out.append(Word(cur))
            cur = []
            continue
        if cur and (abs(cur[-1].y - g.y) > .01 or abs(cur[-1].x + cur[-1].w - g.x) > .02):
            out.append(Word(cur))
            cur = []
        cur.append(g)
    if cur:
        out.append(Word(cur))
    return out


def lines(page):
    """Words grouped by baseline, left to right, top to bottom."""
    rows = {}
    for w in words(page):
        rows.setdefault(round(w.y, 2), []).append(w)
    return [sorted(v, key=lambda w: w.x) for k, v in sorted(rows.items(), key=lambda kv: -kv[0])]


def tokens(view, pat=TOKEN):
    """token -> [(page index, first glyph, last glyph, order)] over the whole file."""
    out, n = {}, 0
    for p, page in enumerate(view.pages):
        for w in words(page):
            for m in pat.finditer(w.s):
                out.setdefault(m.group(), []).append((p, w.gs[m.start()], w.gs[m.end() - 1], n))
                n += 1
    return out


def links(page):
    """[(kind, target, x1, y1, x2, y2)] in milli-points; target resolved to the uri or the name."""
    out = []
    for a in page.annots:
        if not isinstance(a, dict) or a.get('Subtype') != 'Link':
            raise sut.Bad('AnnotationIsLink', a)
        r = [mpt(v) for v in a['Rect']]
        if len(r) != 4:
            raise sut.Bad('AnnotationRect', r)
        out.append((a, r))
    return out
