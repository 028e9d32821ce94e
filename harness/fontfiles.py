"""TrueType files made for the checks, and what can be read from the embedded copies of them.

A font: dict(no: its number, n: glyphs, upem, chars: [[code point, glyph]], adv: widths, names: which records its name table has, os2, mono).  The outline
of every glyph that is used is a rectangle whose corner tells the glyph and the file."""
import atexit
import io
import os
import shutil
import tempfile

_dir = None
_made = {}
SIDE = 15000


def scratch():
    global _dir
    if _dir is None or not _dir.endswith('-%d' % os.getpid()) or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(prefix='verif-ttf-', suffix='-%d' % os.getpid())
        _made.clear()
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


def corner(no, g):
    return 1 + g % SIDE, 10 + no + 100 * (g // SIDE)


def build(spec):
    """The path of the file."""
    from fontTools.fontBuilder import FontBuilder
    from fontTools.pens.ttGlyphPen import TTGlyphPen
    where = scratch()
    key = repr(sorted(spec.items()))
    if key in _made:
        return _made[key]
    n = spec['n']
    names = ['.notdef'] + ['g%d' % i for i in range(1, n)]
    fb = FontBuilder(spec['upem'], isTTF=True)
    fb.setupGlyphOrder(names)
    fb.setupCharacterMap({c: names[g] for c, g in spec['chars']})
    empty = TTGlyphPen(None).glyph()
    glyphs = dict.fromkeys(names, empty)
    for g in {0} | {g for _, g in spec['chars']}:
        x, y = corner(spec['no'], g)
        pen = TTGlyphPen(None)
        pen.moveTo((0, 0))
        pen.lineTo((x, 0))
        pen.lineTo((x, y))
        pen.lineTo((0, y))
        pen.closePath()
        glyphs[names[g]] = pen.glyph()
    fb.setupGlyf(glyphs)
    adv = spec['adv']
    fb.setupHorizontalMetrics({names[g]: (adv[g] if g < len(adv) else 500, 0) for g in range(n)})
    fb.setupHorizontalHeader(ascent=800, descent=-200)
    ps = 'Font%d-%s' % (spec['no'], spec['names'].capitalize())
    table = dict(familyName='Font %d' % spec['no'], styleName='Regular', psName=ps)
    if spec['names'] in ('std', 'spaces'):
        table.update(copyright='(c) a b', uniqueFontIdentifier='Font %d (unique)' % spec['no'], fullName='Font %d Regular' % spec['no'], version='Version 1')
    if spec['names'] in ('late', 'spaces'):
        table.update(trademark='Font %d is (a) trademark' % spec['no'], manufacturer='Maker [of fonts]', designer='A B')
    fb.setupNameTable(table, mac=spec['names'] != 'late')
    if spec['os2']:
        fb.setupOS2(sTypoAscender=800, sTypoDescender=-200, usWinAscent=800, usWinDescent=200, usWeightClass=spec.get('weight', 400))
    fb.setupPost(keepGlyphNames=n < 1000, isFixedPitch=spec.get('mono', 0), italicAngle=spec.get('angle', 0))
    path = os.path.join(where, 'f%d_%d.ttf' % (spec['no'], len(_made)))
    fb.save(path)
    _made[key] = path
    return path


class Embedded:
    """A font of a page as a reader of the file sees it."""

    def __init__(self, pdf, f):
        import sut
        self.kind = f.get('Subtype')
        self.base = str(f.get('BaseFont'))
        if self.kind != 'Type0':
            return
        from fontTools import ttLib
        if f.get('Encoding') != 'Identity-H':
            raise sut.Bad('EncodingKnown', f.get('Encoding'))
        cid = pdf.get(pdf.get(f['DescendantFonts'])[0])
        if cid.get('Subtype') != 'CIDFontType2':
            raise sut.Bad('DescendantKnown', cid.get('Subtype'))
        self.default = float(pdf.get(cid.get('DW', 1000)))
        self.widths, W, i = {}, pdf.get(cid.get('W', [])), 0
        while i < len(W):
            second = pdf.get(W[i + 1])
            if isinstance(second, list):
                for k, v in enumerate(second):
                    self.widths.setdefault(W[i] + k, set()).add(float(v))
                i += 2
            else:
                for k in range(W[i], second + 1):
                    self.widths.setdefault(k, set()).add(float(W[i + 2]))
                i += 3
        m = pdf.get(cid.get('CIDToGIDMap', 'Identity'))
        self.gids = None if m == 'Identity' else m.data
        program = pdf.get(pdf.get(cid['FontDescriptor'])['FontFile2']).data
        self.font = ttLib.TTFont(io.BytesIO(program), lazy=True)
        self.order = self.font.getGlyphOrder()
        self.glyf = self.font['glyf']
        self.uni = tounicode(pdf.get(f['ToUnicode']).data)

    def gid(self, code):
        if self.gids is None:
            return code
        return int.from_bytes(self.gids[2 * code:2 * code + 2], 'big') if 2 * code + 1 < len(self.gids) else 0

    def shape(self, g):
        """(file, glyph) by the outline."""
        if g >= len(self.order):
            return -1, -1
        o = self.glyf[self.order[g]]
        if not o.numberOfContours:
            return -1, -1
        hi, no = divmod(o.yMax - 10, 100)
        return no, hi * SIDE + o.xMax - 1

    def glyphs(self, s):
        """The glyphs a string paints: (file, glyph, code points, width in 1/100000 em or -1 if it is told twice), and how far each goes."""
        if self.kind == 'Type1':
            from sut import AFM
            return [dict(file=0, g=0, uni=[b], w=0, base=self.base) for b in s], [AFM[self.base][b] / 1000 for b in s]
        out, far = [], []
        for i in range(0, len(s) - 1, 2):
            code = s[i] * 256 + s[i + 1]
            file, g = self.shape(self.gid(code))
            w = self.widths.get(code, {self.default})
            out.append(dict(file=file, g=g, uni=self.uni.get(code, []), w=int(round(min(w) * 100)) if len(w) == 1 else -1, base=self.base))
            far.append(min(w) / 1000)
        return out, far


def points(b):
    return [ord(c) for c in b.decode('utf-16-be')]


def tounicode(data):
    """code -> code points, from a CMap with bfchar and bfrange blocks; a code given twice must be given the same."""
    import pdfread
    import sut
    out = {}

    def put(code, to):
        try:
            to = points(to)
        except UnicodeDecodeError:
            raise sut.Bad('UnicodeMapDecodes', to)
        # two answers are no answer
        out[code] = to if out.get(code, to) == to else [-1]
    lx = pdfread.Lexer(data, content=True)
    stack = []
    while not lx.eof():
        o = lx.obj()
        if not isinstance(o, pdfread.Op):
            stack.append(o)
            continue
        if o == 'endbfchar':
            if len(stack) % 2:
                raise sut.Bad('UnicodeMapBlocks', len(stack))
            for a, b in zip(stack[::2], stack[1::2]):
                put(int.from_bytes(a, 'big'), b)
        elif o == 'endbfrange':
            for a, b, c in zip(stack[::3], stack[1::3], stack[2::3]):
                lo, hi = int.from_bytes(a, 'big'), int.from_bytes(b, 'big')
                for k in range(lo, hi + 1):
                    if isinstance(c, list):
                        put(k, c[k - lo])
                    else:
                        put(k, c[:-2] + (int.from_bytes(c[-2:], 'big') + k - lo).to_bytes(2, 'big'))
        stack = []
    return out
