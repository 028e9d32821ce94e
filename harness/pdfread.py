"""Independent, strict reader for the PDF files pdfme writes.

Nothing here imports pdfme.  It turns bytes into (a) the physical layout of the
file, found by scanning it from the first byte to the last, (b) the object
graph, found through the cross-reference table only, and (c) the marks a page's
content stream makes, found by interpreting the stream with the graphics-state
rules of ISO 32000-1.  Anything malformed raises Bad(rule, detail).
"""
import re
import zlib
from decimal import Decimal

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
REG = re.compile(rb'[^\x00\t\n\x0c\r ()<>\[\]{}/%]+')
NUM = re.compile(rb'^[+-]?(\d+\.?\d*|\.\d+)$')


class Bad(Exception):
    def __init__(self, rule, detail=''):
        super().__init__('%s: %s' % (rule, detail))
        self.rule = rule
        self.detail = str(detail)[:300]


class Name(str):
    pass


class Ref(int):
    pass


class Op(str):
    pass


class Stream:
    def __init__(self, d, raw):
        self.dict, self.raw = d, raw

    @property
    def data(self):
        f = self.dict.get('Filter')
        if f is None:
            return self.raw
        if f == 'FlateDecode':
            try:
                return zlib.decompress(self.raw)
            except zlib.error as e:
                raise Bad('StreamDecodes', e)
        raise Bad('FilterKnown', f)


class Lexer:
    def __init__(self, data, pos=0, content=False):
        self.d, self.p, self.content = data, pos, content

    def ws(self):
        d, n = self.d, len(self.d)
        while self.p < n:
            c = d[self.p]
            if c in WS:
                self.p += 1
            elif c == 0x25:
                while self.p < n and d[self.p] not in b'\r\n':
                    self.p += 1
            else:
                break

    def eof(self):
        self.ws()
        return self.p >= len(self.d)

    def string(self):
        d, p, depth, out = self.d, self.p + 1, 1, bytearray()
        n = len(d)
        esc = {0x6e: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12,
               0x28: 40, 0x29: 41, 0x5c: 92}
        while True:
            if p >= n:
                raise Bad('StringTerminated', d[self.p:self.p + 40])
            c = d[p]
            if c == 0x5c:
                p += 1
                if p >= n:
                    raise Bad('StringTerminated', d[self.p:self.p + 40])
                e = d[p]
                if e in esc:
                    out.append(esc[e])
                    p += 1
                elif 0x30 <= e <= 0x37:
                    v, k = 0, 0
                    while k < 3 and p < n and 0x30 <= d[p] <= 0x37:
                        v = v * 8 + d[p] - 0x30
                        p += 1
                        k += 1
                    out.append(v & 255)
                elif e == 13:
                    p += 1
                    if p < n and d[p] == 10:
                        p += 1
                elif e == 10:
                    p += 1
                else:
                    out.append(e)
                    p += 1
            elif c == 0x28:
                depth += 1
                out.append(c)
                p += 1
            elif c == 0x29:
                depth -= 1
                p += 1
                if depth == 0:
                    break
                out.append(c)
            elif c == 13:
                out.append(10)
                p += 1
                if p < n and d[p] == 10:
                    p += 1
            else:
                out.append(c)
                p += 1
        self.p = p
        return bytes(out)

    def name(self):
        m = REG.match(self.d, self.p + 1)
        raw = m.group() if m else b''
        self.p += 1 + len(raw)
        raw = re.sub(rb'#([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), raw)
        return Name(raw.decode('latin'))

    def obj(self):
        self.ws()
        d = self.d
        if self.p >= len(d):
            raise Bad('ObjectComplete', 'end of data')
        c = d[self.p]
        if c == 0x28:
            return self.string()
        if c == 0x2f:
            return self.name()
        if c == 0x5b:
            self.p += 1
            out = []
            while True:
                self.ws()
                if self.p >= len(d):
                    raise Bad('ArrayTerminated')
                if d[self.p] == 0x5d:
                    self.p += 1
                    return out
                out.append(self.obj())
        if d[self.p:self.p + 2] == b'<<':
            self.p += 2
            out = {}
            while True:
                self.ws()
                if d[self.p:self.p + 2] == b'>>':
                    self.p += 2
                    return out
                if self.p >= len(d):
                    raise Bad('DictTerminated')
                if d[self.p] != 0x2f:
                    raise Bad('DictKeyIsName', d[self.p:self.p + 20])
                k = self.name()
                if k in out:
                    raise Bad('DictKeyUnique', k)
                out[k] = self.obj()
        if c == 0x3c:
            e = d.find(b'>', self.p)
            h = bytes(x for x in d[self.p + 1:e] if x not in WS)
            if e < 0 or not re.fullmatch(rb'[0-9A-Fa-f]*', h):
                raise Bad('HexString', d[self.p:self.p + 40])
            self.p = e + 1
            if len(h) % 2:
                h += b'0'
            return bytes.fromhex(h.decode())
        m = REG.match(d, self.p)
        if not m:
            raise Bad('Token', d[self.p:self.p + 20])
        t = m.group()
        self.p = m.end()
        if NUM.match(t):
            if b'.' in t:
                return Decimal(t.decode())
            v = int(t)
            if not self.content:
                m2 = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?=[\x00\t\n\x0c\r ()<>\[\]{}/%]|$)').match(d, self.p)
                if m2:
                    if int(m2.group(1)) != 0:
                        raise Bad('RefGeneration', t)
                    self.p = m2.end()
                    return Ref(v)
            return v
        if t == b'true':
            return True
        if t == b'false':
            return False
        if t == b'null':
            return None
        if self.content:
            return Op(t.decode('latin'))
        raise Bad('TokenKnown', t[:40])


def refs_in(o):
    if isinstance(o, Ref):
        yield int(o)
    elif isinstance(o, list):
        for x in o:
            yield from refs_in(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from refs_in(x)
    elif isinstance(o, Stream):
        yield from refs_in(o.dict)


def _kw(lx, kw):
    lx.ws()
    if lx.d[lx.p:lx.p + len(kw)] != kw:
        raise Bad('Keyword', '%r expected at %d, found %r' % (kw, lx.p, lx.d[lx.p:lx.p + 20]))
    lx.p += len(kw)


def read_indirect(data, pos):
    """The object at byte offset pos: (num, gen, value, end offset, declared, actual)."""
    m = re.compile(rb'(\d+) (\d+) obj\b').match(data, pos)
    if not m:
        raise Bad('ObjectHeader', 'offset %d: %r' % (pos, data[pos:pos + 20]))
    lx = Lexer(data, m.end())
    v = lx.obj()
    declared = actual = -1
    if isinstance(v, dict):
        lx.ws()
        m2 = re.compile(rb'stream(\r\n|\n)').match(data, lx.p)
        if m2:
            declared = v.get('Length')
            if not isinstance(declared, int) or isinstance(declared, (bool, Ref)):
                raise Bad('StreamLength', declared)
            s = m2.end()
            m3 = re.compile(rb'(\r\n|\n|\r)?endstream\s+endobj').match(data, s + declared)
            if m3:
                actual = declared
            else:
                e = data.find(b'\nendstream', s)
                actual = e - s
                if e < 0:
                    raise Bad('StreamTerminated', pos)
            v = Stream(v, data[s:s + actual])
            lx.p = s + actual
            _kw(lx, b'endstream')
    _kw(lx, b'endobj')
    return int(m.group(1)), int(m.group(2)), v, lx.p, declared, actual


class Pdf:
    """Layout by linear scan, then the object graph through the xref table."""

    def __init__(self, data):
        self.data = data
        m = re.match(rb'%PDF-(\d\.\d)\n', data)
        if not m:
            raise Bad('Header', data[:20])
        self.version = m.group(1).decode()
        self.scan = []      # (num, gen, offset, end, declared, actual, refs)
        lx = Lexer(data, m.end())
        while True:
            lx.ws()
            if data[lx.p:lx.p + 4] == b'xref':
                break
            off = lx.p
            num, gen, v, end, dec, act = read_indirect(data, off)
            self.scan.append((num, gen, off, end, dec, act, sorted(set(refs_in(v)))))
            lx.p = end
        self.xref_off = lx.p
        m = re.compile(rb'xref\n(\d+) (\d+)\n').match(data, lx.p)
        if not m:
            raise Bad('XrefHeader', data[lx.p:lx.p + 30])
        self.xref_start, self.xref_count = int(m.group(1)), int(m.group(2))
        p = m.end()
        self.xref = []
        ent = re.compile(rb'(\d{10}) (\d{5}) ([nf])( \n| \r|\r\n)')
        while data[p:p + 7] != b'trailer':
            e = ent.match(data, p)
            if not e:
                raise Bad('XrefEntry', data[p:p + 24])
            self.xref.append((int(e.group(1)), int(e.group(2)), e.group(3).decode()))
            p = e.end()
        lx = Lexer(data, p + 7)
        self.trailer = lx.obj()
        if not isinstance(self.trailer, dict):
            raise Bad('TrailerIsDict')
        m = re.compile(rb'\s*startxref\s+(\d+)\s+%%EOF\s*$').match(data, lx.p)
        if not m:
            raise Bad('StartXref', data[lx.p:lx.p + 40])
        self.startxref = int(m.group(1))
        self._cache = {}

    def get(self, ref):
        """Resolve through the xref table, as a viewer does."""
        if not isinstance(ref, Ref):
            return ref
        n = int(ref)
        if n not in self._cache:
            i = n - self.xref_start
            if not (0 <= i < len(self.xref)) or self.xref[i][2] != 'n':
                raise Bad('RefResolves', n)
            num, gen, v, _, _, _ = read_indirect(self.data, self.xref[i][0])
            if num != n:
                raise Bad('XrefPointsAtObject', 'entry %d leads to object %d' % (n, num))
            self._cache[n] = v
        return self._cache[n]

    @property
    def root(self):
        r = self.get(self.trailer.get('Root'))
        if not isinstance(r, dict) or r.get('Type') != 'Catalog':
            raise Bad('RootIsCatalog', r)
        return r

    def pages(self):
        """Leaf pages in tree order: [(ref number, dict)]."""
        out, seen = [], set()

        def walk(ref, depth):
            if int(ref) in seen or depth > 60:
                raise Bad('PageTreeIsATree', int(ref))
            seen.add(int(ref))
            d = self.get(ref)
            if not isinstance(d, dict):
                raise Bad('PageTreeNode', int(ref))
            if d.get('Type') == 'Page':
                out.append((int(ref), d))
            elif d.get('Type') == 'Pages':
                for k in d['Kids']:
                    walk(k, depth + 1)
            else:
                raise Bad('PageTreeNodeType', d.get('Type'))
        walk(self.root['Pages'], 0)
        return out


# --------------------------------------------------------------------------
# content streams

ARITY = {
    'q': 0, 'Q': 0, 'cm': 6, 'w': 1, 'J': 1, 'j': 1, 'd': 2, 'm': 2, 'l': 2,
    're': 4, 'S': 0, 'F': 0, 'f': 0, 'B': 0, 'n': 0, 'h': 0, 'c': 6,
    'g': 1, 'G': 1, 'rg': 3, 'RG': 3, 'k': 4, 'K': 4, 'Do': 1,
    'BT': 0, 'ET': 0, 'Tm': 6, 'Td': 2, 'Tf': 2, 'Tj': 1, 'Tw': 1, 'Tc': 1,
    'Ts': 1, 'Tz': 1, 'TL': 1, 'T*': 0, 'Tr': 1, 'TD': 2, 'TJ': 1, "'": 1, 'f*': 0, 'B*': 0, 's': 0, 'b': 0, 'b*': 0, 'i': 1, 'j': 1, 'M': 1,
}
PAINT = ('S', 's', 'F', 'f', 'f*', 'B', 'B*', 'b', 'b*')
TEXT_OBJECT_OPS = {'Tm', 'Td', 'Tj', 'T*', 'TD', 'TJ', "'"}
GENERAL_ONLY_OUTSIDE = {'m', 'l', 're', 'S', 'F', 'f', 'B', 'n', 'h', 'c', 'cm', 'q', 'Q', 'Do', 's', 'f*', 'B*', 'b', 'b*'}


def operators(data):
    """[(op, operands)] of a content stream."""
    lx = Lexer(data, content=True)
    out, stack = [], []
    while not lx.eof():
        o = lx.obj()
        if isinstance(o, Op):
            out.append((str(o), stack))
            stack = []
        else:
            stack.append(o)
    if stack:
        raise Bad('OperandsConsumed', stack)
    return out


def mul(a, b):
    return (a[0]*b[0]+a[1]*b[2], a[0]*b[1]+a[1]*b[3],
            a[2]*b[0]+a[3]*b[2], a[2]*b[1]+a[3]*b[3],
            a[4]*b[0]+a[5]*b[2]+b[4], a[4]*b[1]+a[5]*b[3]+b[5])


class GS:
    def __init__(self):
        self.ctm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        self.fill = (0.0,)
        self.stroke = (0.0,)
        self.lw = 1.0
        self.cap = 0
        self.dash = ((), 0.0)
        self.font = None
        self.size = 0.0
        self.tw = 0.0
        self.rise = 0.0
        self.leading = 0.0

    def clone(self):
        g = GS.__new__(GS)
        g.__dict__.update(self.__dict__)
        return g


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, Decimal)):
        raise Bad('OperandIsNumber', x)
    return float(x)


def interpret(data, fonts, xobjects, width_of):
    """Marks made by a content stream, in painting order.

    fonts: resource name -> anything; width_of(font, bytes) -> (glyph advance
    at size 1, number of single-byte spaces); xobjects: resource names.
    """
    marks, stack, gs = [], [], GS()
    in_text, path, cur = False, [], None
    tm = tlm = None
    for op, args in operators(data):
        if op not in ARITY:
            raise Bad('OperatorKnown', op)
        if len(args) != ARITY[op]:
            raise Bad('OperatorArity', '%s %r' % (op, args))
        if in_text and op in GENERAL_ONLY_OUTSIDE:
            raise Bad('OperatorInsideText', op)
        if not in_text and op in TEXT_OBJECT_OPS:
            raise Bad('OperatorOutsideText', op)
        if path and op not in ('l', 're', 'm', 'c', 'h', 'n') + PAINT:
            raise Bad('PathPainted', op)
        if op == 'q':
            stack.append(gs.clone())
        elif op == 'Q':
            if not stack:
                raise Bad('SaveRestoreBalanced', 'Q without q')
            gs = stack.pop()
        elif op == 'cm':
            gs.ctm = mul(tuple(num(a) for a in args), gs.ctm)
        elif op == 'w':
            gs.lw = num(args[0])
            if gs.lw < 0:
                raise Bad('LineWidthNonNegative', gs.lw)
        elif op == 'J':
            gs.cap = int(num(args[0]))
        elif op == 'd':
            arr = tuple(num(a) for a in args[0])
            if any(a < 0 for a in arr) or (arr and sum(arr) == 0):
                raise Bad('DashArray', arr)
            gs.dash = (arr, num(args[1]))
        elif op in ('g', 'rg', 'k'):
            gs.fill = tuple(num(a) for a in args)
        elif op in ('G', 'RG', 'K'):
            gs.stroke = tuple(num(a) for a in args)
        elif op == 'm':
            cur = (num(args[0]), num(args[1]))
            path.append(('m', cur))
        elif op == 'l':
            if not path:
                raise Bad('CurrentPoint', op)
            nxt = (num(args[0]), num(args[1]))
            path.append(('l', cur, nxt))
            cur = nxt
        elif op == 're':
            path.append(('re',) + tuple(num(a) for a in args))
            cur = (num(args[0]), num(args[1]))
        elif op in PAINT:
            if not path:
                raise Bad('PathNotEmpty', op)
            cm = gs.ctm
            for seg in path:
                if seg[0] == 'l' and op in 'S s B B* b b*'.split():
                    (x1, y1), (x2, y2) = seg[1], seg[2]
                    marks.append(dict(
                        t='line', x1=x1*cm[0]+y1*cm[2]+cm[4], y1=x1*cm[1]+y1*cm[3]+cm[5],
                        x2=x2*cm[0]+y2*cm[2]+cm[4], y2=x2*cm[1]+y2*cm[3]+cm[5],
                        color=gs.stroke, w=gs.lw, cap=gs.cap, dash=gs.dash))
                elif seg[0] == 're' and op not in 'Ss':
                    x, y, w, h = seg[1:]
                    marks.append(dict(
                        t='fill', x=x*cm[0]+y*cm[2]+cm[4], y=x*cm[1]+y*cm[3]+cm[5],
                        w=w*cm[0], h=h*cm[3], color=gs.fill))
            path = []
        elif op == 'n':
            path = []
        elif op == 'Do':
            if not isinstance(args[0], Name) or args[0] not in xobjects:
                raise Bad('XObjectDeclared', args[0])
            c = gs.ctm
            marks.append(dict(t='image', name=str(args[0]), x=c[4], y=c[5],
                              w=c[0], h=c[3], skew=(c[1], c[2])))
        elif op == 'BT':
            if in_text:
                raise Bad('TextObjectNesting', 'BT')
            in_text = True
            tm = tlm = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
        elif op == 'ET':
            if not in_text:
                raise Bad('TextObjectNesting', 'ET')
            in_text = False
        elif op == 'Tm':
            tm = tlm = tuple(num(a) for a in args)
        elif op == 'Td':
            tlm = mul((1.0, 0.0, 0.0, 1.0, num(args[0]), num(args[1])), tlm)
            tm = tlm
        elif op == 'TL':
            gs.leading = num(args[0])
        elif op == 'TD':
            gs.leading = -num(args[1])
            tlm = mul((1.0, 0.0, 0.0, 1.0, num(args[0]), num(args[1])), tlm)
            tm = tlm
        elif op == 'T*':
            tlm = mul((1.0, 0.0, 0.0, 1.0, 0.0, -gs.leading), tlm)
            tm = tlm
        elif op in ('Tc', 'Tr', 'Tz'):
            # nothing here reads text that is spaced, stretched or hollow
            if num(args[0]) != (100 if op == 'Tz' else 0):
                raise Bad('TextStateKnown', op)
        elif op == 'Tf':
            if not isinstance(args[0], Name) or args[0] not in fonts:
                raise Bad('FontDeclared', args[0])
            gs.font, gs.size = str(args[0]), num(args[1])
        elif op == 'Tw':
            gs.tw = num(args[0])
        elif op == 'Ts':
            gs.rise = num(args[0])
        elif op in ('Tj', 'TJ', "'"):
            if gs.font is None:
                raise Bad('FontSelected')
            if op == "'":
                tlm = mul((1.0, 0.0, 0.0, 1.0, 0.0, -gs.leading), tlm)
                tm = tlm
            for a in (args[0] if op == 'TJ' else args):
                if op == 'TJ' and not isinstance(a, bytes):
                    tm = mul((1.0, 0.0, 0.0, 1.0, -num(a) / 1000 * gs.size, 0.0), tm)
                    continue
                if not isinstance(a, bytes):
                    raise Bad('TjOperandIsString', a)
                adv, spaces = width_of(gs.font, a)
                w = adv * gs.size + spaces * gs.tw
                m2 = mul(tm, gs.ctm)
                marks.append(dict(
                    t='text', s=a, x=m2[4], y=m2[5], w=w, font=gs.font,
                    size=gs.size, color=gs.fill, rise=gs.rise, tw=gs.tw, spaces=spaces))
                tm = mul((1.0, 0.0, 0.0, 1.0, w, 0.0), tm)
    if stack:
        raise Bad('SaveRestoreBalanced', 'q without Q')
    if in_text:
        raise Bad('TextObjectNesting', 'BT without ET')
    if path:
        raise Bad('PathPainted', 'end of stream')
    return marks
