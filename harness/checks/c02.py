"""C02: values written and read back (spec/PdfLex.tla)."""
import io
import math
import re
import zlib
from fractions import Fraction
from decimal import Decimal, getcontext

import sut  # noqa: F401  (the code under test on the path)
import pdfread

from pdfme.base import PDFBase
from pdfme.parser import PDFRef

getcontext().prec = 1200
MAX = 1.7976931348623157e308


def dec(fr):
    """Exact decimal digits of a fraction with a power of two denominator."""
    return format(Decimal(fr.numerator) / Decimal(fr.denominator), 'f')


def node(k, b=b'', c=()):
    return dict(k=k, b=list(b), c=list(c))


def want(v):
    """The node a reader must find for a Python value."""
    if isinstance(v, PDFRef):
        return node('ref', str(int(v)).encode())
    if isinstance(v, bool):
        return node('bool', bytes([v]))
    if isinstance(v, int):
        return node('num', str(v).encode())
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return node('num', format(Decimal(v), 'f').encode())
        # decimals a reader rounds to v (a tie goes to the even mantissa)
        part = Fraction(1, 2) if int(math.frexp(v)[0] * 2 ** 53) % 2 == 0 else Fraction(49, 100)
        lo = Fraction(v) + (Fraction(math.nextafter(v, -math.inf)) - Fraction(v)) * part if abs(v) < MAX else Fraction(v) * part
        hi = Fraction(v) + (Fraction(math.nextafter(v, math.inf)) - Fraction(v)) * part if abs(v) < MAX else Fraction(v) * 2
        lo, hi = min(lo, hi), max(lo, hi)
        return node('num', b'', [node('num', dec(lo).encode()), node('num', dec(hi).encode())])
    if isinstance(v, str):
        return node('str', v.encode('latin-1'))
    if isinstance(v, bytes):
        return node('name', v[1:])
    if isinstance(v, (list, tuple)):
        return node('array', c=[want(x) for x in v])
    if isinstance(v, dict):
        d = node('dict', c=[y for k, x in v.items() if k not in ('__stream__', '__skip_filter__')
                            for y in (node('name', k.encode('latin-1')), want(x))])
        if '__stream__' in v:
            s = v['__stream__']
            return node('stream', s if isinstance(s, bytes) else b''.join(s.values()), [d])
        return d
    raise TypeError(type(v))


def value(n):
    """Python value of a node emitted by the specification."""
    b = bytes(n['b'])
    k = n['k']
    if k == 'bool':
        return b == b'\x01'
    if k == 'num':
        return float(b) if b'.' in b else int(b)
    if k == 'str':
        return b.decode('latin-1')
    if k == 'name':
        return b'/' + b
    if k == 'ref':
        return PDFRef(int(b))
    if k == 'array':
        return [value(x) for x in n['c']]
    return {bytes(n['c'][i]['b']).decode(): value(n['c'][i + 1]) for i in range(0, len(n['c']), 2)}


def plain(o):
    """JSON-able scenario to Python value ({'@': kind, ...} for what JSON lacks)."""
    if isinstance(o, dict) and '@' in o:
        k = o['@']
        if k == 'node':
            return value(o['n'])
        if k == 'ref':
            return PDFRef(o['v'])
        if k == 'bytes':
            return bytes.fromhex(o['v'])
        if k == 'float':
            return float.fromhex(o['v'])
        if k == 'tuple':
            return tuple(plain(x) for x in o['v'])
        if k == 'stream':
            d = {kk: plain(x) for kk, x in o['d'].items()}
            s = bytes.fromhex(o['v'])
            d['__stream__'] = s if not o['parts'] else {i: s[i * 7:i * 7 + 7] for i in range((len(s) + 6) // 7)}
            return d
    if isinstance(o, dict):
        return {k: plain(x) for k, x in o.items()}
    if isinstance(o, list):
        return [plain(x) for x in o]
    return o


def trace(sc):
    """Several values in one store, written; one trace per object, joined by the caller."""
    v = plain(sc)
    w = want(v)
    base = PDFBase(trailer={})
    base.trailer['Root'] = base.add({'Type': b'/Catalog'}).id
    num = int(base.add(v).id)
    for _ in range(1 + len(repr(sc)) % 2):      # a later file holds the same values
        b = io.BytesIO()
        base.output(b)
    data = b.getvalue()
    # the object lies between its xref offset and the next one's
    p = int(re.search(rb'startxref\s+(\d+)', data[-60:]).group(1))
    offs = [int(m.group(1)) for m in re.finditer(rb'(\d{10}) \d{5} [nf]', data[p:])]
    at = offs[num]
    end = min([o for o in offs if o > at] + [p])
    body = data[at:end]
    ev = [dict(ev='bytes', b=list(body[i:i + 200])) for i in range(0, len(body), 200)]
    if isinstance(v, dict) and v.get('Filter') == b'/FlateDecode' and '__stream__' in v:
        try:
            o = pdfread.read_indirect(data, at)
            raw = bytes(o[2].raw) if hasattr(o[2], 'raw') else b''
            ev.append(dict(ev='inflated', raw=list(raw), b=list(zlib.decompress(raw))))
        except (pdfread.Bad, zlib.error, AttributeError) as e:
            ev.append(dict(ev='malformed', rule=getattr(e, 'rule', 'FlateData')))
    return ev + [dict(ev='end', want=w)]


def gen(r, depth=0):
    x = r.random()
    if depth > 4 or x < .55:
        k = r.randrange(8)
        if k == 0:
            return r.random() < .5
        if k == 1:
            return r.choice([0, 1, -1, 7, 10, 255, -32768, 10 ** r.randint(1, 30), -10 ** r.randint(1, 12), r.randint(-10 ** 9, 10 ** 9)])
        if k in (2, 3):
            f = r.choice([0.0, 1.5, -0.25, 0.1, 1e-5, 1.25e-7, -3e-12, 1e16, 2.5e22, 5e-324, 1.7976931348623157e308,
                          r.uniform(-1000, 1000), r.uniform(-1, 1) * 10 ** r.randint(-30, 30), round(r.uniform(0, 900), 3)])
            return {'@': 'float', 'v': float(f).hex()}
        if k in (4, 5):
            return string(r)
        if k == 6:
            return {'@': 'bytes', 'v': (b'/' + ''.join(r.choice('AbcXYZ019.-_+') for _ in range(r.randint(1, 9))).encode()).hex()}
        return {'@': 'ref', 'v': r.randint(1, 2)}
    if x < .8:
        l = [gen(r, depth + 1) for _ in range(r.randint(0, 5))]
        return l if r.random() < .7 else {'@': 'tuple', 'v': l}
    return {k: gen(r, depth + 1) for k in r.sample(['A', 'Bc', 'D.1', 'K_', 'Type', 'x9', 'F-g'], r.randint(0, 4))}


def string(r):
    al = r.choice([[chr(c) for c in range(256)], ['(', ')', '\\', '\r', '\n', 'a', 'n', '0', '1', '\t', ' '], list('abc ()')])
    return ''.join(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 5, 12, 40])))


def stream(r):
    d = {k: gen(r, 3) for k in r.sample(['A', 'Bc', 'K_', 'x9'], r.randint(0, 2))}
    if r.random() < .6:
        d['Filter'] = {'@': 'bytes', 'v': b'/FlateDecode'.hex()}
    al = r.choice([bytes(range(256)), b'\r\n', b'endstream\nendobj\n', b'a', b'>><<() '])
    n = r.choice([0, 1, 2, 3, 17, 100, 400])
    s = al if al.startswith(b'ends') else bytes(r.choice(al) for _ in range(n))
    return {'@': 'stream', 'd': d, 'v': s.hex(), 'parts': r.random() < .5}


def run(ctx):
    vals = ctx.scenarios('PdfLexMC', ctx.n('PdfLexMC.cfg', 'PdfLexMC_thorough.cfg'), workers=ctx.n(4, 8))
    ctx.rng.shuffle(vals)
    sc = [{'@': 'node', 'n': v} for v in vals[:ctx.n(2500, 20000)]]
    sc += [chr(c) for c in range(256)]
    sc += [gen(ctx.rng) for _ in range(ctx.n(700, 8000))]
    sc += [string(ctx.rng) for _ in range(ctx.n(300, 3000))]
    sc += [stream(ctx.rng) for _ in range(ctx.n(250, 2500))]
    items = ctx.run_traces('PdfLexTrace', trace, sc)
    ctx.need('bool', 'num', 'str', 'name', 'ref', 'array', 'dict', 'stream', 'adjacent', 'escaped', 'compressed')

    def corrupt(t):
        import copy
        w = t[-1]['want']
        if w['k'] == 'stream':
            c = copy.deepcopy(t)
            c[-1]['want']['b'] = w['b'] + [0]
            yield 'stream byte lost', c
        elif w['k'] in ('str', 'name'):
            c = copy.deepcopy(t)
            c[-1]['want']['b'] = w['b'] + [65]
            yield 'string byte lost', c
        elif w['k'] in ('array', 'dict'):
            c = copy.deepcopy(t)
            c[-1]['want']['c'] = w['c'] + [node('name', b'Q'), node('num', b'1')]
            yield 'element lost', c
        c = copy.deepcopy(t)
        c[0]['b'] = [x for x in c[0]['b'] if x != 106]     # "obj"
        yield 'keyword damaged', c
    ctx.binding_selftest('PdfLexTrace', items[:4] + items[-6:], corrupt, limit=12)
