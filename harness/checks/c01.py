"""C01: physical structure of written files (spec/PdfFile.tla)."""
import io
import random

import gen
import pdfread
import sut
from pdfread import Bad

from pdfme.base import PDFBase
from pdfme.parser import PDFObject, PDFRef


def file_events(data, n=None):
    """The events of one written file, by a linear scan of its bytes."""
    try:
        p = pdfread.Pdf(data)
    except Bad as e:
        return [dict(ev='malformed', rule=e.rule)]
    ev = [dict(ev='write', n=n if n is not None else len(p.scan)),
          dict(ev='header', end=data.index(b'\n', 0) + 1)]
    for num, gen_, off, end, dec, act, refs in p.scan:
        ev.append(dict(ev='object', num=num, gen=gen_, off=off, end=end, declared=dec, actual=act, refs=refs))
    ev.append(dict(ev='xref', off=p.xref_off, start=p.xref_start, count=p.xref_count))
    for i, (off, g, k) in enumerate(p.xref):
        ev.append(dict(ev='entry', i=i, off=off, gen=g, kind=k))
    root = p.trailer.get('Root')
    rt = 'none'
    if isinstance(root, pdfread.Ref):
        try:
            r = p.get(root)
            rt = str(r.get('Type')) if isinstance(r, dict) else type(r).__name__
        except Bad as e:
            rt = e.rule
    size = p.trailer.get('Size')
    ev.append(dict(ev='trailer', size=size if isinstance(size, int) else -1,
                   root=int(root) if isinstance(root, pdfread.Ref) else -1, roottype=rt,
                   refs=sorted(set(pdfread.refs_in(p.trailer)))))
    ev.append(dict(ev='startxref', at=p.startxref))
    ev.append(dict(ev='eof'))
    return ev


VALUES = {'num': lambda r: r.choice([0, 5, -3.25, 1e-9, True, 123456789.5]),
          'str': lambda r: r.choice(['', 'abc', 'a(b)', 'c\\d', 'endobj', ')', '\n', 'x' * r.randint(1, 300)]),
          'ref': lambda r: [PDFRef(1), {'A': PDFRef(1)}, PDFRef(1)],
          'dict': lambda r: {'K': 1, 'L': b'/N'},
          'stream': lambda r: {'__stream__': r.choice([b'', b'x\nendstream\nendobj\n', b'abc\n', bytes(range(256)), b'\n', b'y' * r.randint(1, 2000)])},
          'flate': lambda r: {'Filter': b'/FlateDecode', '__stream__': {0: b'abc' * r.randint(0, 200), 1: b'\r\n'}}}


def replay(sc):
    """A history of store operations on the real object store."""
    r = random.Random(sc['seed'])
    base = PDFBase(trailer={})
    root = base.add({'Type': b'/Catalog'})
    base.trailer['Root'] = root.id
    n, ev = 1, []
    for op in sc['ops']:
        if op['op'] == 'add':
            base.add(VALUES[op['kind']](r))
            n += 1
        elif op['op'] == 'set':
            base[op['i']] = PDFObject(PDFRef(op['i']), VALUES[op['kind']](r))
        else:
            b = io.BytesIO()
            base.output(b)
            ev += file_events(b.getvalue(), n)
    return ev + [dict(ev='end')]


def whole(sc):
    """A whole document, written once or several times through the public API."""
    if sc['api'] == 'build':
        return file_events(sut.build(gen.materialize(sc['doc']))) + [dict(ev='end')]
    from pdfme import PDF
    pdf = PDF()
    pdf.formats['fmt1'] = {'c': 'blue', 'b': True}
    r = random.Random(sc['seed'])
    g = gen.Gen(r, footnotes=False)
    ev = []
    for k in range(sc['writes']):
        for _ in range(r.randint(1, 3)):
            pdf.add_page()
            pdf.text(g.words(1, 60))
            pdf.content({'content': [gen.materialize(g.element(0))]})
        ev += file_events(sut.out(pdf))
    return ev + [dict(ev='end')]


def run(ctx):
    hist = ctx.scenarios('PdfFileMC', ctx.n('PdfFileMC.cfg', 'PdfFileMC_thorough.cfg'))
    ctx.rng.shuffle(hist)
    hist = hist[:ctx.n(1500, 12000)]
    sc = [dict(ops=h, seed=ctx.rng.randrange(10 ** 6)) for h in hist]
    # longer histories, and stores beyond one digit boundary of object numbers and offsets
    for _ in range(ctx.n(40, 300)):
        ops, n = [], 1
        for _ in range(ctx.rng.choice([8, 30, 120])):
            k = ctx.rng.choice(list(VALUES))
            if n > 2 and ctx.rng.random() < .25:
                ops.append(dict(op='set', i=ctx.rng.randint(2, n), kind=k))
            elif ctx.rng.random() < .1:
                ops.append(dict(op='write', i=0, kind=''))
            else:
                ops.append(dict(op='add', i=0, kind=k))
                n += 1
        ops.append(dict(op='write', i=0, kind=''))
        sc.append(dict(ops=ops, seed=ctx.rng.randrange(10 ** 6)))
    items = ctx.run_traces('PdfFileTrace', replay, sc)
    docs = [dict(api='build', doc=gen.Gen(random.Random(ctx.rng.random())).document()) for _ in range(ctx.n(60, 600))]
    docs += [dict(api='pdf', seed=ctx.rng.randrange(10 ** 6), writes=ctx.rng.randint(1, 3)) for _ in range(ctx.n(20, 200))]
    ctx.run_traces('PdfFileTrace', whole, docs)
    ctx.need('stream', 'reference', 'rewrite', 'entry')

    def corrupt(t):
        import copy
        for kind, field, delta in (('object', 'num', 1), ('object', 'declared', 1), ('entry', 'off', 1), ('startxref', 'at', 1),
                                   ('trailer', 'size', 1), ('xref', 'count', -1), ('trailer', 'root', 99)):
            c = copy.deepcopy(t)
            es = [e for e in c if e['ev'] == kind]
            e = es[-1]
            e[field] += delta
            yield kind + '.' + field, c
        c = copy.deepcopy(t)
        del c[[i for i, e in enumerate(c) if e['ev'] == 'object'][-1]]
        yield 'object dropped', c
    ctx.binding_selftest('PdfFileTrace', items[-8:], corrupt)
