"""Scenarios of images (spec/Images.tla) and how they are run and observed.

files: [{'kind': 'jpg', 'segs': [name, ...], 'dims': [w, h], 'n': components, 'src', 'fill'} | {'kind': 'png', 'mode', 'dims', 'src'}
| {'kind': 'pil', ...}]; src: str, path, bytes or file.
ops: [['page'] | ['image', file, x, top, w, h, move]] (calls), or tree: elements of a document: ['p'], ['i', file, min, place], ['g', elements],
['t', [[file or None]]], ['b', cols, elements]."""
import io
import os
import pathlib

import gen
import sut
from sut import mpt

MARKS = dict(app0=0xE0, app=0xE1, thumb=0xE1, icc=0xE2, adobe=0xEE, app15=0xEF, quant=0xDB, huff=0xC4, arith=0xCC, jpg=0xFE, com=0xFE, dri=0xDD, exp=0xDF, empty=0xEC,
             big=0xED, deep=0xE3)
SOFS = dict(sof0=0xC0, sof1=0xC1, sof2=0xC2, sof3=0xC3, sof5=0xC5, sof6=0xC6, sof7=0xC7, sof9=0xC9, sof10=0xCA, sof11=0xCB, sof13=0xCD, sof14=0xCE, sof15=0xCF)
MARGIN = (60, 30, 30, 30)
PAGE = (500, 700)
CW = 440


def frame(w, h, n, depth=8):
    return bytes([depth]) + h.to_bytes(2, 'big') + w.to_bytes(2, 'big') + bytes([n]) + b''.join(bytes([k + 1, 0x11, 0]) for k in range(n))


def payload(name, k):
    fake = frame(7 + k, 9, 1)
    sof = b'\xff\xc0' + (len(fake) + 2).to_bytes(2, 'big') + fake
    return {'app0': b'JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00', 'app': b'Exif\x00\x00' + bytes([k]) * 9, 'thumb': fake + b'\xff\xd8' + sof + b'\xff\xd9',
            'icc': b'ICC_PROFILE\x00' + bytes(range(200)), 'adobe': b'Adobe\x00\x64\x00\x00\x00\x00\x00', 'app15': b'\xff' * 11, 'quant': b'\x00' + bytes(range(1, 65)),
            'huff': frame(6, 5, 3) + b'\x00' * 12, 'arith': frame(3, 4, 1), 'jpg': frame(8, 3, 4), 'com': b'\xff\xda\xff\xd9 a comment', 'dri': b'\x00\x10', 'exp': b'\x11',
            'empty': b'', 'big': sof * 3000, 'deep': b'\xff\xd8\xff\xe0\x00\x04\x00\x00' + sof}[name]


def segments(f):
    """(marker, payload) of the header of a JPEG file."""
    out = []
    for k, s in enumerate(f['segs']):
        if s in SOFS:
            w, h = f['dims'] if 'dims' in f else (30, 20)
            out.append((SOFS[s], frame(w, h, f['n'])))
        elif s == 'tail':
            out.append((0xC1, frame(30, 30, 1)))
        elif s in ('rgb', 'cmyk', 'grey'):
            out.append(dict(rgb=(0xC0, frame(30, 20, 3)), cmyk=(0xC2, frame(20, 40, 4)), grey=(0xC1, frame(30, 30, 1)))[s])
        else:
            out.append((MARKS[s], payload(s, k)))
    return out


def make(f, name):
    """The bytes of an image file; name: put into it, so that no two files are equal."""
    if f['kind'] == 'jpg':
        out = b'\xff\xd8'
        for k, (m, p) in enumerate(segments(f)):
            out += b'\xff' * f.get('fill', [0])[k % len(f.get('fill', [0]))] + bytes([0xff, m]) + (len(p) + 2).to_bytes(2, 'big') + p
        return out + b'\xff\xda\x00\x08\x01\x01\x00\x00\x3f\x00' + name.encode() + b'\xff\xd9'
    from PIL import Image
    w, h = f['dims']
    mode = f['mode']
    k = sum(map(ord, name)) + w * 7 + h
    im = Image.new('RGB', (w, h))
    im.putdata([(x * 40 // w + k * 37 % 200, y * 40 // h + k * 91 % 200, k * 53 % 240) for y in range(h) for x in range(w)])
    im = im.quantize(16, dither=0) if mode == 'P' else im.convert(mode, dither=0) if mode == '1' else im.convert(mode)
    if mode in ('LA', 'RGBA'):
        im.putalpha(255)
    b = io.BytesIO()
    if f['kind'] == 'png':
        im.save(b, 'PNG')
    else:
        extra = {'exif': b'Exif\x00\x00II*\x00\x08\x00\x00\x00\x00\x00\xff\xc0\x00\x0b\x08\x00\x05\x00\x07\x01\x01\x11\x00'} if f.get('exif') else {}
        im.save(b, 'JPEG', progressive=bool(f.get('prog')), quality=f.get('q', 80), comment=name, **extra)
    return b.getvalue()


def segs_of(data):
    """The header segments of a JPEG file as the specification takes them."""
    out, i = [], 2
    while i + 4 <= len(data):
        while data[i + 1] == 0xff:
            i += 1
        m = data[i + 1]
        if m == 0xda:
            break
        n = int.from_bytes(data[i + 2:i + 4], 'big')
        p = data[i + 4:i + 2 + n]
        ok = len(p) >= 6 and p[0] in (8, 12) and (m in SOFS.values() or len(p) >= 9)
        out.append(dict(m=m, frame=[p[0], p[1] * 256 + p[2], p[3] * 256 + p[4], p[5]] if ok else []))
        i += 2 + n
    return out


class Files:
    def __init__(self, sc):
        self.sc = sc
        self.data, self.path, self.open = [], [], []
        d = gen.image_dir()
        for k, f in enumerate(sc['files']):
            ext = f.get('ext', 'png' if f['kind'] == 'png' else 'jpg')
            b = make(f, 'no%d' % k)
            sub = os.path.join(d, 'd%d' % (k if sc.get('same') else 0))
            os.makedirs(sub, exist_ok=True)
            p = os.path.join(sub, ('same' if sc.get('same') else 'f%d' % k) + '.' + ext)
            with open(p, 'wb') as fh:
                fh.write(b)
            self.data.append(b)
            self.path.append(p)

    def define(self):
        return [dict(kind='png', segs=[], size=f['dims']) if f['kind'] == 'png' else dict(kind='jpg', segs=segs_of(b), size=[0, 0])
                for f, b in zip(self.sc['files'], self.data)]

    def source(self, k):
        """Arguments of a use of file k."""
        f, p = self.sc['files'][k], self.path[k]
        src = f['src']
        if src == 'str':
            return dict(image=p)
        if src == 'path':
            return dict(image=pathlib.Path(p))
        ext = f.get('give') or p.rpartition('.')[2]
        name = 'picture %d' % k
        if src == 'bytes':
            return dict(image=io.BytesIO(self.data[k]), extension=ext, image_name=name)
        fh = open(p, 'rb')
        self.open.append(fh)
        return dict(image=fh, extension=ext, image_name=name)

    def close(self):
        for fh in self.open:
            fh.close()
        for p in self.path:
            os.remove(p)

    def which(self, x):
        """The file which an image object holds."""
        import zlib
        data, filters = x.raw, x.dict.get('Filter')
        filters = filters if isinstance(filters, list) else [filters]
        for f in filters[:-1]:
            if f != 'FlateDecode':
                return 0
            data = zlib.decompress(data)
        if filters[-1] != 'DCTDecode':
            return 0
        for k, (f, b) in enumerate(zip(self.sc['files'], self.data)):
            if f['kind'] == 'png':
                if same_picture(b, data):
                    return k + 1
            elif data == b:
                return k + 1
        return 0


def same_picture(png, jpg):
    from PIL import Image, ImageChops, ImageStat
    try:
        a, b = Image.open(io.BytesIO(png)).convert('RGB'), Image.open(io.BytesIO(jpg))
        b.load()
    except Exception:
        return False
    if a.size != b.size or b.mode != 'RGB':
        return False
    return max(ImageStat.Stat(ImageChops.difference(a, b)).mean) < 10


# -- calls ---------------------------------------------------------------------
def calls(sc, fs):
    from pdfme import PDF
    pdf = PDF(page_size=PAGE, margin=MARGIN)
    made = {}
    for n, o in enumerate(sc['ops']):
        if o[0] == 'page':
            pdf.add_page()
            continue
        _, f, x, y, w, h, move = o
        kw = {k: v for k, v in dict(x=x, y=y, width=w, height=h).items() if v is not None}
        if move != 'bottom' or n % 2:
            kw['move'] = move
        if sc.get('create'):
            if f not in made or n % 3 == 0:
                made[f] = pdf.create_image(**fs.source(f))
            pdf.add_image(made[f], **kw)
        else:
            pdf.image(**fs.source(f), **kw)
    return sut.out(pdf)


# -- documents -----------------------------------------------------------------
class Plan:
    def __init__(self, sc, fs):
        self.sc, self.fs, self.uses, self.n = sc, fs, [], 0

    def use(self, f, cols, less=False):
        self.uses.append(dict(file=f + 1, w=mpt(cols[0][1]), less=less, lefts=[mpt(x) for x, _ in cols]))
        return dict(self.fs.source(f))

    def element(self, e, cols):
        """cols: (left, width) of the columns the element may be in."""
        if e[0] == 'p':
            self.n += 1
            return {'.': 'w%dz ' % self.n * e[1]}
        if e[0] == 'i':
            d = self.use(e[1], cols, bool(e[2]))
            st = {}
            if e[2]:
                st['min_height'] = e[2]
            if self.sc['ordered'] or e[3]:
                st['image_place'] = e[3] or 'normal'
            if st:
                d['style'] = st
            return d
        if e[0] == 'g':
            return {'group': [self.element(x, cols) for x in e[1]]}
        if e[0] == 't':
            n = max(map(len, e[1]))
            rows = []
            for r in e[1]:
                row = []
                for c in range(n):
                    cell = [(x + w / n * c + 4, w / n - 8) for x, w in cols]
                    row.append('' if c >= len(r) or r[c] is None else self.use(r[c], cell))
                rows.append(row)
            return {'table': rows, 'style': dict(border_width=0, cell_margin=4)}
        if e[0] == 'b':
            k, gap = e[1], 10
            inner = [(x + j * ((w - gap * (k - 1)) / k + gap), (w - gap * (k - 1)) / k) for x, w in cols for j in range(k)]
            return {'content': [self.element(x, inner) for x in e[2]], 'cols': dict(count=k, gap=gap)}


def document(sc, fs, p):
    d = dict(style=dict(page_size=PAGE, margin=MARGIN, s=10), sections=[])
    for s in sc['tree']:
        d['sections'].append(p.element(s, [(MARGIN[3], CW)]))
    if 'head' in sc:
        d['running_sections'] = {'head': dict(content=[dict(fs.source(sc['head']))], x=40, y=5, width=35, height=50)}
        for s in d['sections']:
            s['running_sections'] = ['head']
    return sut.build(d)


def trace(sc):
    fs = Files(sc)
    try:
        p = Plan(sc, fs)
        data = calls(sc, fs) if 'ops' in sc else document(sc, fs, p)
        d = dict(ev='def', files=fs.define(), ordered=sc.get('ordered', True), uses=p.uses, width=mpt(CW), left=mpt(MARGIN[3]), top=mpt(MARGIN[0]),
                 head=sc['head'] + 1 if 'head' in sc else 0, headAt=[mpt(40), mpt(5), mpt(35)],
                 ops=[dict(op='page') if o[0] == 'page' else
                      dict(op='image', file=o[1] + 1, x=opt(o[2]), top=opt(o[3]), w=opt(o[4]), h=opt(o[5]), move=o[6]) for o in sc.get('ops', [])])
        try:
            v = sut.View(data)
        except sut.Bad as e:
            return [d, dict(ev='malformed', rule=e.rule)]
        objs, out = {}, []
        for num, *_ in v.pdf.scan:
            x = v.pdf.get(sut.Ref(num))
            if isinstance(x, sut.Stream) and x.dict.get('Subtype') == 'Image':
                objs[num] = len(objs) + 1
                space = v.pdf.get(x.dict.get('ColorSpace'))
                out.append(dict(ev='obj', w=int(x.dict['Width']), h=int(x.dict['Height']), space=str(space), depth=int(x.dict['BitsPerComponent']),
                                data=fs.which(x)))
        for page in v.pages:
            out.append(dict(ev='page'))
            for m in page.marks:
                if m['t'] == 'image':
                    out.append(dict(ev='paint', x=mpt(m['x']), top=mpt(page.height - m['y'] - m['h']), w=mpt(m['w']), h=mpt(m['h']), obj=objs.get(page.xobjects[m['name']][0], 0)))
        return [d] + out + [dict(ev='end')]
    finally:
        fs.close()


def opt(x):
    return -1 if x is None else mpt(x)


# -- random --------------------------------------------------------------------
def random_file(r):
    x = r.random()
    src = r.choice(['str', 'str', 'path', 'bytes', 'file'])
    if x < .55:
        w, h = r.choice([(30, 20), (20, 30), (25, 25), (1, 1), (300, 200), (256, 255), (4000, 3000), (640, 1000), (65535, 40000)])
        if r.random() < .5:
            w, h = r.randint(1, 400), r.randint(1, 400)
        if h > 1.2 * w:
            w, h = h, w
        before = [r.choice(list(MARKS)) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        after = [r.choice(['huff', 'quant', 'com', 'tail', 'dri']) for _ in range(r.choice([0, 0, 1, 2]))]
        f = dict(kind='jpg', segs=before + [r.choice(list(SOFS))] + after, dims=[w, h], n=r.choice([1, 3, 3, 4]), src=src)
        if r.random() < .25:
            f['fill'] = [r.choice([0, 0, 1, 3]) for _ in range(4)]
        f['ext'] = r.choice(['jpg', 'jpg', 'jpeg', 'JPG', 'Jpeg'])
        if src in ('bytes', 'file'):
            f['give'] = r.choice(['jpg', 'jpeg', '.jpg', 'JPEG', None])
        return f
    dims = [r.randint(8, 60), r.randint(8, 40)]
    if x < .8:
        f = dict(kind='png', mode=r.choice(['RGB', 'RGB', 'L', 'P', 'RGBA', 'LA', '1']), dims=dims, src=src, ext=r.choice(['png', 'png', 'PNG']))
        if src in ('bytes', 'file'):
            f['give'] = r.choice(['png', '.png', 'PNG', None])
        return f
    return dict(kind='pil', mode=r.choice(['RGB', 'L', 'CMYK']), dims=dims, src=src, prog=r.random() < .4, exif=r.random() < .5, q=r.choice([30, 80, 95]))


def ratio(f):
    return f['dims'][1] / f['dims'][0]


def many_calls(r):
    """A page of many images, some of them again."""
    files = [random_file(r) for _ in range(r.choice([12, 30, 60]))]
    for f in files:
        f['src'] = r.choice(['str', 'path', 'bytes'])
    order = list(range(len(files))) + [r.randrange(len(files)) for _ in range(10)]
    r.shuffle(order)
    ops = [['page']] + [['image', f, 30 + n % 12 * 35, 60 + n // 12 * 40, 30, None, 'bottom'] for n, f in enumerate(order)]
    if r.random() < .5:
        ops.insert(r.randint(3, len(ops)), ['page'])
    return dict(files=files, ops=ops, create=r.random() < .3, same=r.random() < .2)


def random_calls(r):
    if r.random() < .03:
        return many_calls(r)
    files = [random_file(r) for _ in range(r.randint(1, 4))]
    ops = [['page']]
    for _ in range(r.randint(1, 8)):
        if r.random() < .25:
            ops.append(['page'])
            continue
        at = r.choice([(None, None), (None, None), (r.randint(0, 300), None), (None, r.randint(0, 500)), (r.randint(0, 300), round(r.uniform(0, 500), 2))])
        size = r.choice([(None, None), (r.randint(5, 200), None), (None, r.randint(5, 200)), (r.randint(5, 200), r.randint(5, 200))])
        ops.append(['image', r.randrange(len(files)), at[0], at[1], size[0], size[1], r.choice(['bottom', 'bottom', 'next'])])
    return dict(files=files, ops=ops, create=r.random() < .3, same=r.random() < .2)


def random_tree(r):
    files = [random_file(r) for _ in range(r.randint(1, 4))]
    ordered = r.random() < .6
    flat = [k for k, f in enumerate(files) if ratio(f) <= 1.25]

    def image(tall):
        k = r.randrange(len(files)) if tall else r.choice(flat)
        return k

    def element(depth, group=False):
        x = r.random()
        if x < .3 or not flat:
            return ['p', r.choice([1, 5, 40, 150]) if not group else r.choice([1, 10])]
        if x < .65 or group:
            return ['i', r.choice(flat), r.choice([0, 0, 20, 60]), '' if ordered else r.choice(['', 'flow', 'normal'])]
        if x < .8:
            n = 1 if ordered else r.randint(1, 3)
            return ['t', [[r.choice(flat) if r.random() < .7 else None for _ in range(n)] for _ in range(r.randint(1, 3))]]
        if x < .9 and depth < 2:
            return ['b', r.choice([1, 2]), [element(depth + 1) for _ in range(r.randint(1, 3))]]
        if ordered:
            return ['p', 3]
        g = [['p', 2], ['i', r.choice(flat), r.choice([20, 40]), '']]
        return ['g', g if r.random() < .5 else g[::-1]]
    sc = dict(files=files, ordered=ordered, same=r.random() < .2,
              tree=[['b', r.choice([1, 1, 2, 3]), [element(0) for _ in range(r.randint(2, 6))]] for _ in range(r.choice([1, 1, 2]))])
    if r.random() < .3:
        files.append(random_file(r))
        files[-1]['dims'] = [60, 40]
        if files[-1]['src'] == 'file':
            files[-1]['src'] = 'str'
        sc['head'] = len(files) - 1
    return sc
