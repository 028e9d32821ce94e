"""Scenarios of embedded fonts (spec/Fonts.tla) and how they are run and observed.

files: fonts as in fontfiles; docs: {kind: pdf | tree, just, align}; ops: ['register', family, mode, file], ['add', doc, family, mode, file],
['page', doc], ['par', doc, parts] with parts [family, mode, size, text]."""
import fontfiles
import observe
import sut
from sut import mpt

STANDARD = ('Helvetica', 'Times', 'Courier')
WIDE, NARROW = 13000, 300


def color_of(k):
    return [round(k % 10 / 10 + .05, 2), round(k // 10 % 10 / 10 + .05, 2), round(k // 100 / 10 + .05, 2)]


def part(p, k):
    fam, mode, size, text = p
    if (k + len(text)) % 2:
        return {'.f:%s;s:%s;b:%d;i:%d' % (fam, size, 'b' in mode, 'i' in mode): [text], 'style': dict(bg=color_of(k))}
    return {'.': [text], 'style': dict(f=fam, b='b' in mode, i='i' in mode, s=size, bg=color_of(k))}


class Run:
    def __init__(self, sc):
        self.sc = sc
        self.files = [fontfiles.build(f) for f in sc['files']]
        self.ev = []
        self.docs = []
        self.k = [0] * len(sc['docs'])
        self.trees = {}
        self.parts = [[] for _ in sc['docs']]

    def text(self, d, parts, how):
        for n, (fam, mode, size, text) in parts:
            self.ev.append(dict(ev='text', d=d + 1, k=n, fam=fam, mode=mode, size=size, chars=[ord(c) for c in text], how=how))
            if how == 'ok':
                self.parts[d].append((n, text))

    def number(self, d, parts):
        out = []
        for p in parts:
            self.k[d] += 1
            out.append((self.k[d], p))
        return out

    def go(self):
        from pdfme import PDF, PDFDocument
        from pdfme.fonts import PDFFont
        for d, x in enumerate(self.sc['docs']):
            style = dict(page_size=((NARROW if x['just'] else WIDE) + 40, 800), margin=20)
            if x['kind'] == 'pdf':
                pdf = PDF(**style)
                pdf.add_page()
                self.docs.append(pdf)
            else:
                self.docs.append(None)
                self.trees[d] = [style, []]
            self.ev.append(dict(ev='doc', d=d + 1, just=bool(x['just'])))
        for op in self.sc['ops']:
            if op[0] == 'register':
                PDFFont.register(op[1], op[2], self.files[op[3]])
                self.ev.append(dict(ev='register', fam=op[1], mode=op[2], file=op[3] + 1))
                continue
            d = op[1]
            if d in self.trees and op[0] != 'par':
                continue
            if op[0] == 'add':
                how = 'ok'
                try:
                    self.docs[d].add_font(self.files[op[4]], op[2], op[3])
                except Exception:
                    how = 'crash'
                self.ev.append(dict(ev='add', d=d + 1, fam=op[2], mode=op[3], file=op[4] + 1, how=how))
            elif op[0] == 'page':
                self.docs[d].add_page()
            else:
                parts = self.number(d, op[2])
                body = {'.': [part(p, n) for n, p in parts], 'style': dict(text_align='j' if self.sc['docs'][d]['just'] else self.sc['docs'][d]['align'])}
                if d in self.trees:
                    self.trees[d][1].append((parts, body))
                    continue
                how = 'ok'
                try:
                    self.docs[d].text(body)
                except ValueError:
                    how = 'refused'
                except Exception:
                    how = 'crash'
                self.text(d, parts, how)
        for d, (style, body) in self.trees.items():
            how = 'ok'
            try:
                doc = PDFDocument(dict(style=dict(style, margin_bottom=20), sections=[{'content': [b for _, b in body] or ['.']}]))
                self.docs[d] = doc.pdf
                doc.run()
            except ValueError:
                how = 'refused'
            except Exception:
                how = 'crash'
            for parts, _ in body:
                self.text(d, parts, how)
            if how != 'ok':
                self.docs[d] = None
        for d, pdf in enumerate(self.docs):
            if pdf is not None and not (d in self.trees and not self.trees[d][1]):
                self.read(d, pdf)
        self.ev.append(dict(ev='end'))

    def read(self, d, pdf):
        view = sut.View(sut.out(pdf))
        known = {}
        want = [n for n, text in self.parts[d] for c in text if c != ' ']
        glyphs, at, last = [], 0, None
        lines = {}
        rects = []
        for pn, page in enumerate(view.pages):
            for m in page.marks:
                if m['t'] == 'fill':
                    rects.append((pn, m))
                elif m['t'] == 'text':
                    name = m['font']
                    f = page.fonts[name]
                    if id(f) not in known:
                        known[id(f)] = fontfiles.Embedded(view.pdf, f), f
                    gs, far = known[id(f)][0].glyphs(m['s'])
                    x = m['x']
                    for i, (g, w) in enumerate(zip(gs, far)):
                        one = w * m['size'] + (m['tw'] if g['file'] == 0 and g['uni'] == [32] else 0)
                        if g['uni'] != [32]:
                            k = want[at] if at < len(want) else 0
                            at += 1
                            key = (k, pn, round(m['y'], 1))
                            a = lines.setdefault(key, [x, x, m['y']])
                            a[0], a[1] = min(a[0], x), max(a[1], x + one)
                        glyphs.append(g)
                        x += one
        self.ev.append(dict(ev='painted', d=d + 1, glyphs=glyphs))
        for (k, pn, _), (x0, x1, y) in lines.items():
            mine = [m for p, m in rects if p == pn and [round(c, 2) for c in m['color']] == color_of(k) and m['y'] - .01 <= y <= m['y'] + m['h'] + .01] if k else []
            if mine:
                x, w = min(m['x'] for m in mine), max(m['x'] + m['w'] for m in mine)
                self.ev.append(dict(ev='place', d=d + 1, k=k, x=mpt(x), w=mpt(w - x), px=mpt(x0), pw=mpt(x1 - x0)))


def trace(sc):
    from pdfme.fonts import PDFFont
    before = dict(PDFFont.registered_fonts)
    PDFFont.registered_fonts.clear()
    r = Run(sc)
    chars = {ord(c) for op in sc['ops'] if op[0] == 'par' for p in op[2] for c in p[3]}
    files = []
    for f in sc['files']:
        has = [x for x in f['chars'] if x[0] in chars]
        used = sorted({g for _, g in has} | {0})
        files.append(dict(upem=f['upem'], chars=has, adv=[[g, f['adv'][g] if g < len(f['adv']) else 500] for g in used]))
    try:
        r.go()
    except sut.Bad as e:
        r.ev.append(dict(ev='malformed', rule=e.rule))
    finally:
        PDFFont.registered_fonts.clear()
        PDFFont.registered_fonts.update(before)
    return [dict(ev='def', files=files)] + r.ev


# -- random --------------------------------------------------------------------
ALPHABETS = [[chr(c) for c in range(33, 127)], [chr(c) for c in range(0xa1, 0x180) if c != 0xad], [chr(c) for c in range(0x391, 0x3ca) if c != 0x3a2],
             [chr(c) for c in range(0x4e00, 0x4e80)], [chr(c) for c in (0x2018, 0x2019, 0x201c, 0x2022, 0x20ac, 0x2122, 0xfb01, 0xfffd, 0xe000, 0xd7ff, 0xf8ff)],
             [chr(c) for c in (0x1f600, 0x1f601, 0x1d49c, 0x10000, 0x10ffff, 0x20000)]]
SPECIAL = [8, 9, 10, 12, 13, 32, 40, 41, 92, 93, 127, 128, 133, 160, 255, 256, 257, 266, 269, 2570, 2600, 2610, 3338, 3341, 10280, 10537]


def random_font(r, no, big=False):
    n = 60000 if big else r.choice([40, 300, 300, 3400, 11000])
    cs = {' ': None, '\xa0': None}
    for a in r.sample(ALPHABETS, r.randint(1, 4)) + [ALPHABETS[0]]:
        for c in r.sample(a, min(len(a), r.randint(3, 25))):
            cs[c] = None
    if r.random() < .1:
        del cs['\xa0']
    cs = list(cs)
    how = r.choice(['order', 'order', 'any', 'any', 'special'])
    if how == 'order':
        cs.sort()
    free = list(range(1, min(n, 36)))
    chars = []
    g = r.randint(1, 3) if not big else r.choice([55200, 0xd800 - 3, 57000])
    for c in cs:
        if chars and r.random() < .06 or (c == '\xa0' and r.random() < .6):
            # the glyph of another character
            chars.append([ord(c), r.choice(chars)[1] if c != '\xa0' else next((q for k, q in chars if k == 32), 1)])
            continue
        if how == 'order':
            g += r.choice([1, 1, 1, 1, 2, 5])
        elif how == 'any':
            g = r.randint(1, n - 1)
        else:
            g = r.choice(SPECIAL)
        g = g % n or 1
        chars.append([ord(c), g])
    r.shuffle(chars)
    upem = r.choice([1000, 1000, 2048, 2048, 512, 1024, 16])
    top = max(g for _, g in chars) + 1
    if big:
        adv = []
    else:
        adv = [r.choice([0, upem // 4, upem // 2, upem, upem * 2]) if r.random() < .2 else r.randint(upem // 5, upem + upem // 3) for _ in range(top)]
        if r.random() < .1:
            adv = [upem * 3 // 5] * top
    return dict(no=no, n=n, upem=upem, chars=sorted(chars), adv=adv, names=r.choice(['std', 'std', 'spaces', 'late', 'few']), os2=r.random() < .85,
                weight=r.choice([400, 700]), mono=int(r.random() < .2), angle=r.choice([0, 0, -12]))


def random_text(r, font, lack, words=None):
    has = [chr(c) for c, _ in font['chars']]
    solid = [c for c in has if not c.isspace()]
    if lack:
        solid += ['\u0416', '\u05d0']
    out = []
    for _ in range(words or r.choice([1, 1, 2, 3, 5])):
        w = [r.choice(solid)] + [r.choice(solid + ['\xa0'] * ('\xa0' in has)) for _ in range(r.randint(0, 6))]
        out.append(''.join(w))
    return ' '.join(out)


def latin(r, words):
    return ' '.join(''.join(r.choice('abcdefghXYZ().,\\') for _ in range(r.randint(1, 6))) for _ in range(words))


def random_scenario(r, big=False):
    nf = r.choice([1, 2, 2, 3])
    files = [random_font(r, no + 1, big and not no) for no in range(nf)]
    docs = [dict(kind=r.choice(['pdf', 'pdf', 'tree']), just=r.random() < .3, align=r.choice('lrc')) for _ in range(r.choice([1, 1, 2, 3]))]
    fams = r.sample(['Ay', 'Bee Two', 'C-3'], r.choice([1, 2]))
    modes = ['n', 'b', 'i', 'bi']
    ops = []
    # what is there: (document or None, family, mode) -> file
    there = {}
    sizes = [1, 6, 10, 10, 11, 17, 20]

    def at(d, fam, mode):
        for m in (mode,) if fam in STANDARD else (mode, 'n'):
            fs = {there[k] for k in ((d, fam, m), (None, fam, m)) if k in there}
            if fs:
                return files[sorted(fs)[0]] if len(fs) == 1 else None
        return None
    for _ in range(r.randint(4, 14)):
        x = r.random()
        d = r.randrange(len(docs))
        if x < .2 or not ops:
            fam, mode = r.choice(fams), r.choice(modes + ['n', 'n'])
            f = r.randrange(nf)
            ops.append(['register', fam, mode, f])
            there[None, fam, mode] = f
        elif x < .35 and docs[d]['kind'] == 'pdf':
            fam, mode = r.choice(fams + (['Helvetica', 'Courier'] if r.random() < .3 else [])), r.choice(modes + ['n', 'n'])
            f = r.randrange(nf)
            ops.append(['add', d, fam, mode, f])
            there[d, fam, mode] = f
        elif x < .4:
            ops.append(['page', d])
        else:
            parts = []
            for _ in range(r.choice([1, 1, 2, 3]) if docs[d]['kind'] == 'pdf' else r.choice([1, 2])):
                fam, mode = r.choice(fams + ['Helvetica', 'Courier', 'Times']), r.choice(modes)
                f = at(d, fam, mode)
                if f is None and fam in STANDARD and (d, fam, mode) not in there:
                    parts.append([fam, mode, r.choice(sizes), latin(r, r.choice([1, 3]) if not docs[d]['just'] else r.choice([3, 12]))])
                elif f is not None:
                    parts.append([fam, mode, r.choice(sizes), random_text(r, f, r.random() < .02, r.choice([3, 10, 25]) if docs[d]['just'] else None)])
                elif not parts and docs[d]['kind'] == 'pdf' and fam not in STANDARD and r.random() < .5:
                    # nothing is there, or not in this mode, or two
                    ops.append(['par', d, [[fam, mode, 10, random_text(r, files[0], False)]]])
            if parts:
                if docs[d]['just']:
                    # the parts of a line that is spaced out are kept apart
                    parts = parts[:3]
                ops.append(['par', d, parts])
    # a definition is built when all is registered
    return dict(files=files, docs=docs, ops=ops)
