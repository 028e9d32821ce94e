"""Access to the code under test (pdfme from /repo) and the view of what it wrote."""
import io
import json
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(1, HERE)

import pdfread  # noqa: E402
from pdfread import Bad, Pdf, Ref, Stream, interpret  # noqa: E402

import pdfme  # noqa: E402
assert os.path.realpath(pdfme.__file__).startswith(os.path.realpath(REPO) + os.sep), pdfme.__file__

AFM = json.load(open(os.path.join(HERE, 'afm_widths.json')))


def mpt(v):
    """Points to integer milli-points."""
    return int(round(float(v) * 1000))


def swidth(base, text):
    """Width of text at size 1 in thousandths (AFM units), standard font."""
    w = AFM[base]
    return sum(w[b] for b in text.encode('latin-1'))


class Page:
    def __init__(self, pdf, ref, d):
        self.ref, self.dict = ref, d
        mb = [float(x) for x in d['MediaBox']]
        self.mediabox = mb
        self.width, self.height = mb[2] - mb[0], mb[3] - mb[1]
        res = pdf.get(d.get('Resources', {})) or {}
        self.fonts = {}
        for name, fref in (pdf.get(res.get('Font', {})) or {}).items():
            f = pdf.get(fref)
            if not isinstance(f, dict) or f.get('Type') != 'Font':
                raise Bad('FontResourceIsFont', name)
            self.fonts[name] = f
        self.xobjects = {}
        for name, xref in (pdf.get(res.get('XObject', {})) or {}).items():
            x = pdf.get(xref)
            if not isinstance(x, Stream) or x.dict.get('Subtype') != 'Image':
                raise Bad('XObjectResourceIsImage', name)
            self.xobjects[name] = (int(xref), x)
        contents = pdf.get(d['Contents'])
        if not isinstance(contents, Stream):
            raise Bad('ContentsIsStream', contents)
        self.stream = contents.data
        self.cidw = {}

        def width_of(name, s):
            f = self.fonts[name]
            if f.get('Subtype') == 'Type1':
                w = AFM.get(f['BaseFont'])
                if w is None:
                    raise Bad('StandardFontKnown', f.get('BaseFont'))
                return sum(w[b] for b in s) / 1000.0, s.count(b' ')
            if f.get('Subtype') == 'Type0':
                W = self.cid_widths(pdf, name)
                if len(s) % 2:
                    raise Bad('TwoByteCodes', s)
                return sum(W.get(s[i] * 256 + s[i + 1], 1000.0) for i in range(0, len(s), 2)) / 1000.0, 0
            raise Bad('FontSubtype', f.get('Subtype'))
        self.marks = interpret(self.stream, self.fonts, self.xobjects, width_of)
        self.annots = [pdf.get(a) for a in (pdf.get(d.get('Annots', [])) or [])]

    def cid_widths(self, pdf, name):
        if name not in self.cidw:
            f = self.fonts[name]
            desc = pdf.get(pdf.get(f['DescendantFonts'])[0])
            W, out, i = pdf.get(desc['W']), {}, 0
            while i < len(W):
                if isinstance(W[i + 1], list):
                    for k, v in enumerate(W[i + 1]):
                        out[W[i] + k] = float(v)
                    i += 2
                else:
                    for k in range(W[i], W[i + 1] + 1):
                        out[k] = float(W[i + 2])
                    i += 3
            self.cidw[name] = out
        return self.cidw[name]

    def base(self, fontname):
        return str(self.fonts[fontname].get('BaseFont'))

    def texts(self):
        return [m for m in self.marks if m['t'] == 'text']


class View:
    def __init__(self, data):
        self.pdf = Pdf(data)
        self.pages = [Page(self.pdf, r, d) for r, d in self.pdf.pages()]


def out(pdf):
    b = io.BytesIO()
    pdf.output(b)
    return b.getvalue()


def build(document, context=None):
    from pdfme import build_pdf
    b = io.BytesIO()
    build_pdf(document, b, context)
    return b.getvalue()
