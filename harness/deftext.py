"""The paragraphs of a document definition and the words a reader should find for them."""
import re

import observe

FURNITURE = re.compile(r'(\d+|[ivxlcdm]+|head|foot|[*-]|\d+\.)$', re.I)
KEY = re.compile(r'w\d+')
MARK, VAR = '\x01', '\x02'


def flat(o):
    """Text of a paragraph; footnote marks and variables as placeholders."""
    if isinstance(o, (int, float)):
        return str(o)
    if isinstance(o, str):
        return o
    if isinstance(o, (list, tuple)):
        return ''.join(flat(x) for x in o)
    if 'footnote' in o:
        return MARK
    if 'var' in o:
        return VAR
    for k, v in o.items():
        if k.startswith('.'):
            return flat(v)
    return ''


def footnotes(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from footnotes(x)
    elif isinstance(o, dict):
        if 'footnote' in o:
            yield o['footnote']
        else:
            for k, v in o.items():
                if k.startswith('.'):
                    yield from footnotes(v)


def paragraphs(o):
    """Texts of the paragraphs of an element, in document order."""
    if o is None:
        return
    if isinstance(o, (str, int, float, list, tuple)):
        yield flat(o)
        for f in footnotes(o):
            yield from paragraphs(f)
    elif any(k.startswith('.') for k in o):
        yield flat(o)
        for f in footnotes(o):
            yield from paragraphs(f)
    elif 'table' in o:
        for row in o['table']:
            for c in row:
                yield from paragraphs(c)
    else:
        for x in o.get('content', o.get('group', [])):
            yield from paragraphs(x)


def of_document(doc):
    out = []
    for s in doc['sections']:
        out += paragraphs(s)
    return out


def patterns(text):
    """One regular expression for every word of a paragraph's text."""
    return [re.escape(w).replace(re.escape(MARK), r'\d+').replace(re.escape(VAR), r'[0-9ivxlcdmIVXLCDM]*') for w in text.split()]


def word_events(doc, view):
    """Events of spec/Words.tla."""
    ev, pats = [], []
    for p, text in enumerate(of_document(doc)):
        ps = patterns(text)
        ev.append(dict(ev='want', par=p + 1, n=len(ps)))
        pats += [(re.compile(x + '$'), p + 1, k + 1) for k, x in enumerate(ps)]
    index = {}
    for rx, p, k in pats:
        m = KEY.match(rx.pattern)
        index.setdefault(m.group() if m else None, []).append((rx, p, k))
    for i, page in enumerate(view.pages):
        for w in observe.words(page):
            m = KEY.match(w.s)
            hit = [(p, k) for rx, p, k in index.get(m.group() if m else None, []) if rx.match(w.s)]
            if hit:
                ev.append(dict(ev='painted', par=hit[0][0], k=hit[0][1], page=i, x=round(w.x * 1000), x2=round(w.x2 * 1000), y=round(w.y * 1000)))
            elif not FURNITURE.match(w.s):
                ev.append(dict(ev='stray', s=w.s))
    return ev + [dict(ev='end')]
