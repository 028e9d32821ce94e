"""Labels, outlines and links of a document definition, and of the file made from it."""
import re

import observe
import sut
from pdfread import Bad, Ref
from sut import mpt

TOK = re.compile(r'w\d+')


def texts(o):
    """Text pieces of an element in document order."""
    if isinstance(o, str):
        yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from texts(x)
    elif isinstance(o, dict):
        for k, v in o.items():
            if k.startswith('.') or k in ('content', 'table', 'group'):
                yield from texts(v)


def first_token(o):
    m = TOK.search(' '.join(texts(o)))
    return m.group() if m else None


def tokens_of(o):
    return TOK.findall(' '.join(texts(o)))


def walk(o, refs=()):
    """(element, enclosing refs) for every element in document order."""
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from walk(x, refs)
    elif isinstance(o, dict):
        if 'ref' in o:
            refs = refs + (o['ref'],)
        yield o, refs
        for k, v in o.items():
            if k.startswith('.') or k in ('content', 'table', 'group', 'sections'):
                yield from walk(v, refs)


def labels(defn):
    """[(label, first token)] in document order."""
    return [(o['label'], first_token(o)) for o, _ in walk(defn) if 'label' in o]


def outlines(defn):
    return [(o['outline']['level'], o['outline']['text'], first_token(o)) for o, _ in walk(defn) if 'outline' in o]


def ref_tokens(defn):
    """token -> labels of the refs it is inside of."""
    out = {}
    for o, refs in walk(defn):
        if refs:
            for k, v in o.items():
                if k.startswith('.'):
                    for t in tokens_of(v):
                        out[t] = refs       # inner elements come later and have more
    return out


def places(view):
    """token -> first character painted: page, x, y (baseline with rise), size."""
    out = {}
    for t, occ in observe.tokens(view, TOK).items():
        p, g, _, _ = occ[0]
        out[t] = dict(page=p, x=mpt(g.x), y=mpt(g.y + g.rise), size=mpt(g.size))
    return out


def key(s):
    return list(s.encode('latin-1'))


def dest_place(view, d):
    """[page, x, y] of a destination array."""
    pages = {p.ref: i for i, p in enumerate(view.pages)}
    if not isinstance(d, list) or len(d) != 5 or d[1] != 'XYZ' or not isinstance(d[0], Ref):
        raise Bad('Destination', d)
    return dict(page=pages.get(int(d[0]), -1), x=mpt(d[2]), y=mpt(d[3]))


def dest_nodes(view):
    """Node events of the destination tree, and the flat mapping a full scan finds."""
    pdf = view.pdf
    names = pdf.get(pdf.root.get('Names', {})) or {}
    root = names.get('Dests')
    ev, flat = [], {}
    if root is None:
        return ev, flat
    seen = set()

    def go(ref, top):
        if int(ref) in seen or len(seen) > 5000:
            raise Bad('DestsTreeIsATree')
        seen.add(int(ref))
        d = pdf.get(ref)
        lim = d.get('Limits', [])
        kids = d.get('Kids', [])
        nm = d.get('Names', [])
        if any(not isinstance(x, bytes) for x in lim) or len(lim) not in (0, 2) or len(nm) % 2:
            raise Bad('DestsNode', d)
        at = [dest_place(view, pdf.get(x)) for x in nm[1::2]]
        ev.append(dict(ev='node', id=int(ref), root=top, limits=[list(x) for x in lim], kids=[int(k) for k in kids],
                       names=[list(x) for x in nm[0::2]], at=at))
        for k, a in zip(nm[0::2], at):
            flat.setdefault(bytes(k), a)
        for k in kids:
            go(k, False)
    go(root, True)
    return ev, flat
