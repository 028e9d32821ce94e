"""C10: layouts run again from saved states (spec/Rerun.tla)."""
import copy
import hashlib
import json
import random
import re

import gen
import sut

NEW = {'section_element_index': 0, 'section_delayed': [], 'children_memory': []}   # the state of a content box never run


def source(seed):
    """(kind, definition, areas) of a layout that takes several areas."""
    r = random.Random(seed)
    g = gen.Gen(r, images=r.random() < .6, footnotes=False)
    kind = r.choice(['text', 'table', 'content', 'content'])
    w = r.choice([200, 260, 330])
    hs = r.sample([35, 60, 90, 130, 180, 240, 400], 3)
    ws = [w, w, w] if r.random() < .5 else [w, w + 60, w - 40]
    if kind == 'text':
        d = g.par()
        k = next(k for k in d if k.startswith('.'))
        d[k] += [g.inline(), '\n', g.words(10, 80)]
        hs = r.sample([14, 26, 35, 60, 90], 3)
    elif kind == 'table':
        d = g.table(0)
        if r.random() < .5:
            d['table'] += [[g.cell(1) for _ in d['table'][0]] for _ in range(r.randint(1, 5))]
            d.pop('borders', 0)
    else:
        d = g.box(0, r.randint(2, 7))
    if r.random() < .5:
        hs[r.randrange(3)] = r.choice([4, 8, 11, 14, 18, 25])      # room for little or nothing
    areas = [(r.choice([10, 40]), r.choice([500, 420.5]), ws[i], hs[i]) for i in range(3)] + [(20, 700, w, 700)]
    return kind, d, areas


class Layout:
    def __init__(self, kind, definition):
        from pdfme import PDF
        from pdfme.content import PDFContent
        from pdfme.table import PDFTable
        from pdfme.text import PDFText
        self.kind = kind
        pdf = PDF()
        pdf.formats = {'fmt1': {'c': 'blue', 'b': True}}
        pdf.add_page()
        d = copy.deepcopy(definition)
        if kind == 'text':
            st = d.get('style', {})
            par = {k: st[k] for k in ('text_align', 'line_height', 'indent', 'list_text', 'list_indent') if isinstance(st, dict) and k in st}
            self.o = PDFText(d, 100, 100, 0, 0, fonts=pdf.fonts, pdf=pdf, **par)
        elif kind == 'table':
            self.o = PDFTable(d['table'], pdf.fonts, 0, 0, 100, 100, d.get('widths'), d.get('style'), d.get('borders'), d.get('fills'), pdf)
        else:
            self.o = PDFContent(d, pdf.fonts, 0, 0, 100, 100, pdf)

    def run(self, area):
        self.o.finished = False
        self.o.run(*area)
        if self.kind == 'text':
            out = norm(self.o.result)
        else:
            out = norm([self.o.parts, self.o.lines, self.o.fills, self.o.current_height])
        return digest(out), bool(self.o.finished), painted(self.kind, self.o)

    def save(self):
        if self.kind == 'content' and self.o.pdf_content_part is None:
            return NEW
        return self.o.get_state()

    def restore(self, state):
        if self.kind == 'content' and self.o.pdf_content_part is None:
            return
        self.o.set_state(**state)


def digest(o):
    return hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest()[:12]


def painted(kind, o):
    """The words and images of a run, without their places."""
    out = []
    for p in [dict(o.result, type='paragraph')] if kind == 'text' else o.parts:
        if p['type'] == 'image':
            # in a cell as wide as its margins no image is visible
            out.append('image ' + str(p['pdf_image'].image_name) if p['width'] > 0 else 'none')
        else:
            for t in re.findall(r'\(((?:[^()\\]|\\.)*)\)', p['text_stream'], re.S):
                out += t.split()
    return out


def norm(o):
    if isinstance(o, dict):
        return {str(k): norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted((norm(v) for v in o), key=str)
    if o is None or isinstance(o, (str, int, bool)):
        return o
    if isinstance(o, float):
        return round(o, 6)
    if type(o).__name__ == 'PDFImage':
        return ['image', o.image_name]
    return str(o)


def everything(seen, path):
    return digest(sorted(x for i in range(len(path)) for x in seen[tuple(path[:i + 1])]))


def trace(sc):
    ev, all_seen = history(sc)
    if any('none' in x for seen in all_seen for x in seen.values()):
        for e in ev:
            e['all'] = ''
    return ev


def history(sc):
    kind, d, areas = source(sc['seed'])
    d = gen.materialize(d)
    lay = Layout(kind, d)
    path, slots, ev, done, seen = [], {}, [], set(), {}
    for op in sc['hist']:
        k = op['k']
        if op['op'] == 'run':
            if tuple(path) in done:
                continue
            out, fin, seen[(*path, k)] = lay.run(areas[k - 1])
            ev.append(dict(ev='run', path=list(path), area=k, out=out, fin=fin, all=everything(seen, path + [k]) if fin else '', fresh=False))
            path.append(k)
            if fin:
                done.add(tuple(path))
        elif op['op'] == 'save':
            if tuple(path) not in done:
                slots[k] = (lay.save(), list(path))
        elif k in slots:
            lay.restore(slots[k][0])
            path = list(slots[k][1])
    # and on to the end in large areas
    n = 0
    while tuple(path) not in done and n < 4:
        out, fin, seen[(*path, 4)] = lay.run(areas[3])
        ev.append(dict(ev='run', path=list(path), area=4, out=out, fin=fin, all=everything(seen, path + [4]) if fin else '', fresh=False))
        path.append(4)
        n += 1
        if fin:
            done.add(tuple(path))
    all_seen = [seen]
    # new objects that only ever run in one sequence of areas
    paths = {tuple(e['path']) + (e['area'],) for e in ev}
    for p in sorted(p for p in paths if not any(q != p and q[:len(p)] == p for q in paths)):
        lay = Layout(kind, d)
        seen = {}
        all_seen.append(seen)
        for i, a in enumerate(p):
            out, fin, seen[p[:i + 1]] = lay.run(areas[a - 1])
            ev.append(dict(ev='run', path=list(p[:i]), area=a, out=out, fin=fin, all=everything(seen, p[:i + 1]) if fin else '', fresh=True))
        while not fin and len(p) < 9:
            p += (4,)
            out, fin, seen[p] = lay.run(areas[3])
            ev.append(dict(ev='run', path=list(p[:-1]), area=4, out=out, fin=fin, all=everything(seen, p) if fin else '', fresh=True))
    return ev, all_seen


def run(ctx):
    r = ctx.rng
    ctx.design('RerunMC', 'RerunMC_leaky.cfg')
    sc = ctx.scenarios('RerunMC', None if ctx.quick else 'RerunMC_thorough.cfg')
    sc = [dict(r.choice(sc), seed=r.randrange(10 ** 9)) for _ in range(ctx.n(2200, 30000))]
    items = ctx.run_traces('RerunTrace', trace, sc, limit=60)
    ctx.need('run again', 'run again from the middle', 'compared with a fresh object', 'finished in a later area', 'another way to the end', 'other areas in between')

    def corrupt(t):
        for i, e in enumerate(t):
            if e['fresh'] and len(t) > 4:
                c = copy.deepcopy(t)
                c[i]['out'] = 'x'
                yield 'output of a run', c
                c = copy.deepcopy(t)
                c[i]['fin'] = not c[i]['fin']
                yield 'finished', c
        for i, e in enumerate(t):
            if sum(x['fin'] for x in t) > 1 and e['fin']:
                c = copy.deepcopy(t)
                c[i]['all'] = 'x'
                yield 'something is missing', c
                break
    ctx.binding_selftest('RerunTrace', items, corrupt)
