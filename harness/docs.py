"""Scenarios of documents (spec/Doc.tla) and how they are run and observed.

Settings: size (number, name or [w, h]), rot (bool), margin (as given), off, sty, reset; sections: set, runs (names' numbers),
pars [(lines, right, number lines)]; rules: pages (text), set, exc, inc; runs: x, y, w, h (number, name or None), right, n."""
import re

import observe
import sut
from sut import mpt

NONE = 9999999
TOK = re.compile(r'([sr])(\d+)k(\d+)(?:p([^a-z]*))?z')
SIZES = {'a5': (419.528, 595.276), 'letter': (612, 792), 'b5': (498.898, 708.661)}


def size_of(v):
    if isinstance(v, str):
        return SIZES[v]
    return (v, v) if isinstance(v, (int, float)) else tuple(v)


def margin_of(v):
    if isinstance(v, dict):
        return [v[k] for k in ('top', 'right', 'bottom', 'left')]
    if isinstance(v, str):
        v = [float(x) for x in re.split('[, ]', v)]
    if isinstance(v, (int, float)):
        v = [v]
    v = list(v)
    return {1: v * 4, 2: v * 2, 3: v + v[1:2], 4: v}[len(v)]


def settings(s):
    return dict(size=[mpt(x) for x in size_of(s['size'])] if 'size' in s else [], rot=int(s['rot']) if 'rot' in s else NONE,
                margin=[mpt(x) for x in margin_of(s['margin'])] if 'margin' in s else [], off=s.get('off', NONE), sty=s.get('sty', ''),
                reset=s.get('reset', False))


def style(s):
    names = dict(size='page_size', rot='rotate_page', margin='margin', off='page_numbering_offset', sty='page_numbering_style', reset='page_numbering_reset')
    return {names[k]: v for k, v in s.items()}


def ranges(text):
    """What the text of page ranges means: [from, to, step]."""
    out = []
    for part in text.split(','):
        q = part.split(':')
        if len(q) == 1:
            out.append([int(q[0]), int(q[0]) + 1, 1])
        else:
            a, b, c = [x.strip() for x in (q + [''])[:3]]
            out.append([int(a or 0), int(b) if b else 100000, int(c or 1)])
    return out


def line(head, k, number):
    return [head + 'k%dp' % k, {'var': '$page'}, 'z'] if number else [head + 'k%dz' % k]


def paragraph(head, first, n, numbers):
    out = []
    for j in range(n):
        if j:
            out.append('\n')
        out += line(head, first + j, first + j in numbers)
    return {'.': out}


class Plan:
    def __init__(self, sc):
        self.sc = sc
        self.right = {}
        secs = []
        self.doc = {'style': dict(style(sc['base']), f='Courier', s=10, margin_bottom=5, margin_top=0), 'sections': []}
        for i, s in enumerate(sc['sections'], 1):
            k, content, nums = 1, [], []
            for n, right, every in s['pars']:
                mine = [j for j in range(k, k + n) if every and j % every == 0]
                p = paragraph('s%d' % i, k, n, mine)
                if right:
                    p['style'] = {'text_align': 'r'}
                for j in range(k, k + n):
                    self.right[(i, j)] = bool(right)
                nums += mine
                content.append(p)
                k += n
            secs.append(dict(set=settings(s['set']), runs=[r + 1 for r in s['runs']], n=k - 1, nums=nums))
            d = {'content': content, 'running_sections': ['run%d' % (r + 1) for r in s['runs']]}
            if s['set']:
                d['style'] = style(s['set'])
            self.doc['sections'].append(d)
        runs = []
        self.doc['running_sections'] = {}
        for i, r in enumerate(sc['runs'], 1):
            d = {'content': [paragraph('r%d' % i, 1, r['n'], [r['n']])]}
            for k, name in (('x', 'x'), ('y', 'y'), ('w', 'width'), ('h', 'height')):
                if r.get(k) is not None:
                    d[name] = r[k]
            if r['right']:
                d['style'] = {'text_align': 'r'}
            self.doc['running_sections']['run%d' % i] = d
            pos = {k: dict(t='none', v=0) if r.get(k) is None else dict(t=r[k], v=0) if isinstance(r[k], str) else dict(t='num', v=mpt(r[k])) for k in 'xywh'}
            runs.append(dict(pos, right=r['right'], n=r['n']))
        rules = []
        self.doc['per_page'] = []
        for q in sc['rules']:
            d = {'pages': q['pages']}
            if q['set']:
                d['style'] = style(q['set'])
            if q['exc'] or q['inc']:
                d['running_sections'] = {k: ['run%d' % (r + 1) for r in v] for k, v in (('exclude', q['exc']), ('include', q['inc'])) if v}
            self.doc['per_page'].append(d)
            rules.append(dict(pages=ranges(q['pages']), set=settings(q['set']), exc=[r + 1 for r in q['exc']], inc=[r + 1 for r in q['inc']]))
        base = settings(dict(dict(size='a4', rot=False, margin=56.693), **sc['base'])) if 'size' in sc['base'] else None
        self.def_ = dict(ev='def', base=base, sections=secs, rules=rules, runs=runs)


def trace(sc):
    p = Plan(sc)
    data = sut.build(p.doc)
    return [p.def_] + pages(p, data) + [dict(ev='end')]


def pages(p, data):
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return [dict(ev='malformed', rule=e.rule)]
    out = []
    for page in v.pages:
        atoms, runs, nums = [], [], []
        for w in observe.words(page):
            seen = 0
            for m in TOK.finditer(w.s):     # pieces of different parts of a page may touch
                f, g = w.gs[m.start()], w.gs[m.end() - 1]
                at = dict(x1=mpt(f.x), x2=mpt(g.x + g.w), top=mpt(f.y + f.size), bot=mpt(f.y))
                i, k = int(m.group(2)), int(m.group(3))
                if m.group(1) == 's':
                    atoms.append(dict(at, sec=i, k=k, right=p.right.get((i, k), False)))
                elif i <= len(p.sc['runs']):
                    runs.append(dict(at, run=i, k=k))
                else:
                    continue
                if m.group(4) is not None:
                    nums.append(dict(run=0 if m.group(1) == 's' else i, k=k, text=m.group(4)))
                seen += len(m.group())
            if seen != len(w.s):            # nothing else may be on a page
                atoms.append(dict(x1=mpt(w.x), x2=mpt(w.x2), top=mpt(w.y + w.gs[0].size), bot=mpt(w.y), sec=0, k=0, right=False))
        out.append(dict(ev='page', w=mpt(page.width), h=mpt(page.height), atoms=atoms, runs=runs, nums=nums))
    return out


# -- random documents --------------------------------------------------------
def given_margin(r, m):
    t, a, b, l = m
    forms = [list(m), dict(top=t, right=a, bottom=b, left=l)]
    if a == l:
        forms += [[t, a, b]]
        if t == b:
            forms += [[t, a], '%d,%d' % (t, a), '%d %d' % (t, a)]
            if t == a:
                forms += [t, str(t), [t]]
    forms += [','.join(str(x) for x in m), tuple(m)]
    return r.choice(forms)


def random_settings(r, share=1.0, numbers=True, tall=False):
    s = {}
    if r.random() < .5 * share:
        s['size'] = r.choice([[420, 300], [360, 320], [300, 420], 330, [380, 310]]) if not tall or r.random() < .8 else r.choice(list(SIZES))
    if r.random() < .35 * share:
        s['rot'] = r.random() < .6
    if r.random() < .5 * share:
        a, l = r.choice([75, 80, 85]), r.choice([75, 80, 85])
        if r.random() < .5:
            l = a
        t, b = r.choice([30, 45, 60, 75]), r.choice([25, 40, 60])
        if r.random() < .3:
            t = b = a
        s['margin'] = given_margin(r, [t, a, b, l])
    if numbers:
        if r.random() < .25 * share:
            s['off'] = r.choice([0, 1, 3, 9, 40, 99])
        if r.random() < .35 * share:
            s['sty'] = r.choice(['roman', 'arabic'])
        if r.random() < .3 * share:
            s['reset'] = r.random() < .85
    return s


def range_text(r, n=8):
    out = []
    for _ in range(r.choice([1, 1, 2])):
        x = r.random()
        a = r.randrange(n)
        if x < .35:
            out.append(str(a))
        else:
            b = r.choice(['', str(a + r.randint(0, 5))])
            a = r.choice(['', str(a)])
            out.append(a + ':' + b + r.choice(['', '', ':2', ':3', ':1']))
    if r.random() < .25:
        out = [r.choice([' ', '']) + x.replace(':', r.choice([' : ', ': ', ':'])) + r.choice([' ', '']) for x in out]
    return ','.join(out)


def random_scenario(r, **kw):
    nr = r.randint(0, 4)
    runs = []
    for _ in range(nr):
        x, w = r.choice([('left', None), (None, 'left'), ('right', 'right'), (0, 'full'), (None, 'full'), (90, 140), ('left', 140)])
        y, h = r.choice([(None, 'top'), ('bottom', 'bottom'), ('top', None), (0, 'full'), (12, 30), ('bottom', 20), (40, 'top'), ('top', 40)])
        runs.append(dict(x=x, y=y, w=w, h=h, right=r.random() < .3, n=r.choice([1, 1, 2, 3])))
    base = random_settings(r, .5)
    base.pop('reset', 0)
    base.setdefault('size', r.choice([[420, 300], 330]))
    base.setdefault('margin', [40, 80])
    base.setdefault('rot', r.random() < .2)
    names = list(range(nr))
    secs = []
    for _ in range(r.randint(1, 5)):
        pars = [(r.choice([1, 1, 2, 3, 7, 15]), r.random() < .3, r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 2, 4, 8, 14]))]
        secs.append(dict(set=random_settings(r, .6), runs=r.sample(names, r.randint(0, nr)), pars=pars))
    rules = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        rules.append(dict(pages=range_text(r), set=random_settings(r, r.choice([0, 1]), numbers=False), exc=r.sample(names, r.randint(0, min(2, nr))),
                          inc=[r.choice(names) for _ in range(r.randint(0, 2))] if nr else []))
    return dict(base=base, sections=secs, rules=rules, runs=runs)


def numbers_scenario(first, count):
    """Sections of one page with a number each."""
    return dict(base=dict(size=[420, 300], margin=[40, 80], rot=False, sty='roman'), runs=[], rules=[],
                sections=[dict(set=dict(off=first - 1), runs=[], pars=[(1, False, 1)])] +
                [dict(set=dict(off=first - 1), runs=[], pars=[(1, False, 1)]) for _ in range(count - 1)])


def history(sc):
    """Numbers written through the interface of PDF: ops ['add'], ['go', i], ['set', off, sty], ['write']."""
    from pdfme import PDF
    pdf = PDF(page_size=(400, 400), margin=30, font_family='Courier', font_size=10, **sc.get('args', {}))
    off, sty = sc.get('args', {}).get('page_numbering_offset', 0), sc.get('args', {}).get('page_numbering_style', 'arabic')
    if sc.get('footer'):
        pdf.add_running_section({'content': [{'.': ['f0p', {'var': '$page'}, 'z']}]}, 200, 20, 30, 375)
    cur, made, n, want = None, 0, 0, []
    for op in sc['ops']:
        if op[0] == 'add':
            pdf.add_page()
            cur = (made, off, sty)
            if sc.get('footer'):
                want.append(('f', made) + cur)
            made += 1
        elif op[0] == 'go':
            if made:
                pdf.page_index = op[1] % made
                cur = (op[1] % made, off, sty)
        elif op[0] == 'set':
            off, sty = op[1], op[2]
            pdf.page_numbering_offset, pdf.page_numbering_style = off, sty
        elif cur:
            n += 1
            text = ['t%dp' % n, {'var': '$page'}, 'z']
            if op[0] == 'write':
                pdf.text({'.': text})
            elif op[0] == 'table':
                pdf.table([[{'.': text}, 'x']])
            else:
                pdf.content({'content': [{'.': text}]})
            want.append(('t', n) + cur)
    data = sut.out(pdf)
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return [dict(ev='def', base={}, sections=[], rules=[], runs=[]), dict(ev='malformed', rule=e.rule)]
    out = [dict(ev='def', base={}, sections=[], rules=[], runs=[])]
    seen = {}
    for i, page in enumerate(v.pages):
        for w in observe.words(page):
            m = re.match(r'^([tf])(\d+)p(.*)z$', w.s)
            if m:
                k = (m.group(1), int(m.group(2)) if m.group(1) == 't' else i)
                seen[k] = (i, m.group(3))
    top = -1
    for a, b, i, off, sty in want:
        page, text = seen.get((a, b), (0, 'nothing'))
        out.append(dict(ev='wrote', i=i, off=off, sty=sty, text=text if page == i else 'on page %d' % page, back=i < top))
        top = max(top, i)
    return out


def random_history(r):
    ops = [['add']]
    made = 1
    for _ in range(r.randint(2, 14)):
        x = r.random()
        if x < .3:
            ops.append(['add'])
            made += 1
        elif x < .5:
            ops.append(['go', r.randrange(made)])
        elif x < .65:
            ops.append(['set', r.choice([0, 1, 5, 48, 400]), r.choice(['roman', 'arabic'])])
            ops.append(r.choice([['add'], ['go', r.randrange(made)]]))
            made += ops[-1] == ['add']
        else:
            ops.append([r.choice(['write', 'write', 'content', 'table'])])
    return dict(ops=ops, footer=r.random() < .5, args=r.choice([{}, dict(page_numbering_style='roman'), dict(page_numbering_offset=7)]))
