"""Scenarios of documents with footnotes (spec/Notes.tla) and how they are run and observed.

Sections: cols, gap, els; elements: ['p', words], ['t', rows of cells (words)], ['g', [words, ..]], ['b', [words, ..]], ['i', ratio];
words: a list of [note or 0, separator after]; note: [number of words, form]."""
import re

import flow
import observe
import sut
from sut import mpt

TOK = re.compile(r'([wn])(\d+)(?:x(\d+))?z')


class Plan:
    def __init__(self, sc):
        self.sc = sc
        W, H = sc['page']
        M = sc['margin']
        self.width = W - M[1] - M[3]
        self.toks, self.notes, self.par, self.el = [], [], 0, 0
        self.cols, tall = [], []
        self.doc = dict(style=dict(f='Courier', s=10, page_size=[W, H], margin=M, margin_bottom=5, margin_top=0), formats={'strong': {'b': 1}}, sections=[])
        for self.sec, s in enumerate(sc['secs'], 1):
            n = s.get('cols', 1)
            gap = s.get('gap', 0)
            cw = (self.width - gap * (n - 1)) / n
            self.cols.append([mpt(M[3] + k * (cw + gap)) for k in range(n)])
            self.high = self.group = 0
            d = {'content': [self.element(e) for e in s['els']]}
            if n > 1:
                d['cols'] = {'count': n, 'gap': gap}
            self.doc['sections'].append(d)
            tall.append(self.high + self.group)
        self.def_ = dict(ev='def', toks=self.toks, notes=self.notes, cols=self.cols, tall=mpt(max(tall)),
                         area=dict(x1=mpt(M[3]), x2=mpt(W - M[1]), top=mpt(H - M[0]), bot=mpt(M[2])))

    def note(self, n, form):
        self.notes.append(n)
        w = ['n%dx%dz' % (len(self.notes), i + 1) for i in range(n)]
        per = int((self.width - 16) // 6)
        lines, room = 1, per
        for x in w:
            if room < len(x):
                lines, room = lines + 1, per
            room -= len(x) + 1
        self.high += lines * 13 + 9
        t = ' '.join(w)
        return {'footnote': {'str': t, 'list': [w[0]] + [{'.b': ' ' + x} for x in w[1:]], 'dict': {'.': t}, 'style': {'.': [t], 'style': {'b': 1}},
                             'named': {'.': t, 'style': 'strong'}, 'tuple': (t,)}[form]}

    def words(self, ws, table=False, loose=False):
        self.par += 1
        out = []
        for note, sep in ws:
            self.toks.append(dict(par=self.par, el=self.el, sec=self.sec, loose=loose, table=table, note=len(self.notes) + 1 if note else 0))
            out.append('w%dz' % len(self.toks))
            if note:
                out.append(self.note(*note))
            out.append(sep)
        if out and out[-1] in (' ', '\n'):
            out.pop()
        return {'.': out}

    def element(self, e):
        self.el += 1
        if e[0] == 'p':
            return self.words(e[1])
        if e[0] == 't':
            return {'table': [[self.words(c, table=True) for c in row] for row in e[1]]}
        if e[0] == 'g':
            # notes have to leave room for all of a group
            self.group = max(self.group, sum(13 * len(c) for c in e[1]))
            return {'group': [self.words(c, loose=True) for c in e[1]]}
        if e[0] == 'b':
            out = []
            for c in e[1]:
                out.append(self.words(c))
                self.el += 1
            return {'content': out}
        pw = 300 + self.el
        return {'image': flow.tiny_jpeg(pw, max(1, int(pw * e[1])))}


def pieces(w):
    """Parts of a word with the same rise."""
    out = []
    for g in w.gs:
        if out and (out[-1][-1].rise > .01) == (g.rise > .01):
            out[-1].append(g)
        else:
            out.append([g])
    return out


def trace(sc):
    p = Plan(sc)
    try:
        data = sut.build(p.doc)
    except Exception as e:
        if 'footnotes are very large' in str(e) or 'could not be fitted' in str(e):
            return [p.def_, dict(ev='refused')]
        raise
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return [p.def_, dict(ev='malformed', rule=e.rule)]
    out = [p.def_]
    for page in v.pages:
        toks, words, raised, other = [], [], [], 0
        for w in observe.words(page):
            for gs in pieces(w):
                s = ''.join(g.c for g in gs)
                if gs[0].rise > .01:
                    raised.append((s, gs))
                    continue
                seen = 0
                for m in TOK.finditer(s):
                    f, l = gs[m.start()], gs[m.end() - 1]
                    at = dict(x1=mpt(f.x), x2=mpt(l.x + l.w), top=mpt(f.y + f.size), bot=mpt(f.y))
                    n = int(m.group(2))
                    if m.group(1) == 'w' and n <= len(p.toks) and m.group(3) is None:
                        toks.append(dict(at, k=n))
                    elif m.group(1) == 'n' and m.group(3) is not None and n <= len(p.notes):
                        words.append(dict(at, n=n, i=int(m.group(3))))
                    else:
                        continue
                    seen += len(m.group())
                other += seen != len(s)
        toks.sort(key=lambda a: a['k'])
        words.sort(key=lambda a: (-a['bot'], a['x1']))
        marks, labels = [], []
        for s, gs in raised:
            x, y = mpt(gs[0].x), mpt(gs[0].y)
            t = [a for a in toks if abs(a['x2'] - x) < 60 and abs(a['bot'] - y) < 60]
            n = [a for a in words if a['x1'] > x and abs(a['bot'] - y) < 60]
            if t:
                marks.append(dict(k=t[0]['k'], text=s))
            elif n:
                labels.append(dict(n=n[0]['n'], text=s, bot=y))
            else:
                other += 1
        labels.sort(key=lambda a: -a['bot'])
        out.append(dict(ev='page', toks=toks, marks=marks, words=words, labels=labels, other=other))
    return out + [dict(ev='end')]


# -- random documents --------------------------------------------------------
def random_words(r, n, share, brk=.15):
    return [[[r.choice([1, 1, 2, 3, 8, 14, 20]), r.choice(['str', 'str', 'list', 'dict', 'style', 'named', 'tuple'])] if r.random() < share else 0,
             '\n' if r.random() < brk else ' '] for _ in range(n)]


def held_back(r):
    """A group with notes too high for what is left of its column, and small elements with notes behind it."""
    page = r.choice([[400, 300], [420, 600], [330, 300]])
    word = lambda share: [1 if r.random() < share else 0, '\n']
    note = lambda w: [[r.choice([1, 2, 8]), 'str'] if w[0] else 0, w[1]]
    high = int((page[1] - 40) / 11)
    els = [['p', [note(word(.1)) for _ in range(r.randint(high // 2, high - 1))]]] if r.random() < .5 else [['p', [note(word(.1))]] for _ in range(r.randint(high // 2, high - 1))]
    for _ in range(r.choice([1, 1, 2])):
        els.append(['g', [[note(word(.3))] for _ in range(r.randint(2, high // 2))] + [[note([1, '\n'])]]])
        els += [['p', [note(word(.7)) for _ in range(r.choice([1, 1, 2]))]] for _ in range(r.randint(1, 5))]
    return dict(page=page, margin=[20, 20, 20, 20], secs=[dict(els=els, cols=2, gap=r.choice([0, 20]))])


def random_scenario(r):
    if r.random() < .12:
        return held_back(r)
    share = r.choice([.01, .03, .05, .1])
    secs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        els = []
        groups = r.random() < .3
        for _ in range(r.choice([1, 3, 6, 10])):
            x = r.random()
            if x < .5:
                els.append(['p', random_words(r, r.choice([1, 3, 10, 30, 60]), share)])
            elif x < .65 and not groups:
                cols = r.choice([1, 2, 3])
                els.append(['t', [[random_words(r, r.choice([1, 2, 6, 14]), share) for _ in range(cols)] for _ in range(r.choice([1, 2, 4]))]])
            elif x < .65:
                els.append(['g', [random_words(r, r.choice([1, 4, 8]), share) for _ in range(r.choice([1, 2, 3]))]])
            elif x < .8:
                els.append(['b', [random_words(r, r.choice([1, 4, 20]), share) for _ in range(r.choice([1, 2, 3]))]])
            elif x < .87:
                els.append(['i', r.choice([.1, .2, .3])])
            else:
                els.append(['p', random_words(r, r.choice([20, 40]), min(.5, share * 3), brk=.4)])
        s = dict(els=els)
        if r.random() < .3:
            s.update(cols=2, gap=20)
        secs.append(s)
    return dict(page=r.choice([[400, 300], [500, 420], [330, 300], [420, 600], [500, 600]]), margin=r.choice([[20, 20, 20, 20], [30, 25, 40, 35]]), secs=secs)
