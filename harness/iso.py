"""Scenarios of builds in one process (spec/Iso.tla), run by iso_child.

Scenario: parts (what definitions share), docs (definitions that refer to parts), builds (number of the definition of every build),
how (steps with a schedule, or threads with a seed)."""
import atexit
import copy
import json
import os
import subprocess
import sys

import gen
import sut

SEEDS = ('0', '7')
_servers = {}


class Server:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, os.path.join(sut.HERE, 'iso_child.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        atexit.register(self.p.kill)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(dict(req, images=gen.image_dir())) + '\n')
            self.p.stdin.flush()
            r = json.loads(self.p.stdout.readline())
        except BaseException:
            self.p.kill()
            _servers.clear()
            raise
        if 'error' in r:
            raise RuntimeError(r['error'])
        return r['ok']


def server(seed):
    key = (os.getpid(), seed)
    if key not in _servers:
        _servers[key] = Server(seed)
    return _servers[key]


def images(o):
    """Make the image files here, so that every process reads the same."""
    if isinstance(o, str) and o.startswith('@img:'):
        gen.image_file(o)
    elif isinstance(o, dict):
        for v in o.values():
            images(v)
    elif isinstance(o, list):
        for v in o:
            images(v)


def trace(sc):
    images([sc['parts'], sc['docs']])
    ev = [dict(ev='def', docs=len(sc['docs']), builds=len(sc['builds']))]
    for seed in SEEDS:
        for k, d in enumerate(sc['docs'], 1):
            ev.append(dict(ev='alone', doc=k, seed=seed, res=server(seed).ask(dict(kind='alone', parts=sc['parts'], doc=d))))
    return ev + server(sc['hash']).ask(dict(sc, kind='history'))


# -- random --------------------------------------------------------------------
STYLES = [{'s': 9, 'c': 'red'}, {'b': True, 'margin_bottom': 7}, {'s': 12, 'c': 0.4, 'margin_left': 9}, {'u': True, 'bg': 'yellow'}, {'cell_margin': 2, 's': 8},
          {'text_align': 'r', 'line_height': 1.4}, {'indent': 12, 'text_align': 'j'}, {'list_text': '- ', 'list_style': {'c': 'blue', 'b': True}},
          {'i': True, 'f': 'Times'}, {'cell_fill': '#eee', 'border_width': 1}]


def plain(o):
    """Outlines of one level only."""
    if isinstance(o, dict):
        if 'outline' in o:
            o['outline'] = {'level': 1, 'text': o['outline']['text']}
        for v in o.values():
            plain(v)
    elif isinstance(o, list):
        for v in o:
            plain(v)
    return o


class Docs:
    def __init__(self, r, io=True):
        self.r, self.io = r, io
        self.parts = []
        self.kinds = {}
        self.g = gen.Gen(r, depth=1, images=True)
        for st in r.sample(STYLES, 4):
            self.add('style', st)
        self.add('widths', [1, 2])
        self.add('borders', [{'pos': 'h0', 'width': 2, 'color': 'red', 'style': 'dashed'}])
        self.add('fills', [{'pos': ';0', 'color': 'yellow'}])
        self.add('note', {'.': 'shared note', 'style': {'b': True}})
        for _ in range(r.randint(1, 3)):
            self.add('element', self.element())
        for _ in range(2):
            self.add('cell', self.cell())
        self.add('formats', {'fmt1': {'c': 'green', 'i': True}, 'own': {'s': 13}})
        self.add('content', [self.element(), self.element()])
        self.add('run', {'width': 'full', 'height': 'top', 'x': 'left', 'y': 'top', 'content': [{'.': ['shared head ', {'var': '$page'}]}]})

    def add(self, kind, o):
        self.parts.append(self.fix(plain(o)))
        self.kinds.setdefault(kind, []).append(len(self.parts) - 1)

    def ref(self, kind):
        return {'@ref': self.r.choice(self.kinds[kind])}

    def styled(self, d):
        if self.r.random() < .4:
            d['style'] = self.ref('style')
        elif self.r.random() < .2:
            d['style'] = 'own'
        return d

    def cell(self):
        r = self.r
        x = r.random()
        if x < .4:
            return self.g.words(1, 5)
        if x < .5 and 'cell' in self.kinds:
            return self.ref('cell')
        return self.styled({'.' + self.g.inline_style(): [self.g.words(1, 5), {'var': '$page'}] if r.random() < .3 else [self.g.words(1, 4)]})

    def element(self, depth=0):
        r = self.r
        x = r.random()
        if x < .2 and 'element' in self.kinds:
            return self.ref('element')
        if x < .45:
            d = self.g.par()
            if r.random() < .3:
                d['style'] = self.ref('style')
            return d
        if x < .65:
            d = {'table': [[self.cell(), self.cell()] for _ in range(r.randint(1, 3))]}
            for k in ('widths', 'borders', 'fills'):
                if r.random() < .4 and k in self.kinds:
                    d[k] = self.ref(k)
            return self.styled(d)
        if x < .8 and depth < 2:
            d = {'content': [self.element(depth + 1) for _ in range(r.randint(1, 3))]}
            if r.random() < .3 and 'content' in self.kinds:
                d['content'] = self.ref('content')
            if r.random() < .4:
                d['cols'] = {'count': 2}
            return self.styled(d)
        if x < .87:
            return {'image': '@img:jpg:%d:8' % r.choice([40, 44]), 'style': {'min_height': 5}}
        if x < .93 and self.io:
            # the same name stands for other bytes in other documents
            return {'image': {'@io': '@img:%s:%d:8' % (r.choice(['jpg', 'jpg', 'png']), self.w)}, 'extension': 'jpg', 'image_name': 'picture', 'style': {'min_height': 5}}
        return {'.': [self.g.words(1, 6), {'footnote': self.ref('note') if r.random() < .6 and 'note' in self.kinds else self.g.words(1, 3)}]}

    w = 40

    def fix(self, o):
        """Extensions as the bytes are."""
        if isinstance(o, dict):
            if isinstance(o.get('image'), dict) and '@io' in o['image']:
                o['extension'] = o['image']['@io'].split(':')[1]
            for v in o.values():
                self.fix(v)
        elif isinstance(o, list):
            for v in o:
                self.fix(v)
        return o

    def document(self, w):
        r = self.r
        self.w = w
        d = self.g.document(1, 1)
        d['sections'] = []
        for _ in range(r.choice([1, 2])):
            s = {'content': self.ref('content') if r.random() < .2 else [self.element() for _ in range(r.randint(1, 4))]}
            if d.get('running_sections') and r.random() < .7:
                s['running_sections'] = ['head']
            d['sections'].append(self.styled(s) if r.random() < .3 else s)
        d['formats'] = self.ref('formats') if r.random() < .5 else {'fmt1': {'c': r.choice(['blue', 'red'])}, 'own': {'s': r.choice([8, 14])}}
        if 'running_sections' in d and r.random() < .5:
            d['running_sections'] = dict(d['running_sections'], head=self.ref('run'))
        return self.fix(plain(dict(doc=d, context=r.choice([None, {'v': 'x'}]))))

    def calls(self, w, n=4):
        r = self.r
        self.w = w
        out = []
        for _ in range(n):
            x = r.random()
            if x < .4:
                kw = {}
                if r.random() < .3:
                    kw = dict(list_text='* ', list_style={'@ref': self.kinds['style'][0]})
                out.append(['text', [self.ref('element_text') if 'element_text' in self.kinds and r.random() < .4 else self.g.inline()], kw])
            elif x < .65:
                e = {'table': [[self.cell(), self.cell()] for _ in range(r.randint(1, 3))]}
                kw = {k: self.ref(k) for k in ('widths', 'borders', 'fills', 'style') if r.random() < .4}
                out.append(['table', [e['table']], kw])
            elif x < .9:
                out.append(['content', [self.styled({'content': self.ref('content') if r.random() < .4 else [self.element()]})], {}])
            elif x < .95:
                out.append(['add_page', [], {}])
            else:
                out.append(['image', ['@img:jpg:%d:8' % w], {'width': 60}])
        return self.fix(plain(dict(calls=out, set=dict(page_size=r.choice(['a5', 'a4']), margin=40, font_family=r.choice(gen.FONTS), font_size=r.choice([9, 11])),
                                   formats=self.ref('formats') if r.random() < .5 else {'fmt1': {'b': True}, 'own': {'s': r.choice([8, 14])}})))


def random_scenario(r, how=None):
    how = how or r.choice(['steps', 'sequence', 'threads', 'threads'])
    m = Docs(r, io=how != 'threads')
    n = r.choice([2, 3])
    docs = [m.calls(40 + k) if how == 'steps' or r.random() < .2 else m.document(40 + k) for k in range(n)]
    builds = [r.randint(1, n) for _ in range(r.choice([2, 3, 4]))]
    sc = dict(parts=m.parts, docs=docs, builds=builds, hash=r.choice(SEEDS), how='steps')
    if how == 'threads':
        lines = r.random() < .25
        sc.update(how='threads', seed=r.randrange(1 << 30), lines=lines, share=r.choice([.001, .01]) if lines else r.choice([.003, .02, .1]))
        sc['builds'] = builds[:3]
    elif how == 'sequence':
        sc['sched'] = [b for b in range(len(builds)) for _ in range(6)]
    else:
        sc['sched'] = [b for b in range(len(builds)) for _ in range(6)]
        r.shuffle(sc['sched'])
    return sc


def of_model(r, m, pool):
    base = copy.deepcopy(r.choice(pool))
    return dict(base, builds=m['docs'], sched=[b - 1 for b in m['sched']], hash=r.choice(SEEDS), how='steps')


def pool(r, n):
    """Definitions for the schedules of the model: 1 and 2 share parts, 3 shares nothing with them."""
    out = []
    for _ in range(n):
        m = Docs(r)
        docs = [m.calls(40), m.calls(41)]
        o = Docs(r)
        k = len(m.parts)

        def shift(x):
            if isinstance(x, dict):
                return {'@ref': x['@ref'] + k} if '@ref' in x else {a: shift(b) for a, b in x.items()}
            return [shift(y) for y in x] if isinstance(x, list) else x
        docs.append(shift(o.calls(42)))
        out.append(dict(parts=m.parts + shift(o.parts), docs=docs))
    return out
