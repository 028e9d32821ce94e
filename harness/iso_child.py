"""Process in which histories of builds run (spec/Iso.tla).  Every request is served by a fork of a process that has built nothing."""
import hashlib
import io
import json
import os
import random
import re
import sys
import threading

import gen
import sut
from sut import mpt

UUID = re.compile(r'^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$')


# -- definitions ---------------------------------------------------------------
class Maker:
    """Turns what JSON holds into a definition.  Parts are the same object everywhere, or (apart) never."""

    def __init__(self, parts, apart):
        self.parts, self.apart, self.made = parts, apart, {}

    def __call__(self, o):
        if isinstance(o, str):
            return gen.image_file(o) if o.startswith('@img:') else o
        if isinstance(o, list):
            return [self(x) for x in o]
        if isinstance(o, dict):
            if '@ref' in o:
                k = o['@ref']
                if self.apart:
                    return self(self.parts[k])
                if k not in self.made:
                    self.made[k] = self(self.parts[k])
                return self.made[k]
            if '@io' in o:
                with open(gen.image_file(o['@io']), 'rb') as f:
                    return io.BytesIO(f.read())
            if '@tuple' in o:
                return tuple(self(x) for x in o['@tuple'])
            return {k: self(v) for k, v in o.items()}
        return o


def fingerprint(o):
    def text(o):
        if isinstance(o, dict):
            return '{%s}' % ','.join('%r:%s' % (k, text(v)) for k, v in o.items())
        if isinstance(o, (list, tuple)):
            return '%s[%s]' % (type(o).__name__, ','.join(text(x) for x in o))
        if isinstance(o, io.BytesIO):
            return 'io' + hashlib.sha1(o.getvalue()).hexdigest()
        return type(o).__name__ + repr(o)
    return digest(text(o))


def digest(o):
    return hashlib.sha1(repr(o).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


# -- what a reader sees ----------------------------------------------------------
def near(v):
    return round(float(v), 2) + 0.0


def aspects(data):
    try:
        v = sut.View(data)
    except sut.Bad as e:
        return dict(pages='malformed', text=str(e.rule), graphics='', images='', links='', outline='')
    pdf = v.pdf
    number = {r: n for n, (r, _) in enumerate(pdf.pages())}
    text, graphics, images, links, sizes = [], [], [], [], []
    names = dests(pdf)

    def where(d):
        d = pdf.get(d)
        if isinstance(d, (bytes, str)):
            d = names.get(bytes(d) if isinstance(d, bytes) else d.encode('latin-1'), 'lost')
        if isinstance(d, list):
            return [number.get(int(d[0]), -1)] + [near(x) if not isinstance(x, str) else str(x) for x in d[1:]]
        return d
    for n, page in enumerate(v.pages):
        sizes.append([near(x) for x in page.mediabox])
        for m in page.marks:
            if m['t'] == 'text':
                text.append((n, page.base(m['font']), near(m['size']), near(m['x']), near(m['y']), near(m['w']), tuple(m['color']), near(m['rise']), m['s'].hex()))
            elif m['t'] == 'image':
                s = page.xobjects[m['name']][1]
                images.append((n, near(m['x']), near(m['y']), near(m['w']), near(m['h']), s.dict['Width'], s.dict['Height'], digest(s.raw)))
            else:
                graphics.append((n, m['t']) + tuple(repr(m[k]) if k in ('color', 'dash') else near(m[k]) for k in sorted(m) if k != 't'))
        for a in page.annots:
            act = pdf.get(a.get('A'))
            links.append((n, [near(x) for x in a['Rect']], str(act.get('URI')) if isinstance(act, dict) else '', repr(where(a.get('Dest')))))
    out = []

    def walk(o, depth):
        while o is not None:
            d = pdf.get(o)
            out.append((depth, str(d.get('Title')), repr(where(d.get('Dest')))))
            if len(out) > 500:
                return
            if 'First' in d:
                walk(d['First'], depth + 1)
            o = d.get('Next')
    top = pdf.get(pdf.root.get('Outlines')) or {}
    walk(top.get('First'), 0)
    known = sorted((k.decode('latin-1'), repr(where(x))) for k, x in names.items() if not UUID.match(k.decode('latin-1')))
    return dict(pages='%d %s' % (len(v.pages), digest(sizes)), text=digest(text), graphics=digest(graphics), images=digest(images),
                links=digest((links, known)), outline=digest(out))


def dests(pdf):
    out = {}

    def walk(o):
        d = pdf.get(o)
        if not isinstance(d, dict):
            return
        n = pdf.get(d.get('Names')) or []
        for i in range(0, len(n) - 1, 2):
            out[bytes(n[i]) if isinstance(n[i], bytes) else str(n[i]).encode('latin-1')] = pdf.get(n[i + 1])
        for k in pdf.get(d.get('Kids')) or []:
            walk(k)
    names = pdf.get(pdf.root.get('Names')) or {}
    if 'Dests' in names:
        walk(names['Dests'])
    return out


# -- builds ----------------------------------------------------------------------
class Build:
    """A build of a definition: a document at once, or calls one by one."""

    def __init__(self, d):
        self.d, self.k, self.pdf = d, 0, None

    @property
    def steps(self):
        return len(self.d['calls']) + 2 if 'calls' in self.d else 1

    def step(self):
        """Aspects after the last step, None before."""
        try:
            return self.go()
        except Exception as e:
            self.k = self.steps
            return dict(pages='error', text=type(e).__name__ + ' ' + re.sub('0x[0-9a-f]+', '', str(e))[:80], graphics='', images='', links='', outline='')

    def go(self):
        k, self.k = self.k, self.k + 1
        if 'doc' in self.d:
            return aspects(sut.build(self.d['doc'], self.d.get('context')))
        if k == 0:
            from pdfme import PDF
            self.pdf = PDF(**self.d['set'])
            self.pdf.formats = self.d['formats']
            self.pdf.add_page()
            return None
        if k <= len(self.d['calls']):
            name, args, kw = self.d['calls'][k - 1]
            if name == 'image_io':
                self.pdf.image(*args, **kw)
            else:
                getattr(self.pdf, name)(*args, **kw)
            return None
        return aspects(sut.out(self.pdf))


def history(req):
    make = Maker(req['parts'], False)
    defs = [make(d) for d in req['docs']]
    before = [fingerprint(d) for d in defs]
    ev = []
    if req['how'] == 'steps':
        b = {}
        for i in req['sched']:
            new = i not in b
            if new:
                b[i] = Build(defs[req['builds'][i] - 1])
                ev.append(dict(ev='begin', b=i + 1, doc=req['builds'][i]))
            if b[i].k >= b[i].steps:
                continue
            r = b[i].step()
            if r is not None:
                ev.append(dict(ev='end', b=i + 1, res=r))
            elif not new:
                ev.append(dict(ev='step', b=i + 1))
    else:
        ev = threads(req, defs)
    for k, d in enumerate(defs, 1):
        ev.append(dict(ev='check', doc=k, before=before[k - 1], after=fingerprint(d)))
    return ev + [dict(ev='end_')]


def threads(req, defs):
    """Every build in a thread; who goes on is decided at calls (or lines) of the library, by a seed."""
    r = random.Random(req['seed'])
    n = len(req['builds'])
    sems = [threading.Semaphore(0) for _ in range(n)]
    alive, done, ev = set(range(n)), threading.Event(), []
    root = os.path.realpath(os.path.join(sut.REPO, 'pdfme'))
    mine = {}
    lines, share = req['lines'], req['share']

    def run(i):
        sems[i].acquire()
        ev.append(dict(ev='begin', b=i + 1, doc=req['builds'][i]))

        def point():
            if r.random() < share:
                j = r.choice(sorted(alive))
                if j != i:
                    sems[j].release()
                    sems[i].acquire()
                    if len(ev) < 400:
                        ev.append(dict(ev='step', b=i + 1))

        def local(frame, event, arg):
            if event == 'line':
                point()
            return local

        def tracer(frame, event, arg):
            code = frame.f_code
            if code not in mine:
                mine[code] = os.path.realpath(code.co_filename).startswith(root)
            if not mine[code]:
                return None
            point()
            return local if lines else None
        b = Build(defs[req['builds'][i] - 1])
        res = None
        while res is None:
            sys.settrace(tracer)
            try:
                res = b.step()
            finally:
                sys.settrace(None)
        ev.append(dict(ev='end', b=i + 1, res=res))
        alive.discard(i)
        if alive:
            sems[r.choice(sorted(alive))].release()
        else:
            done.set()
    for i in range(n):
        threading.Thread(target=run, args=(i,), daemon=True).start()
    sems[0].release()
    done.wait()
    return ev


def alone(req):
    b = Build(Maker(req['parts'], True)(req['doc']))
    res = None
    while res is None:
        res = b.step()
    return res


def serve():
    out = os.fdopen(os.dup(1), 'w')
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    os.dup2(devnull.fileno(), 2)
    gen.image_dir()
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                gen._dir = req['images']
                res = (alone if req['kind'] == 'alone' else history)(req)
                out.write(json.dumps(dict(ok=res)) + '\n')
            except BaseException as e:
                out.write(json.dumps(dict(error='%s: %s' % (type(e).__name__, str(e)[:300]))) + '\n')
            out.flush()
            os._exit(0)
        os.waitpid(pid, 0)


if __name__ == '__main__':
    serve()
