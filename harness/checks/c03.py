"""C03: page tree and page geometry (spec/PageTree.tla)."""
import re

import observe
import sut
from pdfread import Bad, Pdf, Ref
from sut import mpt

NAMED = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'a3': (841.89, 1190.551), 'b5': (498.898, 708.661),
         'letter': (612, 792), 'legal': (612, 1008)}


def size_arg(s, r):
    """A page size in one of the notations of the public interface."""
    if not s:
        return None
    w, h = s[0] / 1000, s[1] / 1000
    for k, v in NAMED.items():
        if (mpt(v[0]), mpt(v[1])) == tuple(s):
            return k
    if w == h and r.random() < .5:
        return w
    return r.choice([list, tuple])((w, h))


def rot_arg(x):
    return None if x == '' else x == 'y'


def walk(data):
    ev = [dict(ev='walk')]
    try:
        view_pages = {}
        pdf = Pdf(data)
        v = sut.View(data)
        for p in v.pages:
            view_pages[p.ref] = p

        def go(ref, depth):
            if not isinstance(ref, Ref) or depth > 30:
                raise Bad('PageTreeIsATree')
            d = pdf.get(ref)
            if not isinstance(d, dict):
                raise Bad('PageTreeNode')
            par = d.get('Parent')
            par = int(par) if isinstance(par, Ref) else 0
            if d.get('Type') == 'Pages':
                c = d.get('Count')
                if not isinstance(c, int):
                    raise Bad('CountIsInteger')
                ev.append(dict(ev='node', id=int(ref), parent=par, count=c, nkids=len(d['Kids'])))
                for k in d['Kids']:
                    go(k, depth + 1)
                ev.append(dict(ev='up'))
            elif d.get('Type') == 'Page':
                ws = [w.s for w in observe.words(view_pages[int(ref)])]
                m = [int(re.fullmatch(r'p(\d+)', w).group(1)) for w in ws if re.fullmatch(r'p\d+', w)]
                ev.append(dict(ev='page', id=int(ref), parent=par, name=m[0] if len(m) == 1 else 0,
                               box=[mpt(x) for x in d['MediaBox']]))
            else:
                raise Bad('PageTreeNodeType')
        go(pdf.root['Pages'], 0)
    except Bad as e:
        return ev + [dict(ev='malformed', rule=e.rule)]
    return ev + [dict(ev='done')]


def trace(sc):
    import random
    from pdfme import PDF
    r = random.Random(sc['seed'])
    ops = sc['ops']
    e0 = ops[0]
    kw = dict(page_size=size_arg(e0['size'], r), rotate_page=e0['rot'] == 'y', margin=10)
    pdf = PDF(**kw)
    ev, n = [dict(e0)], 0

    def add(size, rot):
        nonlocal n
        a = {}
        if size or r.random() < .5:
            a['page_size'] = size_arg(size, r)
        if rot or r.random() < .5:
            a['rotate_page'] = rot_arg(rot)
        pdf.add_page(**a)
        n += 1
        pdf.text('p%d' % n)
        ev.append(dict(ev='add', size=size, rot=rot))
    for o in ops[1:]:
        if o['ev'] == 'setup':
            pdf.setup_page(page_size=size_arg(o['size'], r), rotate_page=rot_arg(o['rot']))
            ev.append(dict(o))
        elif o['ev'] == 'add':
            add(o['size'], o['rot'])
        elif o['ev'] == 'many':
            for _ in range(o['n']):
                add([], '')
        else:
            ev += walk(sut.out(pdf))
    return ev


def run(ctx):
    hist = ctx.scenarios('PageTreeMC', ctx.n('PageTreeMC.cfg', 'PageTreeMC_thorough.cfg'))
    ctx.design('PageTreeMC', 'PageTreeMC_fan2.cfg')
    ctx.rng.shuffle(hist)
    sc = [dict(ops=h, seed=ctx.rng.randrange(10 ** 6)) for h in hist[:ctx.n(700, 6000)]]
    sizes = [[mpt(a), mpt(b)] for a, b in NAMED.values()] + [[300000, 300000], [123456, 77000], [80000, 900000], [1, 1]]
    sizes = sizes[:-1]
    r = ctx.rng
    for i in range(ctx.n(120, 900)):
        ops = [dict(ev='setup', size=r.choice(sizes), rot=r.choice('yn'))]
        for _ in range(r.choice([3, 6, 12])):
            x = r.random()
            if x < .3:
                s, t = r.choice([[]] + sizes), r.choice(['', 'y', 'n'])
                ops.append(dict(ev='setup', size=s, rot=t))
            elif x < .7:
                ops.append(dict(ev='add', size=r.choice([[], [], r.choice(sizes)]), rot=r.choice(['', '', 'y', 'n'])))
            elif x < .85:
                ops.append(dict(ev='many', n=r.choice([1, 2, 5, 6, 7, 11, 36])))
            elif any(o['ev'] in ('add', 'many') for o in ops):
                ops.append(dict(ev='write'))
        ops += [dict(ev='add', size=[], rot=''), dict(ev='write')]
        sc.append(dict(ops=ops, seed=r.randrange(10 ** 6)))
    # every number of pages around the places where the shape of the tree changes
    for n in ctx.n(list(range(1, 14)) + [35, 36, 37, 38, 42, 43, 215, 216, 217, 223],
                   list(range(1, 80)) + list(range(205, 225)) + [430, 1295, 1296, 1297, 1303]):
        sc.append(dict(ops=[dict(ev='setup', size=[200000, 100000], rot='n'), dict(ev='many', n=n), dict(ev='write')], seed=n))
    items = ctx.run_traces('PageTreeTrace', trace, sc, limit=60)
    # (trees of several levels are judged too, but the writer may keep one level)
    ctx.need('page with its own size', 'page not rotated in a rotated setup', 'setup changed', 'written again')

    def corrupt(t):
        import copy
        for kind, field, f in (('page', 'parent', lambda v: v + 1), ('page', 'box', lambda v: [v[0], v[1], v[3] + 1000, v[2]]),
                               ('node', 'count', lambda v: v + 1), ('page', 'name', lambda v: v + 1)):
            c = copy.deepcopy(t)
            e = [e for e in c if e['ev'] == kind][-1]
            e[field] = f(e[field])
            yield kind + '.' + field, c
        c = copy.deepcopy(t)
        del c[[i for i, e in enumerate(c) if e['ev'] == 'page'][-1]]
        yield 'page dropped', c
    ctx.binding_selftest('PageTreeTrace', items[-6:], corrupt)
