"""Running TLC: exhaustive model runs (design + scenario emission) and trace verdicts."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def run(module, cfg, workdir, env=None, workers=1, timeout=600, heap='3g', extra=()):
    """Run TLC on spec/<module>.tla with config file spec/<cfg>.

    Returns dict(states, distinct, depth, lines, ok, text)."""
    meta = tempfile.mkdtemp(prefix='meta-', dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + workdir,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
           '-config', os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timeout on %s after %ss' % (module, timeout)) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = p.stdout
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    res = dict(text=text, rc=p.returncode, ok=p.returncode == 0, states=0, distinct=0)
    if m:
        res['states'] = int(m[-1][0].replace(',', ''))
        res['distinct'] = int(m[-1][1].replace(',', ''))
    out = []
    for line in text.splitlines():
        # PrintT of a string prints it quoted, with escapes
        if line.startswith('"@'):
            try:
                s = json.loads(line)
            except ValueError:
                s = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            out.append(s[1:])
    res['lines'] = out
    if not res['ok'] and p.returncode not in (10, 11, 12, 13, 75, 76, 77):
        raise TlcError('TLC failed (%d) on %s:\n%s\n%s' % (p.returncode, module, text[-4000:], p.stderr[-2000:]))
    return res


def design(module, cfg, workdir, **kw):
    """Exhaustive run; any violated invariant/property of the specification itself is a machinery error."""
    r = run(module, cfg, workdir, **kw)
    if not r['ok']:
        raise TlcError('the specification %s violates its own properties:\n%s' % (module, r['text'][-6000:]))
    return r


def clamp(o):
    """TLC integers have 32 bits; anything bigger is clamped (no legitimate value comes near)."""
    if isinstance(o, bool):
        return o
    if isinstance(o, int):
        return max(-2000000000, min(2000000000, o))
    if isinstance(o, float):
        raise TypeError('float in a trace')
    if isinstance(o, (list, tuple)):
        return [clamp(x) for x in o]
    if isinstance(o, dict):
        return {k: clamp(v) for k, v in o.items()}
    return o


def judge(module, traces, workdir, cfg=None, jobs=8, timeout=600, env=None, heap='3g'):
    """Let TLC decide every trace.

    Returns (verdicts, states, transitions); a verdict is
    (sorted violated clauses, [(clause, event index)], situations exercised)."""
    if not traces:
        return [], 0, 0
    cfg = cfg or module + '.cfg'
    verdicts = [None] * len(traces)
    texts = [json.dumps(clamp(t)) for t in traces]
    order = sorted(range(len(traces)), key=lambda i: -len(texts[i]))
    nb = max(1, min(jobs, len(traces)))
    bins = [[] for _ in range(nb)]
    load = [0] * nb
    for i in order:
        k = load.index(min(load))
        bins[k].append(i)
        load[k] += len(texts[i]) + 200
    seq = iter(range(10 ** 6))

    def go(idx, budget):
        f = os.path.join(workdir, 'traces-%s-%d.json' % (module, next(seq)))
        with open(f, 'w') as fh:
            fh.write('[' + ',\n'.join(texts[i] for i in idx) + ']')
        e = dict(env or {})
        e['TRACES'] = f
        try:
            r = run(module, cfg, workdir, env=e, workers=1, timeout=timeout, heap=heap)
        finally:
            os.unlink(f)
        st, tr = r['distinct'], r['states']
        for line in r['lines']:
            if line.startswith('VERDICT '):
                v = json.loads(line[8:])
                at = sorted((b['l'], b['c']) for b in v['bad'])
                verdicts[idx[v['tid'] - 1]] = (sorted({c for _, c in at}), at, list(v['hit']))
        left = [i for i in idx if verdicts[i] is None]
        if r['ok'] and left:
            raise TlcError('no verdict for trace %d of %s:\n%s' % (left[0], module, r['text'][-3000:]))
        if not r['ok'] and left:
            # the specification cannot be evaluated on some trace: the observation is outside
            # every value the specification gives meaning to
            bad = left[0]
            if len(idx) == 1 or budget <= 0:
                verdicts[bad] = (['OutsideSpecification'], [(0, 'OutsideSpecification')], [])
                errors.append((bad, r['text'][-3000:]))
                left = left[1:]
                if budget <= 0:
                    for i in left:
                        verdicts[i] = ([], [], [])
                    left = []
            if left:
                h = (len(left) + 1) // 2
                for part in (left[:h], left[h:]):
                    if part:
                        s2, t2 = go(part, budget - 1)
                        st += s2
                        tr += t2
        return st, tr
    errors = []
    st = tr = 0
    with concurrent.futures.ThreadPoolExecutor(nb) as ex:
        for a, b in ex.map(lambda b: go(b, 9), bins):
            st += a
            tr += b
    judge.errors = errors
    return verdicts, st, tr


judge.errors = []
