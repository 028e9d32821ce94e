"""Check runner: design runs, scenario execution on the real code, verdicts by TLC, evidence."""
import concurrent.futures
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    sys.stderr = devnull        # the library prints tracebacks of images it rejects
    sys.stdout = devnull


def guarded(fn, arg, limit):
    """fn(arg) -> ('ok', result) | ('raise', text) | ('hang', '')."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = fn(arg)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return ('ok', r)
    except Hang:
        return ('hang', 'no result after %ss' % limit)
    except MemoryError:
        return ('hang', 'memory limit')
    except RecursionError as e:
        return ('raise', 'RecursionError ' + str(e)[:200])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-3:]))
        return ('raise', '%s: %s [%s]' % (type(e).__name__, str(e)[:300], where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _task(a):
    fn, arg, limit = a
    return guarded(fn, arg, limit)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []     # (clauses, scenario, trace, note)
        self.known_hit = []
        self.machinery = []
        self.hits = {}
        self.quick = tier != 'thorough'
        self.executed = 0

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -- design ----------------------------------------------------------
    def design(self, module, cfg=None, workers=8, timeout=700, **kw):
        r = tlc.design(module, cfg or module + '.cfg', self.work, workers=workers, timeout=timeout, **kw)
        self.states += r['distinct']
        self.transitions += r['states']
        self.extra.setdefault('design_runs', []).append(
            dict(module=module, config=cfg or module + '.cfg', distinct_states=r['distinct'], states_generated=r['states']))
        return r

    def scenarios(self, module, cfg=None, prefix='SCENARIO ', **kw):
        """Behaviours emitted by an exhaustive run of the specification."""
        kw.setdefault('workers', 1)
        r = self.design(module, cfg, **kw)
        lines = [x[len(prefix):] for x in r['lines'] if x.startswith(prefix)]
        # several workers print in any order
        return [json.loads(x) for x in (lines if kw['workers'] == 1 else sorted(lines))]

    def faults_shown(self, scenarios, faults):
        """Every fault of a design model must have shown in some behaviour (where the specification rejected it)."""
        shown = {}
        for s in scenarios:
            shown[s['fault']] = shown.get(s['fault'], 0) + 1
        self.extra['behaviours_of_the_design_by_fault'] = dict(self.extra.get('behaviours_of_the_design_by_fault', {}), **shown)
        self.machinery += ['the fault %s never shows' % f for f in faults if not shown.get(f)]

    # -- execution -------------------------------------------------------
    def execute(self, fn, scenarios, limit=20, maxhang=6, jobs=8):
        """Run fn on every scenario in worker processes; [(status, result)]."""
        out = []
        hangs = 0
        scenarios = list(scenarios)
        step = 400
        ex = concurrent.futures.ProcessPoolExecutor(jobs, initializer=_init_worker)
        try:
            for i in range(0, len(scenarios), step):
                part = scenarios[i:i + step]
                for r in ex.map(_task, [(fn, s, limit) for s in part], chunksize=max(1, min(16, len(part) // 16))):
                    out.append(r)
                    hangs += r[0] == 'hang'
                if hangs > maxhang:
                    break
        finally:
            ex.shutdown(cancel_futures=True)
        self.executed += len(out)
        return out

    # -- verdicts --------------------------------------------------------
    def judge(self, module, items, cfg=None, env=None, timeout=700):
        """items: [(scenario, trace)]; TLC gives each trace a verdict."""
        items = list(items)
        verdicts, st, tr = tlc.judge(module, [t for _, t in items], self.work, cfg=cfg, env=env, timeout=timeout)
        self.states += st
        self.transitions += tr
        self.traces += len(items)
        for (sc, t), (bad, at, hit) in zip(items, verdicts):
            for h in hit:
                self.hits[h] = self.hits.get(h, 0) + 1
            if bad:
                self.violations.append((bad, sc, t, at))
        if tlc.judge.errors:
            self.extra['evaluation_errors'] = [e[1] for e in tlc.judge.errors[:2]]
        return verdicts

    def need(self, *situations):
        """Situations the traces of this run must have exercised (non-vacuity)."""
        missing = [s for s in situations if not self.hits.get(s)]
        if missing and not self.violations:
            self.machinery.append('situations never exercised: ' + ', '.join(missing))

    def run_traces(self, module, fn, scenarios, limit=20, cfg=None, raises='Completes', hangs='Terminates', env=None):
        """Execute fn (scenario -> trace) on the real code and let TLC judge the traces.

        An exception or a hang of the real code (or an output the observer cannot read)
        is itself a violated clause."""
        scenarios = list(scenarios)
        res = self.execute(fn, scenarios, limit)
        items = []
        for sc, (status, val) in zip(scenarios, res):
            if status == 'ok':
                items.append((sc, val))
            elif status == 'raise':
                self.violations.append(([raises], sc, {'raised': val}, []))
            else:
                self.violations.append(([hangs], sc, {'hang': val}, []))
        for sc, t in items[:2]:
            self.sample({'scenario': sc, 'events': len(t), 'first_events': t[:3]})
        self.judge(module, items, cfg=cfg, env=env)
        return items

    def binding_selftest(self, module, items, corrupt, cfg=None, limit=8, env=None):
        """Corrupt accepted traces one field at a time; every kind of corruption must be rejected.

        corrupt(trace) yields (name, corrupted copy)."""
        if self.violations:
            return
        bad_items, names = [], []
        for sc, t in list(items)[:limit]:
            for name, c in corrupt(json.loads(json.dumps(t))):
                bad_items.append(c)
                names.append(name)
        if not bad_items:
            self.machinery.append('no trace to corrupt for ' + module)
            return
        verdicts, st, tr = tlc.judge(module, bad_items, self.work, cfg=cfg, env=env)
        self.states += st
        self.transitions += tr
        res = {}
        for nme, v in zip(names, verdicts):
            res.setdefault(nme, [0, 0])
            res[nme][0] += 1
            res[nme][1] += bool(v[0])
        self.extra.setdefault('corrupted_traces_rejected', {}).update(
            {k: '%d of %d' % (v[1], v[0]) for k, v in res.items()})
        for k, v in res.items():
            if v[1] == 0:
                self.machinery.append('corruption %s of a %s trace is never rejected' % (k, module))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    # -- end -------------------------------------------------------------
    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == self.pid and k['status'] == 'known']
        fresh = []
        for bad, sc, t, at in self.violations:
            key = sc.get('finding') if isinstance(sc, dict) else None
            k = next((k for k in known if key is not None and k['key'] == key and set(bad) <= set(k['clauses'])), None)
            if k:
                self.known_hit.append(k)
            else:
                fresh.append((bad, sc, t, at))
        rep = None
        repdir = os.path.join(VERIF, 'evidence', 'replay')
        if fresh:
            os.makedirs(repdir, exist_ok=True)
            fresh.sort(key=lambda v: len(json.dumps(v[1], default=str)))
            rep = os.path.join(repdir, '%s.json' % self.pid)
            with open(rep, 'w') as f:
                json.dump([dict(property=self.pid, clauses=b, at=at, scenario=s, trace=t) for b, s, t, at in fresh[:5]], f,
                          indent=1, default=str)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                executions=self.executed, situations=self.hits,
                                samples=self.samples or ['none'], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in {k['key']: k for k in self.known_hit}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if fresh:
            for b, s, t, at in fresh[:5]:
                more = t if isinstance(t, dict) else ''
                print('violated: %s %s input: %s' % (', '.join(b), more, json.dumps(s, default=str)[:400]))
            print('violating scenarios: %d' % len(fresh))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        if self.machinery:
            for m in self.machinery:
                print('CHECK ERROR: ' + m)
            return 2
        print('OK property=%s states=%d transitions=%d traces=%d executions=%d wall=%.1fs' % (
            self.pid, self.states, self.transitions, self.traces, self.executed, time.time() - self.t0))
        return 0
