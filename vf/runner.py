"""Runs many cases in parallel, collects what was observed, writes evidence and replays, decides the exit status."""
import hashlib, json, os, shutil, sys, tempfile, time, traceback
from collections import Counter
from multiprocessing import Pool, TimeoutError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Known:
    """known_findings.txt: 'known: property=<id> input=<name> <text>'  /  'fixed: property=<id> <commit> <text>'"""

    def __init__(self, pid):
        self.entries = []
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                p = l.split()
                if len(p) > 3 and p[0] == 'known:' and p[1] == 'property=' + pid:
                    self.entries.append((p[2].split('=', 1)[1], ' '.join(p[3:])))


class Result:
    """of one case: st ok / skip / bad / inconclusive / error"""

    def __init__(self, st='ok', diffs=(), case=None, counts=None, key=None, nontrivial=False, known=(), files=None):
        self.st, self.diffs, self.case, self.counts = st, list(diffs), case, counts or {}
        self.key, self.nontrivial, self.known, self.files = key, nontrivial, list(known), files or {}


def key_of(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


_scratch = None


def scratch():
    """a directory of this worker, emptied for every case"""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix='w', dir=os.environ['VF_SCRATCH']))
    d = os.path.join(_scratch[1], 'c')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


_fn = None


def _call(item):
    try:
        return item, _fn(item)
    except Exception:
        return item, Result('error', [traceback.format_exc()[-3000:]])


def _calls(items):
    return [_call(i) for i in items]


class Ctx:
    def __init__(self, pid, tier, seed, level='exploration'):
        self.id, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == 'thorough'
        self.counts = Counter()
        self.st = Counter()
        self.keys = set()
        self.samples = []
        self.bad = []
        self.errors = []
        self.inconclusive = []
        self.known_seen = set()
        self.t0 = time.time()
        self.rule = ''
        self.assumptions = []
        self.min_nontrivial = 1
        self.extra = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def run(self, fn, items, procs=None, chunk=2, stop_bad=16, limit=600):
        global _fn
        _fn = fn    # inherited by the forked workers
        end = self.t0 + limit if not self.thorough else None
        with Pool(procs or os.cpu_count() or 4) as p:
            it = p.imap_unordered(_calls, [items[i:i + chunk] for i in range(0, len(items), chunk)])
            while True:
                try:
                    rs = it.next(max(0, end - time.time()) if end else None)
                except StopIteration:
                    break
                except TimeoutError:
                    self.extra['stopped'] = 'after %d s' % limit
                    p.terminate()
                    break
                for item, r in rs:
                    self.add(item, r)
                if len(self.bad) >= stop_bad or len(self.errors) > 20:
                    p.terminate()
                    break

    def add(self, item, r):
        self.st[r.st] += 1
        for k, v in r.counts.items():
            self.counts[k] += v
        if r.st in ('ok', 'bad') and r.nontrivial:
            self.keys.add(r.key)
            if len(self.samples) < 3 and r.case is not None and r.st == 'ok':
                self.samples.append(sample(r.case))
        self.known_seen.update(r.known)
        if r.st == 'bad':
            self.bad.append((item, r))
        elif r.st == 'error':
            self.errors.append((item, r))
        elif r.st == 'inconclusive':
            self.inconclusive.append((item, r))

    def replay(self, i, item, r):
        d = os.path.join(VERIF, 'replays', self.id, '%s-%d-%d' % (self.tier, self.seed, i))
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        with open(os.path.join(d, 'violation.json'), 'w') as f:
            json.dump({'property': self.id, 'tier': self.tier, 'seed': self.seed, 'item': item, 'differences': r.diffs,
                       'case': r.case, 'rerun': 'VERIF_SEED=%d python3 check.py %s --item %s' % (
                           self.seed, self.id, json.dumps(item))}, f, indent=1, default=str)
        for name, data in r.files.items():
            with open(os.path.join(d, os.path.basename(name)), 'w', errors='replace') as f:
                f.write(data)
        return d

    def finish(self):
        known = Known(self.id)
        out = 0
        done = self.st['ok'] + self.st['bad']
        for name, text in known.entries:
            if name in self.known_seen:
                print('KNOWN-FINDING: property=%s %s' % (self.id, text))
        for x in self.known_seen - {n for n, _ in known.entries}:
            self.bad.append((x, Result('bad', ['not a listed finding: ' + x])))
        if self.bad:
            out = 1
            for i, (item, r) in enumerate(self.bad[:5]):
                d = self.replay(i, item, r)
                print('VIOLATION property=%s replay=%s' % (self.id, d))
                for x in r.diffs[:4]:
                    print('   ', str(x)[:400])
        elif self.errors:
            out = 3
            for item, r in self.errors[:3]:
                print('HARNESS ERROR on', item, *r.diffs, sep='\n')
        elif len(self.keys) < self.min_nontrivial:
            out = 3
            print('INCONCLUSIVE: only %d distinct non-trivial cases, wanted %d; %s' % (
                len(self.keys), self.min_nontrivial, dict(self.st)))
        elif len(self.inconclusive) > max(3, done // 20):
            out = 3
            print('INCONCLUSIVE: %d of %d cases' % (len(self.inconclusive), done))
            for item, r in self.inconclusive[:3]:
                print(item, *r.diffs)
        cov = {'evaluations': done, 'distinct_nontrivial': len(self.keys), 'rule': self.rule,
               'samples': self.samples or ['none']}
        cov['observed'] = {k: v for k, v in sorted(self.counts.items())}
        cov['skipped_too_big'] = self.st['skip']
        cov['inconclusive'] = len(self.inconclusive)
        cov.update(self.extra)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.bad)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.id + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + '.tmp', p)
        print('%s %s seed=%d: %d cases run, %d distinct non-trivial, %d skipped, %d inconclusive, %d violations, %.1f s' % (
            self.id, self.tier, self.seed, done, len(self.keys), self.st['skip'], len(self.inconclusive), len(self.bad),
            time.time() - self.t0))
        return out


def sample(case):
    if isinstance(case, dict) and 'zones' in case:
        from vf.model import S
        return {'top': case['top'], 'zones': [{'server': z[0], 'records': ['%s %s %s %s' % (S(tuple(r[0])), r[2], r[1], r[3])
                for r in z[2][:12]]} for z in case['zones'][:4]], 'jobs': case.get('jobs')}
    return case
