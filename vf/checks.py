"""One function per property. Each runs the real code on generated cases and lets an oracle judge what it did."""
import json, os, random, shutil, time
from vf import build, cases, gen, runner
from vf.model import *
from vf.runner import Result, scratch, key_of

CHECKS = {}
BIN = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def items(ctx, quick, thorough):
    if hasattr(ctx, 'only'):
        return [ctx.only]
    return [[ctx.seed, i] for i in range(ctx.n(quick, thorough))]


def rng_of(pid, item):
    return random.Random('%s/%s' % (pid, item))


class NoProbe(Exception):
    """the program can be built but the probe does not fit its inner interfaces"""


def need(*flavour):
    for f, want in flavour:
        try:
            BIN.update({(f, k): v for k, v in build.build(f, want).items()})
        except build.BuildError as e:
            if 'probe' not in want:
                raise
            BIN.update({(f, k): v for k, v in build.build(f, ['groot']).items()})
            raise NoProbe(str(e))


# ---- verdict properties through the command line (C08-C18, C27) -------------------------------------------------------
def run_jobs(case, d=None, flavour='plain', **kw):
    d = d or scratch()
    cases.write(case, d)
    return cases.run(BIN[flavour, 'groot'], d, **kw)


def bad_end(r):
    return 'the run ended with %s: %s' % (r.status, r.out[-400:])


class Verdict:
    """Checks one kind of violation of the report against the model."""

    def __init__(self, pid, title, props, worlds, tweak=None, sub=None, extra=0.3, layout=None):
        self.layout = layout
        self.pid, self.titles, self.props, self.worlds, self.tweak = pid, title.split(','), props, worlds, tweak
        self.sub, self.extra = sub, extra

    def make(self, item):
        rng = rng_of(self.pid, item)
        for _ in range(30):
            kw = self.worlds(rng)
            top, zones = gen.world(rng, **kw)
            c = cases.mk(top, zones, layout=rng.randrange(1 << 30) if self.layout else None)
            if self.layout:
                c['case'] = self.layout
            w = cases.model(c)
            try:
                job = gen.job(rng, w, must=self.props(rng), pmore=self.extra, sub=self.sub(rng) if self.sub else None)
                if self.tweak:
                    self.tweak(rng, w, job)
                gs = cases.graphs(w, job)
                exp = cases.expect_job(w, job, gs)
            except TooBig:
                continue
            c['jobs'] = [job]
            return c, w, gs, exp
        return None

    def judge(self, case):
        w = cases.model(case)
        exp = None
        for job in case['jobs']:
            exp = cases.expect_job(w, job, cases.graphs(w, job), exp)
        return self.compare(case, exp)

    def compare(self, case, exp):
        r = run_jobs(case)
        if r.status != 'exit 0' or r.report is None:
            return [bad_end(r)], [], {}
        got = cases.parse(r.report)
        diffs, known = [], []
        for t in self.titles:
            a, b = cases.diff_title(t, exp, got)
            diffs += a
            known += b
        if got['UNKNOWN']:
            diffs.append('unknown kind of violation: %r' % list(got['UNKNOWN'])[:2])
        return diffs, known, got

    def one(self, item):
        m = self.make(item)
        if m is None:
            return Result('skip')
        case, w, gs, exp = m
        diffs, known, got = self.compare(case, exp)
        if diffs and any('the run ended' in x and 'hang' not in x for x in diffs):
            d2, known, got = self.compare(case, exp)
            if not d2:
                return Result('inconclusive', diffs, case)
        per = {t: self.expected(t, exp) for t in self.titles}
        exps = sum(per.values())
        counts = {'query classes': len(gs), 'graph vertices': sum(len(g.v) for g in gs),
                  'graph steps': sum(len(g.edges) for g in gs), 'violations expected': exps,
                  'cases with a violation': int(exps > 0), 'cases without a violation': int(not exps),
                  'rewrites seen': sum(1 for g in gs for a in g.ans if a and a[0] == 'REWRITE'),
                  'referrals seen': sum(1 for g in gs for a in g.ans if a and a[0] == 'REF'),
                  'refusals seen': sum(1 for g in gs for a in g.ans if a and a[0] == 'REFUSED')}
        for t, n in per.items():
            counts['expected ' + t] = n
        if known:
            counts['extra reports explained by the known finding'] = len(known)
        nontrivial = exps > 0 or any(len(g.v) > 2 for g in gs)
        if diffs and not any('hang' in x for x in diffs):
            case = self.shrink(case)
            try:
                diffs = self.judge(case)[0] or diffs
            except TooBig:
                pass
        return Result('bad' if diffs else 'ok', diffs, case, counts, key_of(case), nontrivial,
                      self.known(known) if known else [])

    @staticmethod
    def expected(t, exp):
        if t == 'Zero TTL':
            return sum(len(a) for a, _ in exp.zttl)
        if t == 'Response Consistency':
            return sum(a for a, _, _ in exp.rcons)
        if t == 'Cyclic Zone Dependency':
            return len(exp.loops)
        return len(exp.must[t])

    def known(self, k):
        return []

    def shrink(self, case, limit=120):
        """drops records, zones and properties while the difference stays"""
        end = time.time() + 40

        def bad(c):
            nonlocal limit
            limit -= 1
            if limit < 0 or time.time() > end:
                return False
            try:
                return bool(self.judge(c)[0])
            except (TooBig, AssertionError):
                return False
        try:
            if not bad(case):
                return case
            for zi in range(len(case['zones']) - 1, 0, -1):
                c = dict(case, zones=[z for i, z in enumerate(case['zones']) if i != zi])
                if any(z[0] in c['top'] for z in c['zones']) and bad(c):
                    case = c
            for zi in range(len(case['zones'])):
                ri = len(case['zones'][zi][2]) - 1
                while ri > 0 and limit > 0:
                    z = case['zones'][zi]
                    c = dict(case, zones=[(x if i != zi else [z[0], z[1], z[2][:ri] + z[2][ri + 1:]])
                                          for i, x in enumerate(case['zones'])])
                    if bad(c):
                        case = c
                    ri -= 1
        except Exception:
            pass
        return case

    def __call__(self, ctx, quick, thorough, rule, min_viol=10):
        need(('plain', ('groot',)))
        ctx.rule = rule + ' A case is non-trivial when the model expects a violation or some query takes more than one step.'
        ctx.run(self.one, items(ctx, quick, thorough), chunk=4)
        ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(500, thorough // 3)
        if not hasattr(ctx, 'only') and not ctx.bad and min(
                ctx.counts['expected ' + t] for t in self.titles) < min_viol:
            ctx.errors.append(('coverage', Result('error', ['too few expected violations: %r' % dict(ctx.counts)])))


def w_any(**kw):
    def f(rng):
        k = dict(kw)
        if 'loops' not in k and rng.random() < 0.15:
            k['loops'] = True
        if 'long' not in k and rng.random() < 0.08:
            k['long'] = 0.3
        return k
    return f


def mix(*choices):
    """choices: (weight, dict)"""
    def f(rng):
        k = dict(gen.pick(rng, [(c, wgt) for wgt, c in choices]))
        return k
    return f


RULE = 'Seeded random configurations (1-4 zones over 1-2 servers each, delegations, glue, wildcards, CNAME/DNAME chains and ' \
       'loops, inconsistent copies) with a random job; the report of the real program is compared with the reference model. '

VERDICTS = {}


def verdict(pid, quick=7000, thorough=40000, rule='', min_viol=10, **kw):
    v = VERDICTS[pid] = Verdict(pid, **kw)

    def f(ctx):
        v(ctx, quick, thorough, RULE + rule, min_viol)
    CHECKS[pid] = f
    return v


chainy = mix((1, dict(ring=.5, extra=3)), (3, dict()), (2, dict(loops=True)), (2, dict(cname=6, dname=3, ns=.5, extra=10)), (1, dict(long=.3)))

def address_question(rng, w, job):
    """sometimes a job that asks for nothing but the addresses of a server, as the resolution of a referral does"""
    if rng.random() < .15:
        servers = sorted({r.rdata for z in w.zones for _, r in z.accepted if r.type == 'NS'})
        if servers:
            job.update(Domain=rng.choice(servers), SubDomain=rng.random() < .3,
                       Properties=[{'PropertyName': 'ResponseReturned', 'Types': ['A', 'AAAA']}])


verdict('C08', title='Cyclic Zone Dependency', props=lambda r: r.sample(gen.ALLP, 1), tweak=address_question,
        worlds=mix((2, dict()), (3, dict(loops=True, dname=2)), (2, dict(ns=3, extra=6)), (2, dict(ring=.8, extra=4)), (2, dict(cname=8, extra=10)),
                   (3, dict(ns=4, extra=10, loops=True)), (4, dict(ns=4, extra=10, mutate=.7, multi=.9, glue=.4)),
                   (2, dict(ns=4, extra=10, loops=True, many=.4, glue=.3))))
verdict('C09', title='Hops,Rewrites', props=lambda r: ['Hops', 'Rewrites'], worlds=chainy)
verdict('C10', title='Delegation Consistency', props=lambda r: ['DelegationConsistency'],
        worlds=mix((3, dict(mutate=.8, zones=3, multi=.6)), (2, dict(mutate=.8)), (1, dict(cname=4)),
                   (1, dict(mutate=.8, apex=.5, zones=3)), (2, dict(mutate=.9, zones=2, six=.8, ttls=.7))))
verdict('C11', title='Lame Delegation', props=lambda r: ['LameDelegation'],
        worlds=mix((3, dict(ns=4, extra=8)), (2, dict(ns=3, cname=3, extra=8)), (1, dict())))
verdict('C12', title='Query Rewrite,Name Server Contact', props=lambda r: ['QueryRewrite', 'NameserverContact'], worlds=chainy)
verdict('C13', title='Rewrite Blackholing,DNAME Substitution exceeds length', props=lambda r: ['RewriteBlackholing', 'DNAMESubstitutionCheck'],
        worlds=mix((3, dict(cname=6, dname=3, extra=10)), (3, dict(long=.5, cname=5, dname=5)), (1, dict(loops=True, long=.4)),
                   (1, dict())))
verdict('C14', title='Response Consistency', props=lambda r: ['ResponseConsistency'],
        worlds=mix((3, dict(mutate=.9, multi=.9)), (2, dict(mutate=.9, cname=5)), (1, dict()), (1, dict(mutate=.4, multi=.8, ttls=.5)),
                   (3, dict(mutate=.9, multi=.9, long=.6, dname=6, cname=4, extra=8, zones=2)),
                   (2, dict(mutate=.9, multi=.9, wild=.7, cname=5, zones=2, extra=6))))
VERDICTS['C14'].known = lambda k: ['whole-answers']


def c14(ctx, inner=CHECKS['C14']):
    need(('plain', ('groot',)))
    with open(os.path.join(runner.VERIF, 'vf/known/c14.json')) as f:
        case = json.load(f)
    diffs, known, _ = VERDICTS['C14'].judge(case)
    ctx.add('known finding', Result('bad' if diffs else 'ok', diffs, case, {}, key_of(case), True,
                                    ['whole-answers'] if known else []))
    inner(ctx)


CHECKS['C14'] = c14
verdict('C15', title='Response Value,ResponseReturned', props=lambda r: ['ResponseReturned', 'ResponseValue'],
        worlds=mix((3, dict()), (2, dict(cname=5, extra=8)), (1, dict(mutate=.9, multi=.9)), (1, dict(wild=.4))))
verdict('C16', title='Zero TTL', props=lambda r: ['ZeroTTL'],
        worlds=mix((2, dict(ttl=[0, 300])), (1, dict(ttl=[0], cname=3)), (1, dict())))
verdict('C17', title='All Aliases', props=lambda r: ['AllAliases'], worlds=chainy)
verdict('C18', title='Structural Delegation Consistency', props=lambda r: ['StructuralDelegationConsistency'],
        sub=lambda r: r.random() < .93,
        worlds=mix((3, dict(mutate=.9, multi=.8, zones=3)), (1, dict(mutate=.9, many=.6, zones=2)), (1, dict(ns=3)), (1, dict()),
                   (1, dict(mutate=.9, multi=.8, apex=.6)), (1, dict(mutate=.5, multi=.8, ttls=.5))))
verdict('C27', title='Infinite DName Recursion', props=lambda r: ['InfiniteDNameRec'], min_viol=5,
        worlds=mix((4, dict(loops=True, dname=6, cname=2, extra=6, zones=2)),
                   (5, dict(loops=True, dname=3, cname=.5, extra=5, zones=2, swing=.8)),
                   (3, dict(loops=True, dname=2, cname=.5, extra=3, zones=2, swing=.9, shrink=.9)), (2, dict(loops=True, dname=3, cname=4)), (1, dict())))


def outside(ctx, why):
    """Stands in for a check that needs the probe when the probe does not compile: everything such a check observes inside the
    program shows in the report as well when the properties are set to be violated by every query."""
    always = ['Hops', 'Rewrites', 'NameserverContact', 'QueryRewrite', 'ResponseReturned', 'ResponseValue', 'LameDelegation']

    def tweak(rng, w, job):
        for p in job['Properties']:
            if p['PropertyName'] in ('Hops', 'Rewrites'):
                p['Value'] = 0
            elif p['PropertyName'] in ('NameserverContact', 'QueryRewrite'):
                p['Value'] = ['nowhere.']
            elif p['PropertyName'] == 'ResponseValue':
                p['Value'] = ['nothing']
    pid = ctx.id
    worlds = mix((2, dict(conflicts=6)), (2, dict(wild=.4)), (1, dict(long=.3)), (2, dict(loops=True)),
                 (1, dict(mutate=.9, multi=.9))) if pid in ('C01', 'C02') else \
        mix((3, dict(wild=.4)), (3, dict()), (1, dict(long=.3)), (2, dict(loops=True)), (2, dict(mutate=.9, multi=.9)),
            (.2, dict(wide=515, zones=1, extra=2)))
    v = Verdict(pid, 'Hops,Rewrites,Name Server Contact,Query Rewrite,ResponseReturned,Response Value,Lame Delegation',
                lambda r: always, worlds, tweak, extra=0, layout=.5 if pid == 'C24' else 1e-9 if pid in ('C01', 'C02') else None)
    ctx.extra['probe'] = 'does not compile, only the report was observed: ' + why[-300:]
    print('the probe does not compile against this tree: observing the report only')
    v(ctx, 2500, 20000, RULE)


# ---- inner observations through the probe (C01, C02, C04-C07) ---------------------------------------------------------
PROBE_TIMEOUT = 30


def probe(d, req, flavour='plain'):
    """-> (status, output)"""
    import subprocess
    with open(os.path.join(d, 'probe.json'), 'w') as f:
        json.dump(req, f)
    lst = os.path.join(d, 'probe.list')
    with open(lst, 'w') as f:
        f.write(d + '\n')
    out = os.path.join(d, 'probe_out.json')
    for t in (PROBE_TIMEOUT, PROBE_TIMEOUT * 2):
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run([BIN[flavour, 'probe'], str(t), lst], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        line = r.stdout.decode(errors='replace').strip().split('\n')[-1]
        if not line.startswith(d + ' '):
            raise RuntimeError('probe: ' + r.stdout.decode(errors='replace')[-500:])
        st = line[len(d) + 1:]
        if st != 'timeout':
            break
    res = None
    if st == 'exit 0':
        with open(out, encoding='utf-8', errors='surrogateescape') as f:
            res = json.load(f)
    elif os.path.exists(os.path.join(d, 'probe_log.txt')):
        with open(os.path.join(d, 'probe_log.txt'), errors='replace') as f:
            st += ': ' + f.read()[-300:]
    return st, res


def prec(x):
    return Rec(tuple(x[0]), NO_TYPE.get(x[1], '?%s' % x[1]), x[2], x[3])


def canon(a):
    """answers of the probe -> (tag, records, missing types)"""
    if a is None:
        return None
    if not a:
        return ('NONE', frozenset(), 0)
    tag = a[0][0]
    recs, miss = set(), 0
    for t, m, rrs in a:
        if t != tag:
            tag = tag + '+' + t
        recs.update(prec(x) for x in rrs)
        if t in ('ANS', 'NX') and not rrs:
            miss |= m
    return (tag, frozenset(recs), miss)


def mcanon(a):
    if a is None:
        return None
    tag, recs, miss = a
    return (tag, frozenset(recs), miss if tag in ('ANS', 'NX') else 0)


def show(a):
    return a and '%s %s missing=%s' % (a[0], sorted(rr_str(r) + ' ttl=%d' % r.ttl for r in a[1]), names_of(a[2]))


def loaded_diffs(w, out):
    diffs = []
    seen = out['zones']
    for z in w.zones:
        o = seen.get(str(z.id))
        if o is None:
            diffs.append('zone file %d of %s was not loaded' % (z.id, z.ns))
            continue
        if tuple(o['origin']) != z.origin or o['ns'] != z.ns:
            diffs.append('zone %d: origin %r at %s instead of %r at %s' % (z.id, o['origin'], o['ns'], z.origin, z.ns))
        got = Counter()
        for name, rrs in o['nodes']:
            for x in rrs:
                r = prec(x)
                if tuple(name) != r.name:
                    diffs.append('zone %d: record %s stored at %r' % (z.id, rr_str(r), name))
                got[r] += 1
        want = Counter(r for _, r in z.accepted)
        for r in want - got:
            diffs.append('zone %d: missing %s ttl=%d' % (z.id, rr_str(r), r.ttl))
        for r in got - want:
            diffs.append('zone %d: unexpected %s ttl=%d' % (z.id, rr_str(r), r.ttl))
    if len(seen) != len(w.zones):
        diffs.append('%d zones loaded instead of %d' % (len(seen), len(w.zones)))
    return diffs


from collections import Counter

ODD = ['a', 'mx', 'ns', 'in', 'ch', 'txt', 'soa', '300', '_tcp', 'x-y', 'a\\.b', 'w\\;x', 'p\\(q', '\\"', 'b', 'aaaa', 'srv',
       'cname', 'ds', '\\@', '0', '-1', 'ttl', 'origin', '\\ ', 'any', '*']


def odd_zone(rng):
    """one zone with awkward names, data and TTLs"""
    lab = lambda: rng.choice(ODD)
    o = rng.choice([(), ('x',), ('x', 'a'), ('x', 'mx'), ('in',), ('300', 'b'), ('x', 'a\\.b')])
    c = gen.Cfg(rng)
    recs = []
    interesting = [o]
    n = o
    for _ in range(rng.choice([2, 5, 10, 20])):
        k = rng.random()
        if k < .3:
            pass
        elif k < .4:
            n = o
        elif k < .55 and len(n) > len(o):
            n = n[:-1]
        else:
            n = (n if rng.random() < .4 else o) + (lab(),)
        interesting.append(n)
        t = gen.pick(rng, [('A', 3), ('AAAA', 1), ('TXT', 2), ('MX', 2), ('CNAME', 2), ('DNAME', 1), ('NS', 2), ('SRV', 1),
                           ('DS', .5), ('PTR', 1), ('SPF', .5), ('NSEC', .5), ('RRSIG', .5), ('SOA', .2)])
        if n == () and t == 'DNAME':
            t = 'A'
        ttl = rng.choice([0, 1, 5, 60, 77, 300, 3600, 86400, 2147483647])
        if recs and rng.random() < .5:
            ttl = recs[-1].ttl
        if t == 'SOA' and n != o:
            t = 'TXT'
        recs.append(gen.record(rng, n, t, ttl, interesting, lambda: rng.choice(interesting) + (lab(),), lab, c))
    return 'ns.x.', o, gen.clean([gen.soa(o, rng, rng.choice([0, 60, 3600]))] + recs)


def c01_one(item):
    rng = rng_of('C01', item)
    if rng.random() < 0.6:
        zones = [odd_zone(rng) for _ in range(rng.choice([1, 1, 2]))]
        zones = [('ns%d.x.' % i, o, r) for i, (_, o, r) in enumerate(zones)]
        top = ['ns0.x.']
    else:
        top, zones = gen.world(rng)
    case = cases.mk(top, zones, layout=rng.randrange(1 << 30))
    d = scratch()
    cases.write(case, d)
    w = cases.model(case)
    st, out = probe(d, {'zones': True})
    files = {}
    if out is None:
        diffs = ['loading ended with ' + st]
    else:
        diffs = loaded_diffs(w, out)
    n = sum(len(z.accepted) for z in w.zones)
    if diffs:
        for i in range(len(zones)):
            with open(os.path.join(d, 'z%d.txt' % i), newline='') as f:
                files['z%d.txt' % i] = f.read()
    return Result('bad' if diffs else 'ok', diffs, case, {'records denoted': n, 'zones loaded': len(w.zones),
                  **{'records ' + t: c for t, c in Counter(r.type for z in w.zones for _, r in z.accepted).items()}},
                  key_of(case), n > 2, files=files)


@check('C01')
def c01(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'Records chosen first, then written with random layout (comments, parentheses, CRLF, relative names, $ORIGIN, ' \
               '$TTL, inherited owner/TTL, unsupported types, awkward labels); the loaded zones are dumped and compared. ' \
               'Non-trivial: more than two records.'
    ctx.run(c01_one, items(ctx, 20000, 60000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(1500, 30000)


def c02_one(item):
    rng = rng_of('C02', item)
    wide = 515 if rng.random() < 0.03 else 0
    top, zones = gen.world(rng, conflicts=rng.choice([3, 8, 15]), wide=wide, long=rng.choice([0, 0, .3]))
    case = cases.mk(top, zones, layout=None if rng.random() < .7 else rng.randrange(1 << 30))
    d = scratch()
    cases.write(case, d)
    w = cases.model(case)
    st, out = probe(d, {'zones': True})
    diffs = ['loading ended with ' + st] if out is None else loaded_diffs(w, out)
    kinds = Counter(k for z in w.zones for x in z.rejects for k, _ in x.kinds)
    return Result('bad' if diffs else 'ok', diffs, case,
                  {'records accepted': sum(len(z.accepted) for z in w.zones), 'nodes with more than 500 children': int(wide > 0),
                   **{'rejected ' + k: n for k, n in kinds.items()}}, key_of(case), bool(kinds))


@check('C02')
def c02(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'Random zones with injected duplicates, CNAME/DNAME conflicts, out-of-zone records and labels, names and ' \
               'targets around the length limits, at random positions; the loaded zones are compared with the reference ' \
               'acceptance rules. Non-trivial: at least one record has to be rejected.'
    ctx.run(c02_one, items(ctx, 20000, 40000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(800, 20000)


def query_names(rng, w, z, n):
    """names to ask a zone"""
    names = sorted(z.exists)
    names = [x for x in names if under(z.origin, x)]
    out = []
    labels = gen.LETTERS + ['*', 'ns1', 'zz', 'w3', 'w514']
    for _ in range(n):
        x = rng.choice(names)
        k = rng.random()
        if k < .45:
            pass
        elif k < .8:
            x = x + (rng.choice(labels),)
        else:
            x = x + (rng.choice(labels), rng.choice(labels))
        out.append(x)
    return out


def c04_one(item):
    rng = rng_of('C04', item)
    wide = 515 if rng.random() < 0.03 else 0
    kw = dict(wide=wide, wild=rng.choice([0, .2, .5]), dname=rng.choice([0, 1, 4]), loops=rng.random() < .5, zones=rng.choice([1, 2, 3]),
              extra=rng.choice([3, 8, 14]), conflicts=rng.choice([0, 0, 3]))
    top, zones = gen.world(rng, **kw)
    # zones see the records below their cuts and DNAMEs too: move some records of children into the parent
    case = cases.mk(top, zones)
    w = cases.model(case)
    req = []
    for z in w.zones:
        for x in query_names(rng, w, z, 40 if wide else 25):
            excl = rng.random() < .35
            types = rng.choice([mask(gen.rtypes(rng)), mask(gen.rtypes(rng)), BIT['CNAME'], BIT['NS'], ALL])
            req.append({'zone': z.id, 'name': list(x), 'excl': excl, 'types': types, 'nonex': False})
    d = scratch()
    cases.write(case, d)
    st, out = probe(d, {'lookups': req})
    diffs = []
    tags = Counter()
    if out is None:
        diffs = ['the look-ups ended with ' + st]
    else:
        zs = {z.id: z for z in w.zones}
        for q, a in zip(req, out['lookups']):
            want = mcanon(zs[q['zone']].lookup(tuple(q['name']), q['excl'], q['types']))
            tags['expected ' + want[0]] += 1
            got = canon(a)
            if got != want:
                diffs.append('zone %d, query %s%s %s: %s instead of %s' % (
                    q['zone'], '~{ }.' if q['excl'] else '', S(tuple(q['name'])), names_of(q['types']), show(got), show(want)))
    tags['look-ups'] = len(req)
    tags['nodes with more than 500 children'] = int(wide > 0)
    return Result('bad' if diffs else 'ok', diffs, case, tags, key_of([case, req]), len(tags) > 3)


@check('C04')
def c04(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'QueryLookUpAtZone of the real code on random zones for names at, below and between existing names, exact and ' \
               "'some other child', all kinds of type sets; compared with RFC 1034/4592/6672 lookup. Non-trivial: at least two " \
               'kinds of answers occur.'
    ctx.run(c04_one, items(ctx, 20000, 40000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(800, 20000)


def through(rng, w):
    """a name that exists by substituting a DNAME, if there is one; of several, below the owner with the most children"""
    kids = Counter(n[:-1] for n in w.names if n)
    n = max(sorted(w.dn), key=lambda x: kids[x])
    below = [n + m[len(t):] for t in w.dn[n] for m in w.names if under(t, m) and m != t]
    below = [m for m in below if m not in w.names and not too_long(m)]
    return rng.choice(sorted(below)) if below else n


def spread(rng, zones):
    """a chain of DNAMEs whose owners all have a child of the same label -> the name that stands for all of them"""
    o, recs = zones[0][1], zones[0][2]
    k = rng.randrange(2, 7)
    x, kid = rng.choice('xyz'), (rng.choice(['k', 'a', '*']),)
    at = [tuple(o) + (x + str(i),) for i in range(k)]
    for i in range(k):
        if i < k - 1:
            recs.append(Rec(at[i], 'DNAME', 300, S(at[i + 1])))
        if i == 0 or rng.random() < .9:
            recs.append(Rec(at[i] + kid, 'A', 300, '1.1.1.1'))
            if rng.random() < .5:
                recs.append(Rec(at[i] + kid + ('m%d' % rng.randrange(4),), 'A', 300, '1.1.1.1'))
    return at[0] + kid


def c05_one(item):
    rng = rng_of('C05', item)
    for _ in range(30):
        kw = {}
        if rng.random() < .06:
            kw['wide'] = 515
        kw['dname'] = rng.choice([0, 1, 3, 6])
        kw['loops'] = rng.random() < .3
        kw['long'] = rng.choice([0, 0, .3])
        top, zones = gen.world(rng, **kw)
        shared = spread(rng, zones) if rng.random() < .1 else None
        case = cases.mk(top, zones)
        w = cases.model(case)
        jobs, want = [], []
        try:
            for i in range(4):
                dom = shared if i < 2 else None
                if kw.get('wide') and w.dn and rng.random() < .7:
                    dom = through(rng, w)
                j = gen.job(rng, w, must=rng.sample(gen.ALLP, rng.choice([0, 1, 2])), pmore=0, domain=dom)
                want.append(w.classes(N(j['Domain']), j['SubDomain'], cases.job_types(j), 3000))
                jobs.append(j)
        except TooBig:
            continue
        break
    else:
        return Result('skip')
    d = scratch()
    cases.write(case, d)
    st, out = probe(d, {'jobs': jobs})
    diffs = []
    cnt = Counter()
    if out is None:
        diffs = ['class generation ended with ' + st]
    else:
        for j, wt, o in zip(jobs, want, out['jobs']):
            got = {(tuple(n), excl, types, nonex) for n, excl, types, nonex in o['ecs']}
            f = lambda x: '%s %s%s' % (qstr(x), ' '.join(names_of(x[2])), ' (nonexistent)' if x[3] else '')
            for x in sorted(wt - got):
                diffs.append('job %s: class missing: %s' % (j['Domain'], f(x)))
            for x in sorted(got - wt):
                diffs.append('job %s: class not wanted: %s' % (j['Domain'], f(x)))
            cnt['classes'] += len(wt)
            cnt['classes of other children'] += sum(x[1] for x in wt)
            cnt['jobs on domains that do not exist'] += int(len(wt) == 1 and next(iter(wt))[1])
            cnt['names only reached through DNAMEs'] += sum(1 for x in wt if x[0] not in w.names and not x[1])
    return Result('bad' if diffs else 'ok', diffs, dict(case, jobs=jobs), cnt, key_of([case, jobs]), cnt['classes'] > 4)


@check('C05')
def c05(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'The query classes the real generator enqueues for random jobs (domains that exist, do not, or exist through ' \
               'DNAMEs; with and without subdomains) are compared with the classes of the reference name automaton. ' \
               'Non-trivial: more than 4 classes.'
    ctx.run(c05_one, items(ctx, 12000, 40000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(1000, 20000)


def pgraph(g):
    """graph of the probe -> vertices [(ns, query)], answers, edges"""
    v = [(ns, (tuple(q[0]), bool(q[1]), q[2])) for ns, q, _ in g['v']]
    return v, [canon(a) for _, _, a in g['v']], [tuple(e) for e in g['e']]


def c07_one(item):
    rng = rng_of('C07', item)
    for _ in range(30):
        kw = chainy(rng)
        kw['long'] = rng.choice([0, 0, .4])
        top, zones = gen.world(rng, **kw)
        case = cases.mk(top, zones)
        w = cases.model(case)
        req, want = [], []
        try:
            for _ in range(12):
                n = gen.some_name(rng, w)
                if too_long(n):
                    continue
                q = {'name': list(n), 'excl': rng.random() < .3, 'types': mask(gen.rtypes(rng)), 'nonex': False}
                want.append(Graph(w, n, q['excl'], q['types'], limit=400))
                want[-1].count_aug(6000)
                req.append(q)
        except TooBig:
            continue
        break
    else:
        return Result('skip')
    d = scratch()
    cases.write(case, d)
    st, out = probe(d, {'graphs': req})
    diffs = []
    cnt = Counter()
    if out is None:
        diffs = ['resolution ended with ' + st]
    else:
        for q, m, g in zip(req, want, out['graphs']):
            v, ans, e = pgraph(g)
            name = qstr((tuple(q['name']), q['excl'], 0)) + ' ' + ' '.join(names_of(q['types']))
            vs = lambda x: '%s@%s %s' % (qstr(x[1]), x[0], ' '.join(names_of(x[1][2])))
            if len(set(v)) != len(v):
                diffs.append('%s: a step occurs twice' % name)
            for x in set(m.v) - set(v):
                diffs.append('%s: step missing: %s' % (name, vs(x)))
            for x in set(v) - set(m.v):
                diffs.append('%s: step not possible: %s' % (name, vs(x)))
            got = dict(zip(v, ans))
            for i, x in enumerate(m.v):
                if x in got and x[0] and got[x] != mcanon(m.ans[i]):
                    diffs.append('%s: at %s %s instead of %s' % (name, vs(x), show(got[x]), show(mcanon(m.ans[i]))))
            ge = {(v[a], v[b], v[s] if s >= 0 else None) for a, b, s in e}
            me = {(m.v[a], m.v[b], m.v[s] if s >= 0 else None) for a, b, s in m.edges}
            es = lambda x: '%s -> %s%s' % (vs(x[0]), vs(x[1]), ' side ' + vs(x[2]) if x[2] else '')
            for x in me - ge:
                diffs.append('%s: transition missing: %s' % (name, es(x)))
            for x in ge - me:
                diffs.append('%s: transition not possible: %s' % (name, es(x)))
            cnt['queries'] += 1
            cnt['steps'] += len(m.v)
            cnt['transitions'] += len(me)
            cnt['side lookups'] += sum(1 for x in me if x[2])
            for a in m.ans:
                if a:
                    cnt['answers ' + a[0]] += 1
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of([case, req]), cnt['transitions'] > 24)


@check('C07')
def c07(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'The resolution graph the real code builds for random queries on random configurations is compared, step by step ' \
               'and answer by answer, with the reference resolver. Non-trivial: more transitions than two per query.'
    ctx.run(c07_one, items(ctx, 20000, 40000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(600, 10000)


def c06_pairs(d, pairs):
    """pairs of (class, name, labels the name has below the class) -> differences, counts, requests"""
    req = []
    for cl, c, rest in pairs:
        req.append({'name': list(cl[0]), 'excl': cl[1], 'types': cl[2], 'nonex': cl[3]})
        req.append({'name': list(c), 'excl': False, 'types': cl[2], 'nonex': False})
    st, out = probe(d, {'graphs': req})
    if out is None:
        return None, st, req
    diffs, cnt = [], Counter()
    for i, (cl, c, rest) in enumerate(pairs):
        v1, a1, e1 = pgraph(out['graphs'][2 * i])
        v2, a2, e2 = pgraph(out['graphs'][2 * i + 1])
        tr = lambda x: (x[0], (x[1][0] + (rest if x[1][1] else ()), False, x[1][2]))
        if any(name_len(tr(x)[1][0]) > 220 for x in v1) or any(name_len(x[1][0]) > 220 for x in v2):
            cnt['pairs near the maximum length'] += 1
            continue
        t1 = [tr(x) for x in v1]
        f1 = {(t, a) for t, a in zip(t1, a1)}
        f2 = set(zip(v2, a2))
        g1 = {(t1[a], t1[b], t1[s] if s >= 0 else None) for a, b, s in e1}
        g2 = {(v2[a], v2[b], v2[s] if s >= 0 else None) for a, b, s in e2}
        what = '%s (class %s)' % (S(c), qstr(cl))
        vs = lambda x: '%s@%s %s' % (qstr(x[1]), x[0], ' '.join(names_of(x[1][2])))
        for x, a in sorted(f2 - f1, key=repr):
            diffs.append('%s: the name gets %s -> %s, its class does not' % (what, vs(x), show(a)))
        for x, a in sorted(f1 - f2, key=repr):
            diffs.append('%s: the class gets %s -> %s, the name does not' % (what, vs(x), show(a)))
        if g1 != g2 and not diffs:
            diffs.append('%s: different transitions' % what)
        cnt['names compared'] += 1
        cnt['names covered by their own class' if not cl[1] else "names covered by 'other child'"] += 1
        cnt['names behind a rewrite'] += any(a and a[0] == 'REWRITE' for a in a2)
        cnt['steps compared'] += len(v2)
    return diffs, cnt, req


def c06_one(item):
    rng = rng_of('C06', item)
    kw = chainy(rng)
    kw.update(dname=rng.choice([0, 2, 5]), wild=rng.choice([0, .2, .4]), extra=rng.choice([3, 6, 10]))
    for _ in range(30):
        top, zones = gen.world(rng, **kw)
        case = cases.mk(top, zones)
        w = cases.model(case)
        if w.endless:
            continue
        job = gen.job(rng, w, must=rng.sample(gen.ALLP, 1), pmore=0, sub=True)
        job['Domain'] = S(rng.choice([(), rng.choice(sorted(w.names)), rng.choice(w.zones).origin]))
        try:
            cases.graphs(w, job)    # only to bound the work
        except TooBig:
            continue
        break
    else:
        return Result('skip')
    d = scratch()
    cases.write(case, d)
    st, out = probe(d, {'jobs': [job]})
    if out is None:
        return Result('bad', ['class generation ended with ' + st], dict(case, jobs=[job]))
    ecs = {(tuple(n), excl, types, nonex) for n, excl, types, nonex in out['jobs'][0]['ecs']}
    own = {x[0]: x for x in ecs if not x[1]}
    other = defaultdict(list)
    for x in ecs:
        if x[1]:
            other[x[0]].append(x)
    if not other:
        return Result('skip')
    dom = N(job['Domain'])
    pairs = []
    names = sorted(other)
    labels = gen.LETTERS + ['w', 'fresh', 'ns1', 'z', 'x', 'y', 'q']
    for _ in range(14):
        base = rng.choice(names)
        c = base + tuple(rng.choice(labels) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        if rng.random() < .15:
            c = rng.choice(sorted(own))
        if c in own:
            cl = own[c]
            pairs.append((cl, c, ()))
            continue
        p = c
        while p not in other and len(p) > len(dom):
            p = p[:-1]
        if p not in other:
            # nothing covers this name
            return Result('bad', ['no class covers %s for the job on %s' % (S(c), job['Domain'])], dict(case, jobs=[job]))
        # an own class of a longer ancestor without an 'other child' class would be uncovered as well
        cl = rng.choice(sorted(other[p]))
        pairs.append((cl, c, c[len(p):]))
    diffs, cnt, req = c06_pairs(d, pairs)
    if diffs is None:
        return Result('bad', ['resolution ended with ' + cnt], dict(case, jobs=[job]))
    return Result('bad' if diffs else 'ok', diffs, dict(case, jobs=[job]), cnt, key_of([case, req]), cnt['steps compared'] > 30)


@check('C06')
def c06(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'For random jobs, random concrete names under the domain are resolved by the real code and compared, step by step, ' \
               'with the real resolution of the class (as generated by the real code) that covers them. Non-trivial: more ' \
               'than 30 steps compared.'
    known = os.path.join(runner.VERIF, 'vf/known/c06.json')
    if not hasattr(ctx, 'only'):
        with open(known) as f:
            case = json.load(f)
        d = scratch()
        cases.write(case, d)
        # d.b.x. exists, by DNAMEs, but is resolved as a name that does not
        diffs, _, _ = c06_pairs(d, [((N('b.x.'), True, mask(['A']), True), N('d.b.x.'), ('d',))])
        st, out = probe(d, {'jobs': case['jobs']})
        if out and diffs and not any(N('d.b.x.') == tuple(e[0]) for e in out['jobs'][0]['ecs']):
            ctx.known_seen.add('endless-names')
    ctx.run(c06_one, items(ctx, 8000, 60000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(800, 15000)


# ---- lint (C03) -------------------------------------------------------------------------------------------------------
def lint_key(x):
    if 'Line Number' not in x:
        return ('glue', x.get('Server'), x.get('Zone'), x.get('Violation'), x.get('Resource Record'))
    v = x['Violation'].lower()
    kind = v
    if 'duplicate' in v:
        kind = 'duplicate'
    elif 'multiple cname' in v:
        kind = 'cnames'
    elif 'multiple dname' in v:
        kind = 'dnames'
    elif 'cname and other' in v:
        kind = 'cname-other'
    elif 'out of zone' in v:
        kind = 'outside'
    elif 'target' in v:
        kind = 'target-name'
    elif '255' in v:
        kind = 'long-name'
    elif '63' in v:
        kind = 'label ' + x['Violation'].split(' - ')[0]
    return ('rr', os.path.basename(x['File Name']), x['Line Number'], x['Current Record'], kind, x.get('Previous Record'))


def lint_expected(w, zones, lines):
    """list of sets of acceptable keys, one per issue"""
    out = []
    for zi, z in enumerate(w.zones):
        recs = zones[zi]
        for rej in z.rejects:
            r = recs[rej.index]
            opts = set()
            for k, info in rej.kinds:
                if k in ('long-label', 'target-label'):
                    k = 'label ' + info
                prev = [rr_str(p) for p in rej.prev] or [None]
                if k == 'duplicate':
                    prev.append(rr_str(r))
                for p in prev:
                    opts.add(('rr', 'z%d.txt' % zi, lines[zi][rej.index], rr_str(r), k, p))
            out.append(opts)
        for _, r in z.accepted:
            if r.type == 'NS' and under(z.origin, target(r)) and not z.glue(r):
                out.append({('glue', z.ns, S(z.origin), 'Missing Glue Record', rr_str(r))})
    return out


def match_lint(want, got):
    diffs = []
    got = list(got)
    for opts in sorted(want, key=len):
        hit = next((g for g in got if g in opts), None)
        if hit is None:
            diffs.append('issue not listed: %r' % (sorted(opts, key=repr)[0],))
        else:
            got.remove(hit)
    for g in got:
        diffs.append('listed, but no issue: %r' % (g,))
    return diffs


def c03_one(item):
    rng = rng_of('C03', item)
    top, zones = gen.world(rng, conflicts=rng.choice([0, 3, 8]), long=rng.choice([0, 0, .3]), ns=rng.choice([1, 3]))
    case = cases.mk(top, zones, layout=None if rng.random() < .4 else rng.randrange(1 << 30))
    w = cases.model(case)
    job = gen.job(rng, w, must=rng.sample(gen.ALLP, 2), pmore=0)
    try:
        cases.graphs(w, job)
    except TooBig:
        job = {'Domain': 'zz.', 'SubDomain': False, 'Properties': [{'PropertyName': 'LameDelegation'}]}
    case['jobs'] = [job]
    d = scratch()
    lines = cases.write(case, d)
    r = cases.run(BIN['plain', 'groot'], d, args=['--lint'])
    diffs, files = [], {}
    cnt = Counter()
    if r.status != 'exit 0' or r.report is None:
        diffs = [bad_end(r)]
    elif r.lint is None:
        diffs = ['lint.json is missing or not valid JSON']
        try:
            with open(os.path.join(d, 'lint.json'), errors='replace') as f:
                files['lint.json'] = f.read()
        except OSError:
            pass
    else:
        want = lint_expected(w, [z[2] for z in zones], lines)
        try:
            diffs = match_lint(want, [lint_key(x) for x in r.lint])
        except (KeyError, TypeError) as e:
            diffs = ['malformed lint entry: %r' % e]
        cnt['issues expected'] = len(want)
        for o in want:
            k = sorted(o, key=repr)[0]
            cnt['issue ' + (k[4].split()[0] if k[0] == 'rr' else 'missing glue')] += 1
        if item[1] % 4 == 0 or diffs:
            r2 = cases.run(BIN['plain', 'groot'], d)
            cnt['runs without lint'] += 1
            if r2.status != r.status or r2.report != r.report:
                if r2.report is None or cases.parse(r2.report) != cases.parse(r.report):
                    diffs.append('the report differs with and without --lint')
            if r2.lint is not None or os.path.exists(os.path.join(d, 'lint.json')):
                diffs.append('lint.json was written without --lint')
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of(case), cnt['issues expected'] > 0, files=files)


@check('C03')
def c03(ctx):
    need(('plain', ('groot',)))
    ctx.rule = 'Random zone files with injected conflicts, out-of-zone, over-long and glue-less records in random layouts, run ' \
               'with --lint (and every fourth also without); lint.json is compared as a multiset with the issues the ' \
               'reference loading rules give. Non-trivial: at least one issue.'
    ctx.run(c03_one, items(ctx, 6000, 40000), chunk=8)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(1200, 15000)


# ---- job lists (C19), letter case (C24), order (C25) ------------------------------------------------------------------
LOOSE = ('Zero TTL', 'Response Consistency', 'Cyclic Zone Dependency')


def loosen(title, got):
    """what has to be equal in two runs on the same or an equivalent input: these reports name a representative"""
    if title == 'Zero TTL':
        return {x[1:] for x in got}
    if title == 'Response Consistency':
        return bool(got)
    if title == 'Cyclic Zone Dependency':
        return bool(got)
    return got


def diff_runs(a, b, na, nb):
    diffs = []
    for t in sorted(set(a) | set(b)):
        x, y = loosen(t, a[t]), loosen(t, b[t])
        if x == y:
            continue
        if isinstance(x, bool):
            diffs.append('%s: reported by %s only' % (t, na if x else nb))
            continue
        for v in sorted(x - y, key=repr)[:3]:
            diffs.append('%s: only in %s: %r' % (t, na, v))
        for v in sorted(y - x, key=repr)[:3]:
            diffs.append('%s: only in %s: %r' % (t, nb, v))
    return diffs


def bounded_case(rng, njobs, jobf=None, **kw):
    """configuration + jobs whose analysis is small -> (case, model, [graphs of each job]) or None"""
    for _ in range(40):
        top, zones = gen.world(rng, **kw)
        case = cases.mk(top, zones)
        w = cases.model(case)
        try:
            jobs = [jobf(rng, w) if jobf else gen.job(rng, w, must=rng.sample(gen.ALLP, rng.choice([1, 2, 3])), pmore=.3)
                    for _ in range(njobs)]
            gs = [cases.graphs(w, j) for j in jobs]
            for j, g in zip(jobs, gs):
                for x in g:
                    x.paths()
        except TooBig:
            continue
        case['jobs'] = jobs
        return case, w, gs
    return None


def many_job(r):
    """more violations than classes"""
    return {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'NameserverContact', 'Value': ['nowhere.']}] + r.sample(
        [{'PropertyName': 'Hops', 'Value': 0}, {'PropertyName': 'ResponseReturned', 'Types': ['SPF']},
         {'PropertyName': 'ResponseValue', 'Types': ['A'], 'Value': ['0.0.0.0']}], 2)}


def report_of(case, jobs, d=None, name='', **kw):
    d = d or scratch()
    c = dict(case, jobs=jobs)
    cases.write(c, d)
    r = cases.run(BIN['plain', 'groot'], d, jobs=jobs is not None, **kw)
    if r.status != 'exit 0' or r.report is None:
        return None, bad_end(r)
    return cases.parse(r.report), None


def c19_one(item):
    rng = rng_of('C19', item)
    cnt = Counter()
    if rng.random() < .25:
        b = bounded_case(rng, 1, lambda r, w: json.loads(json.dumps(cases.DEFAULT_JOB)), **chainy(rng))
        if b is None:
            return Result('skip')
        case, w, gs = b
        got, e1 = report_of(case, None)
        want, e2 = report_of(case, case['jobs'])
        if e1 or e2:
            return Result('bad', [e1 or e2], case)
        diffs = diff_runs(want, got, 'the explicit default job', 'the run without jobs file')
        exp = cases.expect_job(w, case['jobs'][0], gs[0])
        for t in set(cases.TITLE.values()) | {'Cyclic Zone Dependency'}:
            diffs += cases.diff_title(t, exp, got)[0]
        cnt['runs without a jobs file'] = 1
        cnt['violations'] = sum(len(x) for x in want.values())
        return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of(case), cnt['violations'] > 0)

    def jf(r, w):
        j = gen.job(r, w, must=r.sample(gen.ALLP, r.choice([0, 1, 2])), pmore=.3)
        if r.random() < .25:
            j['Properties'].append({'PropertyName': 'StructuralDelegationConsistency'})
        if r.random() < .3:
            j['Domain'] = '.'
        return j
    b = bounded_case(rng, rng.choice([2, 3, 4]), jf, mutate=.7, **{k: v for k, v in chainy(rng).items() if k != 'mutate'})
    if b is None:
        return Result('skip')
    case, w, gs = b
    jobs = case['jobs']
    singles = []
    for j in jobs:
        g, e = report_of(case, [j])
        if e:
            return Result('bad', [e], case)
        singles.append(g)
    orders = [list(range(len(jobs))), rng.sample(range(len(jobs)), len(jobs))]
    k = rng.randrange(len(jobs))
    orders.append([k, k])
    orders.append([rng.randrange(len(jobs)) for _ in range(5)])
    diffs = []
    for o in orders:
        got, e = report_of(case, [jobs[i] for i in o])
        cnt['job lists run'] += 1
        if e:
            diffs.append('jobs %r: %s' % (o, e))
            continue
        want = defaultdict(set)
        for i in o:
            for t, v in singles[i].items():
                want[t] |= v
        diffs += ['jobs %r: %s' % (o, x) for x in diff_runs(want, got, 'the single runs', 'the list')]
    cnt['violations'] = sum(len(v) for s in singles for v in s.values())
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of(case), cnt['violations'] > 0)


@check('C19')
def c19(ctx):
    need(('plain', ('groot',)))
    ctx.rule = 'Job lists (in order, permuted, repeated, with and without structural checks) on random configurations: the report ' \
               'must be the union of the reports of single-job runs; runs without a jobs file must equal the documented default ' \
               'job and the model. Non-trivial: some violation is reported.'
    ctx.run(c19_one, items(ctx, 700, 12000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(200, 5000)


def c24_one(item):
    rng = rng_of('C24', item)
    b = bounded_case(rng, rng.choice([1, 2]), None, wild=.2, conflicts=rng.choice([0, 3]))
    if b is None:
        return Result('skip')
    case, w, gs = b
    base, e = report_of(case, case['jobs'])
    if e:
        return Result('bad', [e], case)
    p = rng.choice([.3, .5, 1])
    rc = lambda s: gen.recase(rng, s, p)
    var = json.loads(json.dumps(case))
    var['top'] = [rc(t) for t in var['top']]
    var['layout'] = rng.randrange(1 << 30)
    var['case'] = .5
    for z in var['zones']:
        z[0] = rc(z[0])
    for j in var['jobs']:
        j['Domain'] = rc(j['Domain'])
        for q in j['Properties']:
            if isinstance(q.get('Value'), list):
                q['Value'] = [rc(v) for v in q['Value']]
    d = scratch()
    cases.write(var, d)
    mp = os.path.join(d, 'metadata.json')
    with open(mp) as f:
        meta = json.load(f)
    for z in meta['ZoneFiles']:
        if 'Origin' in z:
            z['Origin'] = rc(z['Origin'])
    with open(mp, 'w') as f:
        json.dump(meta, f)
    r = cases.run(BIN['plain', 'groot'], d)
    if r.status != 'exit 0' or r.report is None:
        return Result('bad', [bad_end(r)], var)
    diffs = diff_runs(base, cases.parse(r.report), 'the lower-case run', 'the mixed-case run')
    st, out = probe(d, {'zones': True})
    if out is None:
        diffs.append('loading ended with ' + st)
    else:
        diffs += loaded_diffs(w, out)
    n = sum(len(v) for v in base.values())
    return Result('bad' if diffs else 'ok', diffs, var, {'records loaded': sum(len(z.accepted) for z in w.zones), 'violations compared': n},
                  key_of(var), n > 0)


@check('C24')
def c24(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'Every configuration is run in lower case and with random case in zone files, metadata and jobs; loaded records and ' \
               'violations have to agree. Non-trivial: some violation is reported.'
    ctx.run(c24_one, items(ctx, 2400, 20000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(500, 8000)


def c25_one(item):
    rng = rng_of('C25', item)
    b = bounded_case(rng, rng.choice([1, 2]), None, mutate=.7, **{k: v for k, v in chainy(rng).items() if k != 'mutate'})
    if b is None:
        return Result('skip')
    case, w, gs = b
    var = json.loads(json.dumps(case))
    if rng.random() < .8:
        rng.shuffle(var['zones'])
    if rng.random() < .8:
        rng.shuffle(var['top'])
    if rng.random() < .9:
        for z in var['zones']:
            rest = z[2][1:]
            rng.shuffle(rest)
            z[2] = z[2][:1] + rest
    if var == case:
        return Result('skip')
    base, e = report_of(case, case['jobs'])
    if e:
        return Result('bad', [e], case)
    d = scratch()
    cases.write(case, d)
    s1, o1 = probe(d, {'jobs': case['jobs']})
    got, e = report_of(var, var['jobs'])
    if e:
        return Result('bad', [e], var)
    d = scratch()
    cases.write(var, d)
    s2, o2 = probe(d, {'jobs': var['jobs']})
    diffs = diff_runs(base, got, 'the first order', 'the other order')
    if o1 is None or o2 is None:
        diffs.append('class generation ended with %s / %s' % (s1, s2))
    else:
        f = lambda o: [{(tuple(n), a, b, c) for n, a, b, c in j['ecs']} for j in o['jobs']]
        if f(o1) != f(o2):
            diffs.append('the checked classes differ')
    # reports that name a representative: right in both orders or in none
    wv = cases.model(var)
    try:
        e1 = e2 = None
        for j, g in zip(case['jobs'], gs):
            e1 = cases.expect_job(w, j, g, e1)
        for j in var['jobs']:
            e2 = cases.expect_job(wv, j, cases.graphs(wv, j), e2)
        for t in LOOSE:
            a, b2 = cases.diff_title(t, e1, base)[0], cases.diff_title(t, e2, got)[0]
            if bool(a) != bool(b2):
                diffs += ['%s order: %s' % ('first' if a else 'other', x) for x in (a or b2)[:3]]
    except TooBig:
        pass
    n = sum(len(v) for v in base.values())
    return Result('bad' if diffs else 'ok', diffs, {'first': case, 'other': var}, {'violations compared': n}, key_of([case, var]), n > 0)


@check('C25')
def c25(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'Every configuration is run twice, with zone files, top servers and records in different orders; classes and ' \
               'violations have to agree up to representatives. Non-trivial: some violation is reported.'
    ctx.run(c25_one, items(ctx, 2400, 20000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(250, 8000)


# ---- statistics (C26) -------------------------------------------------------------------------------------------------
import re
ISSUE_COUNT = {'duplicate': 'Duplicate-Records', 'cnames': 'CNAME/DNAME Errors', 'dnames': 'CNAME/DNAME Errors',
               'cname-other': 'CNAME/DNAME Errors', 'outside': 'Out-of-Zone-Records', 'long-label': 'Label Length Exceeded',
               'target-label': 'Label Length Exceeded', 'long-name': 'Domain Length Exceeded',
               'target-name': 'Domain Length Exceeded'}


def parse_stats(text):
    s = {'jobs': []}
    m = re.search(r'Total number of RRs parsed across all zone files: (-?\d+)', text)
    s['rrs'] = m and int(m.group(1))
    m = re.search(r'RR Stats: (.*)', text)
    s['types'] = {}
    if m:
        for e in m.group(1).split(','):
            if ':' in e:
                k, v = e.strip().rsplit(':', 1)
                s['types'][k] = int(v)
    m = re.search(r'Label Graph: vertices = (-?\d+), edges = (-?\d+)', text)
    s['labels'] = m and (int(m.group(1)), int(m.group(2)))
    ecs = re.findall(r'Number of ECs: (-?\d+)', text)
    num = r'Max=([^,\s]+), Min=([^,\s]+), Mean=([^,\s]+)'
    vs = re.findall('Interpretation Graph Vertices: ' + num, text)
    es = re.findall('Interpretation Graph Edges: ' + num, text)
    for a, b, c in zip(ecs, vs, es):
        s['jobs'].append((int(a), tuple(map(float, b)), tuple(map(float, c))))
    s['njobs'] = (len(ecs), len(vs), len(es))
    m = re.search(r'Total number of ECs across all jobs: (-?\d+)', text)
    s['total_ecs'] = m and int(m.group(1))
    m = re.search(r'Total number of violations: (-?\d+)', text)
    s['violations'] = m and int(m.group(1))
    return s


def c26_one(item):
    rng = rng_of('C26', item)
    kw = {k: v for k, v in chainy(rng).items()}
    kw['conflicts'] = rng.choice([0, 4, 10])
    njobs = rng.choice([1, 2, 3])
    if rng.random() < .01:       # many classes and violations
        kw = dict(wide=515, zones=1, extra=2)
        b = bounded_case(rng, njobs, lambda r, w: many_job(r), **kw)
    else:
        b = bounded_case(rng, njobs, lambda r, w: gen.job(r, w, must=r.sample(gen.ALLP, r.choice([0, 2, 2, 2])), pmore=0), **kw)
    if b is None:
        return Result('skip')
    case, w, gs = b
    if any(not g for g in gs):
        return Result('skip')
    if rng.random() < .15:      # a job once more, after others
        i = rng.randrange(len(gs))
        case['jobs'].append(case['jobs'][i])
        gs.append(gs[i])
    case['layout'] = rng.randrange(1 << 30) if rng.random() < .3 else None
    d = scratch()
    cases.write(case, d)
    st, out = probe(d, {'jobs': case['jobs']})
    if out is None:
        return Result('bad', ['class generation ended with ' + st], case)
    r = cases.run(BIN['plain', 'groot'], d, args=['-s'])
    if r.status != 'exit 0' or r.report is None:
        return Result('bad', [bad_end(r)], case)
    s = parse_stats(r.out)
    diffs = []

    def eq(what, got, want):
        if got != want:
            diffs.append('%s: %r instead of %r' % (what, got, want))
    eq('records parsed', s['rrs'], sum(len(z[2]) for z in case['zones']))
    types = Counter()
    alts = Counter()
    for z in w.zones:
        for _, x in z.accepted:
            types[x.type] += 1
            if x.name and x.name[-1] == '*':
                types['Wildcard'] += 1
        for rej in z.rejects:
            names = sorted({ISSUE_COUNT[k] for k, _ in rej.kinds})
            (types if len(names) == 1 else alts)['|'.join(names)] += 1
    got = dict(s['types'])
    for k, n in alts.items():    # several reasons: counted under one of them
        for _ in range(n):
            for c in k.split('|'):
                if got.get(c, 0) > types[c]:
                    types[c] += 1
                    break
    eq('record counts', {k: v for k, v in got.items() if v}, {k: v for k, v in types.items() if v})
    eq('label graph', s['labels'], (len(w.names), w.tree_edges()))
    eq('number of jobs with statistics', s['njobs'], (len(case['jobs']),) * 3)
    total = 0
    for i, (job, g, o) in enumerate(zip(case['jobs'], gs, out['jobs'])):
        by = {(x.v[x.root][1], x.nonex): x for x in g}
        n = len(o['ecs'])
        total += n
        sizes, esizes = [], []
        for name, excl, types_, nonex in o['ecs']:
            x = by.get(((tuple(name), excl, types_), nonex))
            if x is None:
                break       # C05 decides whether the classes are right
            sizes.append(len(x.v))
            esizes.append(len(x.edges))
        else:
            if i < len(s['jobs']) and sizes:
                a, v, e = s['jobs'][i]
                eq('job %d: classes' % i, a, n)
                for what, seen, real in (('vertices', v, sizes), ('edges', e, esizes)):
                    want = (max(real), min(real), sum(real) / len(real))
                    if any(abs(p - q) > 1e-4 * max(1, abs(q)) for p, q in zip(seen, want)):
                        diffs.append('job %d: graph %s max/min/mean %r instead of %r' % (i, what, seen, want))
    eq('classes over all jobs', s['total_ecs'], total)
    eq('violations', s['violations'], len(r.report))
    return Result('bad' if diffs else 'ok', diffs, case, {'records': s['rrs'] or 0, 'classes': total, 'jobs': len(case['jobs']),
                  'violations': len(r.report)}, key_of(case), total > 5)


@check('C26')
def c26(ctx):
    need(('plain', ('groot', 'probe')))
    ctx.rule = 'The statistics printed by -s on random configurations and job lists are compared with the records written, the ' \
               'reference loading rules, the classes drained from the real generator, the model graphs and the report. ' \
               'Non-trivial: more than 5 classes.'
    ctx.run(c26_one, items(ctx, 3000, 15000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(300, 5000)


# ---- exit status and output files (C23) ------------------------------------------------------------------------------
def edit_json(d, name, f):
    p = os.path.join(d, name)
    with open(p) as h:
        x = json.load(h)
    y = f(x)
    with open(p, 'w') as h:
        json.dump(x if y is None else y, h)


def put(d, name, text):
    p = os.path.join(d, name)
    if os.path.isdir(p):
        shutil.rmtree(p)
    with open(p, 'w') as h:
        h.write(text)


def cut(d, name, rng):
    with open(os.path.join(d, name)) as h:
        t = h.read()
    put(d, name, t[:rng.randrange(0, len(t) - 1)])


def anyfile(rng, d):
    return 'z%d.txt' % rng.randrange(sum(1 for f in os.listdir(d) if re.fullmatch(r'z\d+\.txt', f)))


def drop(x, k):
    x.pop(k, None)


def late_job(rng, x, bad):
    """puts the bad job at a random place of the list"""
    x.insert(rng.randrange(len(x) + 1), bad)


GOODP = [{'PropertyName': 'LameDelegation'}]
BADJOBS = [
    {'SubDomain': True, 'Properties': GOODP}, {'Domain': '.', 'Properties': GOODP}, {'Domain': '.', 'SubDomain': True},
    {'Domain': 7, 'SubDomain': True, 'Properties': GOODP}, {'Domain': '.', 'SubDomain': 'yes', 'Properties': GOODP},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{}]}, {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 3}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'Hops'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'Hops', 'Value': 'many'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'Hops', 'Value': 1 << 32}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'Rewrites', 'Value': -1e300}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'Rewrites'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'QueryRewrite'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'NameserverContact'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseValue', 'Types': ['A']}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'AllAliases'}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'QueryRewrite', 'Value': [1]}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseReturned', 'Types': ['BOGUS']}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'ZeroTTL', 'Types': ['A', 'AAAAA']}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseConsistency', 'Types': ['a b']}]},
    {'Domain': '.', 'SubDomain': True, 'Properties': [{'PropertyName': 'ResponseConsistency', 'Types': ['']}]},
    'job', 5, None]

# name -> (function preparing the fault in d, extra arguments)
FAULTS = {
    'metadata missing': (lambda r, d: os.unlink(d + '/metadata.json'), []),
    'metadata truncated': (lambda r, d: cut(d, 'metadata.json', r), []),
    'metadata empty': (lambda r, d: put(d, 'metadata.json', ''), []),
    'metadata garbage': (lambda r, d: put(d, 'metadata.json', r.choice(['[[', 'null null', '{"a":}', 'TopNameServers', '\x01'])), []),
    'metadata without TopNameServers': (lambda r, d: edit_json(d, 'metadata.json', lambda x: drop(x, 'TopNameServers')), []),
    'metadata without ZoneFiles': (lambda r, d: edit_json(d, 'metadata.json', lambda x: drop(x, 'ZoneFiles')), []),
    'zone file without FileName': (lambda r, d: edit_json(d, 'metadata.json', lambda x: drop(r.choice(x['ZoneFiles']), 'FileName')), []),
    'zone file without NameServer': (lambda r, d: edit_json(d, 'metadata.json', lambda x: drop(r.choice(x['ZoneFiles']), 'NameServer')), []),
    'FileName is a number': (lambda r, d: edit_json(d, 'metadata.json', lambda x: r.choice(x['ZoneFiles']).update(FileName=3)), []),
    'NameServer is a number': (lambda r, d: edit_json(d, 'metadata.json', lambda x: r.choice(x['ZoneFiles']).update(NameServer=3)), []),
    'Origin is a number': (lambda r, d: edit_json(d, 'metadata.json', lambda x: r.choice(x['ZoneFiles']).update(Origin=3)), []),
    'a top server is a number': (lambda r, d: edit_json(d, 'metadata.json', lambda x: x['TopNameServers'].insert(
        r.randrange(len(x['TopNameServers']) + 1), 3)), []),
    'no top server has a zone file': (lambda r, d: edit_json(d, 'metadata.json', lambda x: x.update(TopNameServers=['nobody.'])), []),
    'no top servers': (lambda r, d: edit_json(d, 'metadata.json', lambda x: x.update(TopNameServers=[])), []),
    'zone file missing': (lambda r, d: os.unlink(os.path.join(d, anyfile(r, d))), []),
    'zone file missing (listed twice)': (lambda r, d: edit_json(d, 'metadata.json', lambda x: x['ZoneFiles'].append(
        {'FileName': 'nofile.txt', 'NameServer': x['ZoneFiles'][0]['NameServer']})), []),
    'zone file is a dangling link': (lambda r, d: (lambda f: (os.unlink(f), os.symlink('/nonexistent/zone', f)))(
        os.path.join(d, anyfile(r, d))), []),
    'zone file does not start with its SOA': (lambda r, d: (lambda f: put(d, f, r.choice(
        ['a. 300 IN A 1.1.1.1\n', 'x. 300 IN NS a.\n', '$TTL 300\n; c\nx. TXT "t"\n']) + open(os.path.join(d, f)).read()))(
        anyfile(r, d)), []),
    'jobs file missing': (lambda r, d: os.unlink(d + '/jobs.json'), []),
    'jobs file truncated': (lambda r, d: cut(d, 'jobs.json', r), []),
    'jobs file empty': (lambda r, d: put(d, 'jobs.json', ''), []),
    'jobs file is a directory': (lambda r, d: (os.unlink(d + '/jobs.json'), os.mkdir(d + '/jobs.json')), []),
    'malformed job': (lambda r, d: edit_json(d, 'jobs.json', lambda x: late_job(r, x, r.choice(BADJOBS))), []),
    'output directory missing': (None, ['--output=nodir/out.json']),
    'output is a directory': (lambda r, d: os.mkdir(d + '/odir'), ['--output=odir']),
    'output device full': (None, ['--output=/dev/full']),
    'output empty name': (None, ['--output=']),
    'lint.json is a directory': (lambda r, d: os.mkdir(d + '/lint.json'), ['--lint']),
    'no space for the report': (lambda r, d: r.randrange(2), []),
    'no space for lint.json': (lambda r, d: r.randrange(2), ['--lint', '--output=/dev/null']),
    'no arguments': (None, None),
    'unknown option': (None, ['--frobnicate']),
    'two directories': (None, ['again']),
}


def c23_run(d, args, use_jobs=True, space=None):
    import resource, signal, subprocess

    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (space, space))
    cmd = [BIN['plain', 'groot']]
    if args is not None:
        cmd += [d] + (['--jobs=' + d + '/jobs.json'] if use_jobs else []) + list(args)
    for t in (20, 60):
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t,
                               preexec_fn=limit if space is not None else None)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            pass
    return 'hang', ''


def c23_one(item):
    rng = rng_of('C23', item)
    b = bounded_case(rng, rng.choice([1, 1, 2]), lambda r, w: gen.job(r, w, must=r.sample(gen.ALLP, 2), pmore=.2),
                     conflicts=rng.choice([0, 3]))
    if b is None:
        return Result('skip')
    case, w, gs = b
    d = scratch()
    cases.write(case, d)
    cnt = Counter()
    diffs = []
    if rng.random() < .55:
        name = sorted(FAULTS)[item[1] % len(FAULTS)]
        prep, args = FAULTS[name]
        # an old report must not look like the result of the failed run
        space = prep(rng, d) if prep else None
        rc, out = c23_run(d, args, True, space if 'space' in name else None)
        cnt['fault ' + name] += 1
        if rc == 0:
            diffs.append('exit status 0 although: %s; output: %s' % (name, out[-300:]))
        elif rc == 'hang' or rc < 0:
            diffs.append('%s: ended with %s instead of a failure status; output: %s' % (name, rc, out[-300:]))
        elif not out.strip():
            diffs.append('%s: fails without saying so' % name)
        return Result('bad' if diffs else 'ok', diffs, dict(case, fault=name), cnt, key_of([case, name]), True)
    # a run without faults
    args = []
    outf = 'output.json'
    if rng.random() < .5:
        outf = rng.choice(['report.json', 'sub/out.json', d + '/abs.json', 'output.json'])
        args.append('--output=' + outf)
        os.makedirs(d + '/sub', exist_ok=True)
    lint = rng.random() < .5
    if lint:
        args.append('--lint')
    for f in ('-s', '-l', '-v'):
        if rng.random() < .3:
            args.append(f)
    rng.shuffle(args)
    use_jobs = rng.random() < .8
    p = os.path.join(d, outf)
    if rng.random() < .4:
        with open(p, 'w') as f:
            f.write('[\n' + '{"old": "report"},\n' * 4000)
    if lint and rng.random() < .4:
        put(d, 'lint.json', '[{"old": 1},\n' * 3000)
    jobs = case['jobs']
    if not use_jobs:
        jobs = [cases.DEFAULT_JOB]
    elif rng.random() < .08:     # nothing to check
        jobs = case['jobs'] = [] if rng.random() < .5 else [dict(j, Properties=[], SubDomain=False, Domain='.'.join(['a' * 60] * 5) + '.')
                                                            for j in jobs]
        put(d, 'jobs.json', json.dumps(jobs))
    try:
        exp = cases.Expect()
        for j in jobs:
            exp = cases.expect_job(w, j, cases.graphs(w, j), exp)
    except TooBig:
        return Result('skip')
    rc, out = c23_run(d, args, use_jobs)
    cnt['runs without fault'] += 1
    cnt['runs with --lint'] += lint
    if rc != 0:
        diffs.append('status %s without any fault: %s' % (rc, out[-300:]))
    else:
        try:
            with open(p, encoding='utf-8') as f:
                rep = json.load(f)
        except (OSError, ValueError) as e:
            rep = None
            diffs.append('exit status 0 but %s is not a complete JSON report: %s' % (outf, e))
        if rep is not None:
            cnt['violations reported'] += len(rep)
            got = cases.parse(rep)
            for t in set(cases.TITLE.values()) | {'Cyclic Zone Dependency'}:
                diffs += cases.diff_title(t, exp, got)[0][:2]
            if len({json.dumps(x, sort_keys=True) for x in rep}) != len(rep):
                diffs.append('the report lists a violation twice')
        if outf != 'output.json' and os.path.exists(d + '/output.json'):
            diffs.append('output.json written although another file was asked for')
        if lint:
            try:
                with open(d + '/lint.json', encoding='utf-8') as f:
                    li = json.load(f)
                n = sum(len(z.rejects) for z in w.zones) + sum(1 for z in w.zones for _, x in z.accepted if x.type == 'NS' and
                                                             under(z.origin, target(x)) and not z.glue(x))
                if len(li) != n:
                    diffs.append('lint.json has %d entries instead of %d' % (len(li), n))
            except (OSError, ValueError) as e:
                diffs.append('exit status 0 but lint.json is not valid JSON: %s' % e)
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of([case, args]), True)


@check('C23')
def c23(ctx):
    need(('plain', ('groot',)))
    ctx.level = 'fault_enumeration'
    ctx.rule = 'Random configurations run through the command line with one of %d input, argument and output faults (all of them in ' \
               'every run), or without fault and with random options, over old output files. Exit status, message and files are ' \
               'checked; without fault the report must equal the reference.' % len(FAULTS)
    ctx.run(c23_one, items(ctx, 6000, 12000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(600, 6000)
    if not hasattr(ctx, 'only') and not ctx.bad:
        miss = [f for f in FAULTS if not ctx.counts['fault ' + f]]
        if miss:
            ctx.errors.append(('coverage', Result('error', ['faults not exercised: %r' % miss])))
