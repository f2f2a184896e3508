"""A case: configuration + jobs, as a JSON-able dict. Writing it to disk, running the real program on it, and turning the
report and the model's expectation into comparable sets."""
import json, os, subprocess, signal
from vf.model import *
from vf import gen


def mk(top, zones, jobs=None, layout=None, origins=False):
    return {'top': top, 'zones': [[ns, list(o), [[list(r.name), r.type, r.ttl, r.rdata] for r in recs]] for ns, o, recs in zones],
            'jobs': jobs, 'layout': layout}


def recs_of(z):
    return [Rec(tuple(n), t, ttl, d) for n, t, ttl, d in z[2]]


def model(case):
    return World(case['top'], [(z[0], recs_of(z)) for z in case['zones']])


def write(case, d):
    """-> metadata; files are z0.txt, z1.txt, ..."""
    import random
    os.makedirs(d, exist_ok=True)
    meta = {'TopNameServers': case['top'], 'ZoneFiles': []}
    lines = []
    for i, z in enumerate(case['zones']):
        f = 'z%d.txt' % i
        e = {'FileName': f, 'NameServer': z[0]}
        if case.get('layout') is None:
            text, ln = gen.simple(recs_of(z))
        else:
            rng = random.Random('%s-%d' % (case['layout'], i))
            org = rng.random() < 0.4
            text, ln = gen.render(rng, recs_of(z), tuple(z[1]) if org else None, case=case.get('case', 0))
            if org:
                e['Origin'] = S(tuple(z[1]))
        with open(os.path.join(d, f), 'w', newline='') as h:
            h.write(text)
        lines.append(ln)
        meta['ZoneFiles'].append(e)
    with open(os.path.join(d, 'metadata.json'), 'w') as h:
        json.dump(meta, h)
    if case.get('jobs') is not None:
        with open(os.path.join(d, 'jobs.json'), 'w') as h:
            json.dump(case['jobs'], h)
    return lines


class Run:
    def __init__(self, status, out, report, lint=None):
        self.status, self.out, self.report, self.lint = status, out, report, lint


def run(groot, d, jobs=True, args=(), timeout=20, env=None, output='output.json', wrap=()):
    """status: 'exit N', 'signal N' or 'hang'"""
    cmd = list(wrap) + [groot, d] + (['--jobs=' + os.path.join(d, 'jobs.json')] if jobs else []) + \
        ['--output=' + output] + list(args)
    for f in (output, 'lint.json'):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    status, text = None, ''
    for t in (timeout, timeout * 3):
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
            status = 'exit %d' % r.returncode if r.returncode >= 0 else 'signal %d' % -r.returncode
            text = r.stdout.decode(errors='replace')
            break
        except subprocess.TimeoutExpired as e:
            status = 'hang'
            text = (e.stdout or b'').decode(errors='replace')
    report, lint = None, None
    try:
        with open(os.path.join(d, output), encoding='utf-8') as h:
            report = json.load(h)
    except (OSError, ValueError):
        pass
    try:
        with open(os.path.join(d, 'lint.json'), encoding='utf-8') as h:
            lint = json.load(h)
    except (OSError, ValueError):
        pass
    return Run(status, text, report, lint)


# ---- what the program reported, as sets -------------------------------------------------------------------------------
def v_(x, *k):
    return tuple(x['Violation'][i] for i in k)


def parse(report):
    """-> {property title: set of hashable violations}"""
    out = defaultdict(set)
    once = {json.dumps(x, sort_keys=True) for x in report}
    if len(once) != len(report):
        out['UNKNOWN'].add('%d entries are listed again' % (len(report) - len(once)))
    for x in report:
        p = x['Property']
        q = x.get('Query')
        if p == 'Hops':
            e = (q,) + v_(x, 'ActualHops', 'MaxAllowedHops')
        elif p == 'Rewrites':
            e = (q,) + v_(x, 'ActualRewrites', 'MaxAllowedRewrites')
        elif p == 'Lame Delegation':
            e = (q,) + v_(x, 'Nameserver1', 'Nameserver2')
        elif p == 'Delegation Consistency':
            e = (q,) + v_(x, 'Nameserver1', 'Nameserver2', 'InconsistencyType')
        elif p == 'Query Rewrite':
            e = (q,) + v_(x, 'RewriteTarget', 'Nameserver', 'ExpectedUnder')
        elif p == 'Name Server Contact':
            e = (q,) + v_(x, 'ExternalNameserver', 'AllowedDomains')
        elif p == 'Rewrite Blackholing':
            e = (q,) + v_(x, 'RewriteTarget', 'BlackholeNameserver')
        elif p == 'DNAME Substitution exceeds length':
            e = (q,) + v_(x, 'RewriteTarget', 'Nameserver')
        elif p == 'Infinite DName Recursion':
            u = x.get('RRsUsed', x.get('Violation', {}).get('RRsUsed') if isinstance(x.get('Violation'), dict) else None)
            e = (x['Query1'], x['Query2'], frozenset(u.values()))
        elif p == 'All Aliases':
            e = frozenset((c['Canonical Name'], a) for c in x['Canonical Name and their Aliases'] for a in c['Aliases'])
            n = [c['Canonical Name'] for c in x['Canonical Name and their Aliases']]
            if len(n) != len(set(n)):
                e = ('repeated canonical name', e)
        elif p == 'ResponseReturned':
            e = (q,) + v_(x, 'Types', 'Nameserver')
        elif p == 'Response Value':
            m = [(y['Found'], y['Query'], y['Nameserver']) for y in x['Mismatches']]
            e = (x['Expected'], frozenset(m), len(m) == len(set(m)))
        elif p == 'Response Consistency':
            e = (q,)
        elif p == 'Zero TTL':
            e = (q,) + v_(x, 'Nameserver', 'Record')
        elif p == 'Structural Delegation Consistency':
            e = (x['Domain Name'], frozenset(parse_pair(y) for y in x['Inconsistent Pairs']))
        elif p == 'Cyclic Zone Dependency':
            e = tuple((y['NS'], y['Query'], y.get('AnswerTag')) for y in x['Loop'])
        else:
            p, e = 'UNKNOWN', json.dumps(x, sort_keys=True)
        out[p].add(e)
    return out


def parse_pair(y):
    keys = [k for k in y if k.endswith(' NS') and not k.startswith('Exclusive')]
    sides = []
    for k in keys:
        kind = k[:-3]
        g = lambda what: frozenset(y.get('Exclusive %s %s Records' % (kind, what), []))
        sides.append((kind.split('-')[0], y[k], g('NS'), g('Glue')))
    c = (frozenset(y.get('Common NS Records', [])), frozenset(y.get('Common Glue Records', [])))
    if len(sides) != 2:
        return c + (frozenset(sides),)
    a, b = sides
    return c + (frozenset([(a, 0), (b, 0)]) if a != b else frozenset([(a, 0), (a, 1)]),)


# ---- what the model expects -------------------------------------------------------------------------------------------
TITLE = {'Hops': 'Hops', 'Rewrites': 'Rewrites', 'LameDelegation': 'Lame Delegation',
         'DelegationConsistency': 'Delegation Consistency', 'QueryRewrite': 'Query Rewrite',
         'NameserverContact': 'Name Server Contact', 'RewriteBlackholing': 'Rewrite Blackholing',
         'DNAMESubstitutionCheck': 'DNAME Substitution exceeds length', 'InfiniteDNameRec': 'Infinite DName Recursion',
         'AllAliases': 'All Aliases', 'ResponseReturned': 'ResponseReturned', 'ResponseValue': 'Response Value',
         'ResponseConsistency': 'Response Consistency', 'ZeroTTL': 'Zero TTL',
         'StructuralDelegationConsistency': 'Structural Delegation Consistency'}
DEFAULT_JOB = {'Domain': '.', 'SubDomain': True, 'Properties': [
    {'PropertyName': 'Hops', 'Value': 2}, {'PropertyName': 'Rewrites', 'Value': 1},
    {'PropertyName': 'DelegationConsistency'}, {'PropertyName': 'LameDelegation'},
    {'PropertyName': 'QueryRewrite', 'Value': ['.']}, {'PropertyName': 'RewriteBlackholing'}]}


def job_types(job):
    m = 0
    for p in job['Properties']:
        m |= mask(p['Types']) if 'Types' in p else BIT['NS']
    return m or BIT['NS']


def graphs(w, job, limit=1500):
    c = w.classes(N(job['Domain']), job['SubDomain'], job_types(job), limit)
    out, total = [], 0
    for n, excl, types, nonex in sorted(c):
        g = Graph(w, n, excl, types, nonex, limit=400)
        g.count_aug(6000)
        out.append(g)
        total += len(g.v)
        if total > 8000:
            raise TooBig('case')
    return out


class Expect:
    """must <= reported <= may for every property title; values as in parse()"""

    def __init__(self):
        self.must = defaultdict(set)
        self.may = defaultdict(set)
        self.leak = defaultdict(set)
        self.loops = []
        self.zttl = []
        self.rcons = []

    def add(self, t, must, may=None):
        self.must[t] |= must
        self.may[t] |= must if may is None else may


def bracket(domains):
    return '[' + ', '.join(S(N(d)) for d in domains) + ']'


def expect_job(w, job, gs, exp=None):
    exp = exp or Expect()
    alias = set()
    has_alias = False
    for p in job['Properties']:
        name = p['PropertyName']
        T = mask(p.get('Types', []))
        vals = p.get('Value')
        title = TITLE[name]
        if name == 'StructuralDelegationConsistency':
            if job['SubDomain']:
                exp.add(title, {(k, frozenset(v)) for k, v in w.structural(N(job['Domain'])).items()})
            continue
        if name in ('QueryRewrite', 'NameserverContact', 'AllAliases', 'ResponseValue') and not vals:
            continue
        doms = [N(v) for v in vals] if isinstance(vals, list) else None
        for g in gs:
            if name == 'Hops':
                exp.add(title, g.hops(vals))
            elif name == 'Rewrites':
                exp.add(title, g.rewrites(vals))
            elif name == 'LameDelegation':
                exp.add(title, g.lame())
            elif name == 'DelegationConsistency':
                exp.add(title, g.delegation())
            elif name == 'QueryRewrite':
                exp.add(title, {x + (bracket(vals),) for x in g.query_rewrite(doms)})
            elif name == 'NameserverContact':
                exp.add(title, {x + (bracket(vals),) for x in g.ns_contact(doms)})
            elif name == 'RewriteBlackholing':
                exp.add(title, g.blackholing())
            elif name == 'DNAMESubstitutionCheck':
                exp.add(title, g.overlong())
            elif name == 'InfiniteDNameRec':
                exp.add(title, g.infinite())
            elif name == 'AllAliases':
                has_alias = True
                alias |= g.aliases(set(doms))
            elif name == 'ResponseReturned':
                a, b = g.returned(T)
                exp.add(title, a, b)
            elif name == 'ResponseValue':
                lv = {v.lower() for v in vals}
                m = g.value(T, lv)
                if m:
                    # the report does not name the class; the listed ends identify it
                    exp.add(title, {(''.join(sorted(lv, key=lambda s: s.encode())), frozenset(m), len(m) == len(set(m)))})
            elif name == 'ResponseConsistency':
                core, whole = g.consistency(T)
                ends = {(qstr(g.v[u][1]),) for u in g.ends()}
                exp.rcons.append((core, whole, ends))
            elif name == 'ZeroTTL':
                exp.zttl.append((g.zero_ttl(T), {qstr(g.v[u][1]) for u in g.ends()}))
    if alias:
        exp.add('All Aliases', {frozenset(alias)})
    for g in gs:
        if g.cyclic():
            exp.loops.append(g)
    return exp


def diff_sets(title, exp, got):
    """list of textual differences"""
    out = []
    for x in sorted(exp.must[title] - got[title], key=repr):
        out.append('not reported: %s %r' % (title, x))
    for x in sorted(got[title] - exp.may[title], key=repr):
        out.append('wrongly reported: %s %r' % (title, x))
    return out


def diff_zero(exp, got):
    out = []
    left = set(got['Zero TTL'])
    for want, queries in exp.zttl:
        for ns, rec in want:
            hit = {x for x in got['Zero TTL'] if x[0] in queries and x[1] == ns and x[2] == rec}
            if not hit:
                out.append('not reported: Zero TTL %r for ends %r' % ((ns, rec), sorted(queries)))
            left -= hit
    for x in left:
        out.append('wrongly reported: Zero TTL %r' % (x,))
    return out


def diff_consistency(exp, got):
    """-> (differences, extra reports explained by the known finding)"""
    out, known = [], []
    rep = got['Response Consistency']
    ok = set()
    for core, whole, ends in exp.rcons:
        if core:
            if not rep & ends:
                out.append('not reported: Response Consistency, ends %r' % sorted(ends))
            ok |= ends
    for x in rep - ok:
        if any(whole and x in ends for core, whole, ends in exp.rcons):
            known.append(x)
        else:
            out.append('wrongly reported: Response Consistency %r' % (x,))
    return out, known


TAGNO = {'ANS': 0, 'REWRITE': 1, 'REF': 2, 'NX': 3, 'REFUSED': 4, 'NSNOTFOUND': 5, 'YX': 6}


def loop_in(g, loop):
    """is the reported loop a cycle of g's executions with side lookups?"""
    pos = g.places()

    def tag_ok(u, t):
        return t is None or (g.ans[u] is not None and TAGNO[g.ans[u][0]] == t)
    seq = [(ns, q) for ns, q, _ in loop]
    tags = [t for _, _, t in loop]
    if len(seq) > 1 and seq[0] == seq[-1]:
        seq, tags = seq[:-1], tags[:-1]
    if not seq or any(x not in pos for x in seq):
        return False
    n = len(seq)
    # several vertices may share (ns, text of the query) when the types differ: follow sets
    steps = 0

    def follow(path):
        nonlocal steps
        steps += 1
        if len(path) == n or steps > 20000:
            return path[0] in g.aug[path[-1]]
        k = len(path)
        return any(v not in path and v in pos.get(seq[k], ()) and tag_ok(v, tags[k]) and follow(path + [v])
                   for v in g.aug[path[-1]])
    return any(tag_ok(s, tags[0]) and follow([s]) for s in pos.get(seq[0], []))


def diff_loops(exp, got):
    out = []
    rep = got['Cyclic Zone Dependency']
    used = set()
    steps = defaultdict(set)     # step -> loops that go through it last
    for l in rep:
        steps[l[-1][:2] if l else None].add(l)
    for g in exp.loops:
        hits = {l for k, ls in steps.items() if k is None or k in g.places() for l in ls if loop_in(g, l)}
        if not hits:
            out.append('not reported: Cyclic Zone Dependency for %s' % qstr(g.v[g.root][1]))
        used |= hits
    for l in rep - used:
        out.append('wrongly reported: Cyclic Zone Dependency %r' % (l,))
    return out


def diff_title(title, exp, got):
    if title == 'Zero TTL':
        return diff_zero(exp, got), []
    if title == 'Response Consistency':
        return diff_consistency(exp, got)
    if title == 'Cyclic Zone Dependency':
        return diff_loops(exp, got), []
    return diff_sets(title, exp, got), []
