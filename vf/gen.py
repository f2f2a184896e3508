"""Workload generator: configurations of zones, jobs, and their text form with every layout of the master-file format."""
import random
from vf.model import *

ADDR = ['1.1.1.1', '2.2.2.2', '3.3.3.3', '10.0.0.1']
ADDR6 = ['::1', '2001:db8::ab', 'fe80::1']
LETTERS = ['a', 'b', 'c', 'd']
ODD = ['a\\.b', 'b\\\\', 'a\\;', '\\"c', 'a\\\\\\.b', 'd\\(', '\\.', 'a\\@']


def pick(rng, weighted):
    tot = sum(w for _, w in weighted)
    x = rng.random() * tot
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


def soa(origin, rng, ttl=3600):
    return Rec(origin, 'SOA', ttl, 'ns.%s admin.%s %d 1 2 3 4' % (S(origin) if origin else '', S(origin) if origin else '',
                                                                rng.randrange(1, 5)))


class Cfg:
    """knobs of one world"""

    def __init__(self, rng, **kw):
        self.zones = rng.choice([1, 2, 2, 3, 3, 4])
        self.extra = rng.choice([1, 3, 5, 8])
        self.labels = rng.choice([LETTERS[:2], LETTERS[:3], LETTERS])
        self.mutate = rng.choice([0, 0.3, 0.7])
        self.dname = rng.choice([0, 1, 2, 4])
        self.cname = rng.choice([0.5, 3, 5])
        self.wild = rng.choice([0, 0.15, 0.4])
        self.ns = rng.choice([0.3, 1, 2])
        self.long = kw.get('long', 0)
        self.loops = False
        self.ttl = [300, 3600, 3600, 0]
        self.conflicts = 0
        self.wide = 0
        self.types = None
        self.multi = 0.5
        self.overflow = 0.3 if self.long else 0   # names that a DNAME makes just (not) too long
        self.glue = 0.8
        self.swing = 0.2 if kw.get('loops') else 0
        self.many = 0.08     # zones with three or four servers
        self.ttls = 0.08     # copies that differ in their TTLs
        self.six = 0.25      # addresses of the other family
        self.apex = 0.06     # zones served by the machine that bears the zone's name
        self.ring = 0        # long rings of aliases or of delegations
        self.shrink = 0
        self.odd = 0.04      # labels with escaped characters
        for k, v in kw.items():
            setattr(self, k, v)
        side = random.Random(str(rng.getstate()[1][:4]))
        if side.random() < self.odd:
            self.labels = side.sample(ODD, 2) + side.sample(LETTERS, 1)


def world(rng, **kw):
    """-> (top, [(ns, origin, [Rec])])  all names lower case, records in file order"""
    c = Cfg(rng, **kw)
    lab = lambda: rng.choice(c.labels)
    longlab = lambda ch, n: (ch * n)
    # zones
    o0 = rng.choice([(), ('x',), ('x',), ('x', 'y')])
    origins = [o0]
    while len(origins) < c.zones:
        base = rng.choice(origins)
        o = base + tuple(lab() for _ in range(rng.choice([1, 1, 1, 2])))
        if rng.random() < 0.12:
            o = ('z',) + tuple(lab() for _ in range(rng.choice([0, 1])))
        if o not in origins:
            origins.append(o)
        elif rng.random() < 0.3:
            break
    # servers
    servers = {}
    pool = []
    for o in origins:
        servers[o] = []
        for k in range(rng.choice([3, 3, 4]) if rng.random() < c.many else 2 if rng.random() < c.multi else 1):
            if pool and rng.random() < 0.25:
                s = rng.choice(pool)
            else:
                home = rng.choice([o, o, o, rng.choice(origins), ('q',)])
                s = home + (rng.choice(['ns1', 'ns2', 'ns3', 'n', 'ns4']),)
                if o and rng.random() < c.apex:
                    s = o
            if s not in servers[o]:
                servers[o].append(s)
                if s not in pool:
                    pool.append(s)
    top = list(servers[o0])
    if rng.random() < 0.15:
        extra = rng.choice(pool)
        if extra not in top:
            top.append(extra)
    if rng.random() < 0.06:
        top.append(('q', 'nowhere'))
    if random.Random(str((rng.getstate()[1][:4], len(top)))).random() < 0.04:
        top.append(top[0])      # listed twice
    rng.shuffle(top)
    strangers = [('q', 'lost'), ('q', 'lost'), ('x', 'a', 'ns9'), ('x', 'a', 'ns9'), ('x',), ()]

    def some_server():
        return rng.choice(pool) if rng.random() < 0.75 else rng.choice(strangers)

    def below(o, maxn=3):
        n = o
        for _ in range(rng.choice([1, 1, 2, maxn])):
            l = lab()
            if c.long and rng.random() < c.long:
                l = longlab(lab(), rng.choice([40, 50, 60, 61, 62, 63]))
            n = n + (l,)
        return n
    content = {}
    interesting = list(origins)
    cuts = set(origins)
    for o in origins:
        recs = []
        for s in servers[o]:
            recs.append(Rec(o, 'NS', 3600, S(s)))
        if rng.random() < 0.2:
            recs.append(Rec(o, 'NS', 3600, S(some_server())))
        if rng.random() < 0.1 and len(recs) > 1:
            recs.pop(rng.randrange(len(recs)))
        kids = [k for k in origins if len(k) > len(o) and under(o, k) and
                not any(len(o) < len(m) < len(k) and under(o, m) and under(m, k) for m in origins)]
        for k in kids:
            if rng.random() < 0.9:
                for s in servers[k]:
                    if rng.random() < 0.9:
                        recs.append(Rec(k, 'NS', 3600, S(s)))
                if rng.random() < 0.15:
                    recs.append(Rec(k, 'NS', 3600, S(some_server())))
        content[o] = recs
    for o in origins:
        recs = content[o]
        for _ in range(rng.randrange(0, c.extra + 1)):
            n = below(o) if rng.random() < 0.85 else o
            if rng.random() < 0.25:
                n = rng.choice(interesting)
                if rng.random() < 0.5:
                    n = n + (lab(),)
                if not under(o, n):
                    n = o + (lab(),)
            interesting.append(n)
            if rng.random() < c.wild:
                n = n + ('*',)
                if rng.random() < 0.15:
                    n = n + tuple(lab() for _ in range(rng.choice([1, 1, 2])))
            t = pick(rng, c.types or [('A', 3), ('AAAA', 1), ('TXT', 1), ('MX', .6), ('CNAME', c.cname), ('DNAME', c.dname),
                                      ('NS', c.ns), ('SRV', .3), ('DS', .15), ('PTR', .3), ('SPF', .1), ('NSEC', .1),
                                      ('RRSIG', .1)])
            ttl = rng.choice(c.ttl)
            if '*' in n and t in ('NS', 'DNAME'):
                t = 'A'
            if t == 'DNAME' and n == ():
                t = 'A'
            recs.append(record(rng, n, t, ttl, interesting, some_server, lab, c))
            if t == 'NS' and rng.random() < 0.5:
                recs.append(record(rng, n, 'NS', ttl, interesting, some_server, lab, c))
            if t in ('A', 'MX', 'TXT') and rng.random() < 0.3:
                recs.append(record(rng, n, rng.choice(['A', 'TXT', 'MX', t]), ttl, interesting, some_server, lab, c))
        if rng.random() < c.swing:
            # DNAMEs that lead back to the first one, with other labels in front of it
            k = rng.choice([2, 2, 2, 3, 4, 5])
            p, l, y = ['%s%s' % (lab(), '' if k == 2 else i) for i in range(k)], [lab() for _ in range(k)], lab()
            if len(set(p)) == k:
                deep = rng.randrange(1, k)       # the owners that have one more label
                for i in range(k):
                    own = o + ((p[i], l[i]) if i == deep or i and rng.random() < .1 else (p[i],))
                    dst = o + (p[i + 1],) if i < k - 1 else o + (p[0], y) + ((lab(),) if rng.random() < .2 else ())
                    recs.append(Rec(own, 'DNAME', 300, S(dst)))
                    interesting.append(own)
                if rng.random() < c.shrink:
                    # a DNAME that first makes the query shorter, twice, before the loop begins
                    h = o + ('h',)
                    recs.append(Rec(h, 'DNAME', 300, S(o)))
                    e = o + ('e',)
                    recs.append(Rec(e, 'CNAME', 300, S(h + ('h', p[0], lab(), lab())[:rng.choice([3, 4, 5])])))
                    if rng.random() < .5:
                        recs.append(Rec(o + ('f',), 'DNAME' if rng.random() < .5 else 'CNAME', 300, S(e)))
                    interesting += [e, h]
        if rng.random() < c.ring:
            n, at, kind = rng.randrange(5, 15), below(o, 1), rng.random()
            straight = rng.random() < 0.4      # a chain with an end
            kinds = ['CNAME'] if kind < 0.4 else ['NS'] if kind < 0.75 else ['DNAME'] if kind < .9 else ['DNAME', 'CNAME']
            for i in range(n):
                a, b = at + ('r%d' % i,), at + ('r%d' % ((i + 1) % n),)
                if straight and i == n - 1:
                    recs.append(Rec(a, 'A', 300, '1.1.1.1'))
                    if rng.random() < 0.7:
                        recs.append(Rec(a + ('k',), *rng.choice([('A', 300, '2.2.2.2'), ('CNAME', 300, S(a)), ('CNAME', 0, S(o + ('gone',)))])))
                    break
                t = rng.choice(kinds)
                recs.append(Rec(a, t, 300, S(b + ('ns',) if t == 'NS' else b)))
            if rng.random() < 0.3:
                recs.pop()
            interesting += [at + ('r%d' % rng.randrange(n),)] * 3
            if 'DNAME' in kinds:
                interesting += [at + ('r0', 'k')] * 2
        # glue
        for r in list(recs):
            if r.type == 'NS' and r.name[-1:] and r.name[-1][0] == 'r' and rng.random() < 0.97:
                continue
            if r.type == 'NS' and under(o, target(r)) and '*' not in target(r):
                if rng.random() < c.glue:
                    recs.append(Rec(target(r), 'A', rng.choice([3600, 3600, 3600, 0]), rng.choice(ADDR)))
                if rng.random() < c.six:
                    recs.append(Rec(target(r), 'AAAA', rng.choice([3600, 3600, 300, 0]), rng.choice(ADDR6)))
        for r in [r for r in recs if r.type == 'DNAME']:
            if rng.random() < c.overflow:
                n, grow = r.name, name_len(target(r)) - name_len(r.name)
                want = rng.choice([253, 254, 255, 255, 256, 290]) - grow
                while name_len(n) < want:
                    l = min(64, want - name_len(n))
                    n = n + (lab() * (l - 1 - (want - name_len(n) - l == 1)),)
                if n != r.name and not too_long(n) and all(n):
                    recs.append(Rec(n, rng.choice(['A', 'TXT']), 300, '1.1.1.1'))
        if c.conflicts:
            for _ in range(rng.randrange(0, c.conflicts + 1)):
                recs.insert(rng.randrange(len(recs) + 1), conflict(rng, o, recs, lab))
        if c.wide and rng.random() < 0.6:
            at = below(o, 1) if rng.random() < 0.5 else o
            if at and rng.random() < 0.4:
                recs.append(record(rng, at, 'DNAME', 300, interesting, some_server, lab, c))
            for i in range(c.wide):
                t = rng.choice(['A', 'A', 'TXT', 'MX'])
                recs.insert(rng.randrange(len(recs) + 1), record(rng, at + ('w%d' % i,), t, 300, interesting, some_server,
                                                                  lab, c))
    zones = []
    for o in origins:
        for i, s in enumerate(servers[o]):
            recs = list(content[o])
            if rng.random() < c.mutate:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    k = rng.random()
                    if k < 0.5 and recs:
                        recs.pop(rng.randrange(len(recs)))
                    elif k < 0.8 and recs:
                        j = rng.randrange(len(recs))
                        r = recs[j]
                        if r.type in ('A', 'AAAA'):
                            recs[j] = r._replace(rdata=rng.choice(ADDR if r.type == 'A' else ADDR6))
                        elif r.type == 'NS':
                            recs[j] = r._replace(rdata=S(some_server()))
                        elif r.type == 'TXT':
                            recs[j] = r._replace(rdata='"other"')
                        else:
                            recs[j] = r._replace(ttl=rng.choice([0, 60]))
                        if rng.random() < 0.3:
                            recs[j] = r._replace(ttl=rng.choice([0, 60, 300]))
                    elif k < 0.9:
                        recs.append(record(rng, o + (lab(),), 'A', 300, interesting, some_server, lab, c))
                    else:
                        recs.append(Rec(o, 'NS', 3600, S(some_server())))
            if rng.random() < c.ttls:
                recs = [r if rng.random() < .5 else r._replace(ttl=rng.choice([0, 1, 300, 3600])) for r in recs]
            if rng.random() < 0.4:
                rng.shuffle(recs)
            recs = [soa(o, rng)] + ([] if rng.random() < 0.03 else recs)
            if not c.conflicts:
                recs = clean(recs)
            zones.append((S(s), o, recs))
    rng.shuffle(zones) if rng.random() < 0.3 else None
    tops = [S(t) for t in top]
    if not any(z[0] in tops for z in zones):
        tops.append(zones[0][0])
    return tops, zones


def clean(recs):
    """drops the records that loading would reject"""
    z = Zone(0, '', recs)
    return [r for _, r in z.accepted]


def record(rng, n, t, ttl, interesting, some_server, lab, c):
    def tgt(dname=False):
        for _ in range(20):
            x = rng.choice(interesting)
            k = rng.random()
            if k < 0.4:
                x = x + (lab(),)
            elif k < 0.45:
                x = ('q', 'w')
            elif k < 0.5 and len(x) > 1:
                x = x[:-1]
            elif k < 0.55 and not dname:
                x = x + ('*',)
            if c.long and rng.random() < c.long:
                x = x + (lab() * rng.choice([30, 60, 63]),)
            if too_long(x):
                continue
            if dname and ('*' in x or x == ()):
                continue
            if dname and not c.loops and (under(n, x)):
                continue
            return x
        return ('x',)
    if t == 'A':
        d = rng.choice(ADDR)
    elif t == 'AAAA':
        d = rng.choice(ADDR6)
    elif t in ('CNAME', 'DNAME'):
        d = S(tgt(t == 'DNAME'))
    elif t == 'NS':
        d = S(some_server())
    elif t == 'MX':
        d = '%d %s' % (rng.choice([0, 10, 20]), S(tgt()))
    elif t == 'TXT':
        d = rng.choice(['"hello world"', '"a;b(c)d"', 'plain', '"one" "two"', '"q\\"uote"', '"v=spf1 -all"', '"a  b"', '""'])
    elif t == 'SPF':
        d = '"v=spf1 -all"'
    elif t == 'SRV':
        d = '1 2 80 ' + S(tgt())
    elif t == 'PTR':
        d = S(tgt())
    elif t == 'DS':
        d = '1234 8 2 abcdef'
    elif t == 'NSEC':
        d = S(n) + ' a ns'
    elif t == 'RRSIG':
        d = 'a 8 2 300 20300101000000 20200101000000 1 x. abcd'
    elif t == 'SOA':
        d = 'ns. admin. 9 1 2 3 4'
    return Rec(n, t, ttl, d)


def conflict(rng, o, recs, lab):
    """a record that clashes with the present ones (or nearly does)"""
    base = rng.choice(recs) if recs else Rec(o + (lab(),), 'A', 300, '1.1.1.1')
    k = rng.random()
    if k < 0.25:
        return base
    if k < 0.35:
        return base._replace(ttl=base.ttl + 1)
    if k < 0.5:
        return Rec(base.name, 'CNAME', 300, S(o + (lab(),)))
    if k < 0.6 and base.name != () and '*' not in base.name:
        return Rec(base.name, 'DNAME', 300, S(('q', lab())))
    if k < 0.68:
        return Rec(base.name, 'TXT', 300, '"x"')
    if k < 0.8:
        up = o[:-1] if o else ()
        n = rng.choice([up + ('other',), ('o',) + o[1:] + ('k',), up, (lab(),) + o, o[:-1] + (o[-1] + 'x',) if o else ('x',)])
        return Rec(n, rng.choice(['A', 'TXT']), 300, '1.1.1.1')
    if k < 0.87:
        return Rec(o + (lab() * rng.choice([63, 64, 70]),), 'A', 300, '1.1.1.1')
    # names around the maximum length
    def fill(total, base):
        n = base
        left = total - name_len(base)
        while left > 0:
            l = min(left, rng.choice([64, 64, 50]))
            if left - l == 1:
                l -= 1
            if l < 2:
                break
            n = n + (lab() * (l - 1),)
            left -= l
        return n
    tot = rng.choice([253, 254, 255, 256, 260])
    if k < 0.93:
        return Rec(fill(tot, o), 'A', 300, '1.1.1.1')
    t = rng.choice(['CNAME', 'NS', 'DNAME'])
    dst = rng.choice([fill(tot, ('q',)), ('q', 'a' * rng.choice([63, 64]))])
    return Rec(o + (lab(), lab()), t, 300, S(dst))


# ---- jobs -----------------------------------------------------------------------------------------------------------
ALLP = ['ResponseConsistency', 'ResponseReturned', 'ResponseValue', 'Hops', 'Rewrites', 'DelegationConsistency',
        'InfiniteDNameRec', 'LameDelegation', 'QueryRewrite', 'NameserverContact', 'RewriteBlackholing', 'AllAliases',
        'ZeroTTL', 'StructuralDelegationConsistency', 'DNAMESubstitutionCheck']
TYPED = {'ResponseConsistency', 'ResponseReturned', 'ResponseValue', 'ZeroTTL'}
QTYPES = [t for t in TYPES]


def rtypes(rng):
    k = rng.choice([1, 1, 1, 2, 2, 3, 5, 13])
    if k == 13:
        return list(TYPES)
    out = set()
    while len(out) < k:
        out.add(pick(rng, [('A', 5), ('NS', 3), ('CNAME', 3), ('MX', 2), ('TXT', 2), ('AAAA', 2), ('SOA', 1), ('DNAME', 1),
                           ('SRV', 1), ('PTR', .5), ('SPF', .3), ('NSEC', .3), ('RRSIG', .3)]))
    return sorted(out)


def some_name(rng, w, labels=LETTERS):
    """a name of, near, or far from the configuration"""
    names = sorted(w.names)
    k = rng.random()
    n = rng.choice(names)
    if k < 0.35:
        return n
    if k < 0.5:
        n = rng.choice(w.zones).origin
    if k < 0.75:
        return n + (rng.choice(labels + ['nope']),)
    if k < 0.85:
        d = sorted(w.dn)
        if d:
            n = rng.choice(d)
            if rng.random() < 0.5:     # a name that exists by substitution
                t = rng.choice(sorted(w.dn[n]))
                m = rng.choice(names)
                for _ in range(20):
                    if under(t, m) and m != t:
                        break
                    m = rng.choice(names)
                if under(t, m) and m != t and not too_long(n + m[len(t):]):
                    return n + m[len(t):]
            return n + tuple(rng.choice(labels) for _ in range(rng.choice([1, 1, 2])))
    if k < 0.92:
        return rng.choice(w.zones).origin
    return ('q', 'r') if k > 0.97 else ()


def prop(rng, name, w):
    p = {'PropertyName': name}
    if name in TYPED:
        if name == 'ResponseConsistency' or rng.random() < 0.95:
            p['Types'] = rtypes(rng)
    elif name in ('DelegationConsistency', 'LameDelegation', 'RewriteBlackholing', 'Hops', 'QueryRewrite') and \
            rng.random() < 0.12:
        p['Types'] = rtypes(rng)
    if name in ('Hops',):
        p['Value'] = rng.choice([0, 1, 1, 2, 2, 3])
    if name == 'Rewrites':
        p['Value'] = rng.choice([0, 0, 1, 1, 2])
    if name in ('QueryRewrite', 'NameserverContact'):
        p['Value'] = [S(x) for x in {allowed(rng, w) for _ in range(rng.choice([1, 1, 2, 3]))}]
    if name == 'AllAliases':
        p['Value'] = [S(x) for x in {canonical(rng, w) for _ in range(rng.choice([1, 2, 4]))}]
    if name == 'ResponseValue':
        data = sorted({r.rdata for z in w.zones for _, r in z.accepted
                       if r.type in p.get('Types', ['NS'])} or {'1.1.1.1'})
        k = min(len(data), rng.choice([1, 1, 1, 2, 3]))
        p['Value'] = rng.sample(data, k)
        if rng.random() < 0.15:
            p['Value'].append('9.9.9.9')
    return p


def allowed(rng, w):
    k = rng.random()
    if k < 0.08:
        return ()
    if k < 0.7:
        n = rng.choice(sorted(w.names))
    else:
        n = N(rng.choice(w.zones).ns)
    if rng.random() < 0.5 and len(n) > 1:
        n = n[:rng.randrange(1, len(n) + 1)]
    if rng.random() < 0.1 and n:
        n = n[:-1] + (n[-1][:-1] or 'a',)
    return n


def canonical(rng, w):
    t = sorted({target(r) for z in w.zones for _, r in z.accepted if r.type in ('CNAME', 'DNAME')})
    if t and rng.random() < 0.75:
        n = rng.choice(t)
        if rng.random() < 0.3:
            n = n + (rng.choice(LETTERS),)
        return n
    return some_name(rng, w)


def job(rng, w, must=(), pmore=0.3, maxmore=3, sub=None, domain=None):
    d = domain if domain is not None else (() if rng.random() < 0.3 else some_name(rng, w))
    props = list(must)
    if rng.random() < pmore:
        props += rng.sample(ALLP, rng.randrange(1, maxmore + 1))
    rng.shuffle(props)
    ps = []
    for p in props:
        if p in must or p not in [x['PropertyName'] for x in ps]:
            ps.append(prop(rng, p, w))
    sub = (rng.random() < 0.75) if sub is None else sub
    side = random.Random(str((rng.getstate()[1][:4], d, len(ps))))
    bare = lambda x: x[:-1] if len(x) > 1 and x[-2] != '\\' and side.random() < 0.7 else x
    dom = S(d)
    if side.random() < 0.1:      # the last dot of a name may be left out
        dom = bare(dom)
        for p in ps:
            if p['PropertyName'] in ('QueryRewrite', 'NameserverContact', 'AllAliases'):
                p['Value'] = [bare(x) for x in p['Value']]
    return {'Domain': dom, 'SubDomain': sub, 'Properties': ps}


# ---- text -----------------------------------------------------------------------------------------------------------
def simple(recs):
    """one absolute record per line -> (text, [line of each record])"""
    return ''.join('%s %d IN %s %s\n' % (S(r.name), r.ttl, r.type, r.rdata) for r in recs), list(range(1, len(recs) + 1))


def recase(rng, s, p=0.5):
    return ''.join(ch.upper() if ch.isalpha() and rng.random() < p else ch for ch in s)


NOISE_TYPES = ['HINFO', 'CAA', 'TLSA', 'NAPTR', 'DNSKEY', 'TYPE65534', 'NSEC3', 'SSHFP']


def render(rng, recs, origin=None, case=0.0, eol=None, noise=True):
    """Writes the records with random layout. origin: the metadata origin or None.
    -> (text, [line number of the end of each record])"""
    eol = eol or rng.choice(['\n', '\n', '\n', '\r\n'])
    out, lines = [], []
    nl = [0]
    cur = origin            # current origin
    owner = None
    dttl = None             # default TTL
    directive = False
    ws = lambda: rng.choice([' ', ' ', '\t', '  ', ' \t ', '        '])
    cs = (lambda s: recase(rng, s)) if case else (lambda s: s)
    pn = rng.choice([0, 0.15, 0.4]) if noise else 0
    pparen = rng.choice([0, 0.1, 0.5])
    prel = rng.choice([0.2, 0.6, 0.95])

    def put(s):
        out.append(s)
        nl[0] += s.count('\n')

    def comment():
        return rng.choice([';', '; comment', ';; "unbalanced ( quote', '; a IN A 9.9.9.9', ';)', '; $ORIGIN evil.',
                           '; back\\slash'])

    def name(n, allow_at=True):
        """text of a name relative to the current origin (when there is one)"""
        if cur is not None and under(cur, n) and rng.random() < prel:
            if n == cur:
                return '@'
            rel = n[len(cur):]
            return cs('.'.join(reversed(rel)))
        return cs(S(n))

    for i, r in enumerate(recs):
        # directives and noise between records
        while rng.random() < pn:
            k = rng.random()
            if k < 0.25:
                put(rng.choice(['', ' ', '\t', ' \t ']) + eol)
            elif k < 0.5:
                put(rng.choice(['', ' ', '\t']) + comment() + eol)
            elif k < 0.65:
                cand = [r.name, r.name[:-1], r.name[:1], ('q', 'w'), ()]
                if i + 1 < len(recs):
                    cand.append(recs[i + 1].name)
                no = rng.choice(cand)
                txt = cs(S(no))
                if cur is not None and under(cur, no) and no != cur and rng.random() < 0.5:
                    txt = cs('.'.join(reversed(no[len(cur):])))
                put('$ORIGIN' + ws() + txt + rng.choice(['', ' ', ' ; x']) + eol)
                cur = no
            elif k < 0.8:
                dttl = rng.choice([r.ttl, r.ttl, 77, 0])
                directive = True
                put('$TTL' + ws() + str(dttl) + rng.choice(['', '\t', '; x']) + eol)
            elif k < 0.95 and i > 0:
                # a record of a type that is not handled; it still sets the inherited owner and TTL
                t = rng.choice(NOISE_TYPES)
                o = rng.choice([None, recs[i].name, recs[i - 1].name])
                f = []
                if o is None or owner is None:
                    f.append('')
                else:
                    f.append(name(o))
                    owner = o
                if rng.random() < 0.4:
                    x = rng.choice([5, r.ttl])
                    f.append(str(x))
                    if not directive:
                        dttl = x
                if rng.random() < 0.6:
                    f.append(cs('in'))
                f += [t, '\\#', '4', '0a000001']
                put(ws().join(f) + eol)
        # the record
        f = []
        inherit = owner == r.name and rng.random() < 0.5
        f.append('' if inherit else name(r.name))
        mid = []
        if dttl != r.ttl or rng.random() < 0.4:
            mid.append(str(r.ttl))
            if not directive:
                dttl = r.ttl
        if rng.random() < 0.7:
            mid.insert(rng.randrange(len(mid) + 1), cs('in'))
        f += mid
        f.append(cs(r.type) if case else rng.choice([r.type, r.type.lower()]) if rng.random() < 0.2 else r.type)
        if r.type in ('NS', 'CNAME', 'DNAME'):
            f.append(name(target(r)))
        elif r.type == 'MX':
            p, d = r.rdata.split(' ', 1)
            f += [p, name(N(d))]
        else:
            f += [cs(x) for x in tokens(r.rdata)]
        owner = r.name
        if r.type == 'SOA' and cur is None:
            cur = r.name
        # write the fields, parentheses may go anywhere after the owner
        line = f[0]
        depth = 0
        multi = rng.random() < (0.7 if r.type == 'SOA' else pparen)
        for j, x in enumerate(f[1:], 1):
            if multi and rng.random() < (0.4 if depth == 0 else 0.08):
                line += ws() + '(' + rng.choice(['', ' '])
                depth += 1
                sep = ''
            else:
                sep = ws()
            if depth and rng.random() < 0.4:
                line += sep + rng.choice(['', comment()]) + eol
                while rng.random() < 0.2:
                    line += rng.choice(['', ' ', comment()]) + eol
                sep = rng.choice(['', ' ', '\t'])
                if line.endswith(eol) is False:
                    sep = ' '
            elif not sep and line[-1] not in '( ':
                sep = ' '
            line += sep + x
            if depth and rng.random() < 0.15 and x and '"' not in x:
                line += rng.choice([' )', ')'])
                depth -= 1
        for _ in range(depth):
            line += rng.choice([' )', ')', ws() + comment() + eol + ')', eol + ws() + ')'])
        line += rng.choice(['', '', ' ', ' ' + comment(), '\t'])
        if not inherit or line[0] in ' \t':
            pass
        else:
            line = ' ' + line
        put(line + eol)
        lines.append(nl[0])
    text = ''.join(out)
    if rng.random() < 0.25 and text.endswith(eol):
        text = text[:-len(eol)]
    return text, lines


def tokens(rdata):
    """splits record data at blanks outside of quotes"""
    out, cur, q, esc = [], '', False, False
    for ch in rdata:
        if ch == ' ' and not q and not esc:
            if cur:
                out.append(cur)
            cur = ''
            continue
        cur += ch
        if esc:
            esc = False
        elif ch == '\\':
            esc = True
        elif ch == '"':
            q = not q
    if cur:
        out.append(cur)
    return out
