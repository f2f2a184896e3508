"""Reference semantics of the analysed DNS world, written from RFC 1034/1035/6672/4592 and the property statements.

Names are tuples of lower-case labels, root first: ('com', 'example') is example.com.
"""
from collections import namedtuple, defaultdict
from functools import lru_cache
import sys

sys.setrecursionlimit(15000)

TYPES = ['A', 'NS', 'CNAME', 'DNAME', 'SOA', 'PTR', 'MX', 'TXT', 'AAAA', 'SRV', 'RRSIG', 'NSEC', 'SPF']
BIT = {t: 1 << i for i, t in enumerate(TYPES)}
BIT['DS'] = 0
ALL = (1 << len(TYPES)) - 1
TYPE_NO = {t: i for i, t in enumerate(TYPES)}
TYPE_NO['DS'] = len(TYPES)
NO_TYPE = {v: k for k, v in TYPE_NO.items()}

Rec = namedtuple('Rec', 'name type ttl rdata')
TooBig = type('TooBig', (Exception,), {})


def N(s):
    """'a.b.' -> ('b', 'a'); a character after a backslash belongs to the label."""
    out, cur, esc = [], '', False
    for ch in s.lower():
        if ch == '.' and not esc:
            if cur:
                out.append(cur)
            cur = ''
            continue
        cur += ch
        esc = ch == '\\' and not esc
    if cur:
        out.append(cur)
    return tuple(reversed(out))


@lru_cache(20000)
def S(n):
    return ''.join(l + '.' for l in reversed(n)) or '.'


def under(d, n):
    return n[:len(d)] == d


def mask(types):
    m = 0
    for t in types:
        m |= BIT[t]
    return m


def names_of(m):
    return [t for t in TYPES if m & BIT[t]]


@lru_cache(20000)
def label_len(l):
    """an escaped character counts once"""
    n = i = 0
    while i < len(l):
        i += 2 if l[i] == '\\' else 1
        n += 1
    return n


def name_len(n):
    return sum(label_len(l) + 1 for l in n)


@lru_cache(20000)
def too_long(n):
    """None, ('label', l) or ('name', '')"""
    for l in n:
        if label_len(l) > 63:
            return ('label', l)
    if name_len(n) > 254:
        return ('name', '')
    return None


def rr_str(r):
    return '%s   %s   %s' % (S(r.name), r.type, r.rdata)


def target(r):
    return N(r.rdata)


Reject = namedtuple('Reject', 'index kinds prev')


class Zone:
    """What loading the records in file order has to give."""

    def __init__(self, zid, ns, records):
        self.id, self.ns = zid, ns
        self.origin = None
        self.nodes = defaultdict(list)
        self.exists = {()}
        self.accepted = []
        self.rejects = []
        for i, r in enumerate(records):
            self._add(i, r)
        self.types = {n: frozenset(x.type for x in rs) for n, rs in self.nodes.items()}

    def _add(self, i, r):
        kinds, prev = [], []
        lo = too_long(r.name)
        if lo:
            kinds.append(('long-' + lo[0], lo[1]))
        if r.type in ('NS', 'CNAME', 'DNAME'):
            lo = too_long(target(r))
            if lo:
                kinds.append(('target-' + lo[0], lo[1]))
        if self.origin is None:
            assert r.type == 'SOA'
            self.origin = r.name
        if not under(self.origin, r.name):
            kinds.append(('outside', ''))
        here = self.nodes.get(r.name, [])
        if not kinds:
            for o in here:
                if o.type == r.type:
                    if o.ttl == r.ttl and o.rdata == r.rdata:
                        kinds.append(('duplicate', ''))
                        break
                    if r.type == 'CNAME':
                        kinds.append(('cnames', ''))
                        prev = [o]
                        break
                    if r.type == 'DNAME':
                        kinds.append(('dnames', ''))
                        prev = [o]
                        break
            if not kinds and r.type == 'CNAME' and here:
                kinds.append(('cname-other', ''))
                prev = list(here)
            elif not kinds and any(o.type == 'CNAME' for o in here):
                kinds.append(('cname-other', ''))
                prev = [o for o in here if o.type == 'CNAME']
        if kinds:
            self.rejects.append(Reject(i, kinds, prev))
            return
        self.nodes[r.name].append(r)
        for k in range(len(r.name) + 1):
            self.exists.add(r.name[:k])
        self.accepted.append((i, r))

    def t(self, n):
        return self.types.get(n, frozenset())

    def glue(self, nsrec):
        n = target(nsrec)
        return [r for r in self.nodes.get(n, []) if r.type in ('A', 'AAAA')]

    def cut(self, n):
        t = self.t(n)
        return 'NS' in t and 'SOA' not in t

    def lookup(self, name, excl, types):
        """-> (tag, set of records, mask of types known to be missing)"""
        closest = None
        for i in range(len(self.origin), len(name) + 1):
            n = name[:i]
            if n not in self.exists:
                break
            closest = n
            if self.cut(n):
                break
            if 'DNAME' in self.t(n) and i < len(name):
                break
        recs = self.nodes.get(closest, [])
        t = self.t(closest)
        if self.cut(closest):
            out = set()
            for r in recs:
                if r.type == 'NS':
                    out.add(r)
                    out.update(self.glue(r))
            return ('REF', out, 0)
        if closest == name and not excl:
            return self._data(recs, t, types)
        if 'DNAME' in t:
            return ('REWRITE', {r for r in recs if r.type == 'DNAME'}, 0)
        star = closest + ('*',)
        if star in self.exists:
            return self._data(self.nodes.get(star, []), self.t(star), types, wild=True)
        return ('NX', set(), types)

    def _data(self, recs, t, types, wild=False):
        if 'CNAME' in t:
            c = {r for r in recs if r.type == 'CNAME'}
            return ('ANS' if types == BIT['CNAME'] else 'REWRITE', c, 0)
        out, found = set(), 0
        for r in recs:
            if types & BIT[r.type]:
                out.add(r)
                found |= BIT[r.type]
                if r.type == 'NS' and not wild:
                    out.update(self.glue(r))
        return ('ANS', out, types & ~found)


class World:
    """A configuration: list of zone files (in metadata order) with their servers, and the top servers."""

    def __init__(self, top, zones):
        # zones: list of (ns, [Rec])
        self.top = list(dict.fromkeys(t.lower() for t in top))
        self.zones = [Zone(i + 1, ns.lower(), recs) for i, (ns, recs) in enumerate(zones)]
        self.by_ns = defaultdict(list)
        for z in self.zones:
            self.by_ns[z.ns].append(z)
        self._tree()

    # ---- resolution -------------------------------------------------------------------------------------------
    def zone_for(self, ns, name):
        best = None
        for z in self.by_ns.get(ns, []):
            if under(z.origin, name) and (best is None or len(z.origin) > len(best.origin)):
                best = z
        return best

    # ---- names ------------------------------------------------------------------------------------------------
    def _tree(self):
        self.kids = defaultdict(set)
        self.names = {()}
        self.dn = defaultdict(set)
        for z in self.zones:
            for _, r in z.accepted:
                self._put(r.name)
                if r.type == 'DNAME':
                    t = target(r)
                    self._put(t)
                    self.dn[r.name].add(t)
        self.n_dnames = sum(len(s) for s in self.dn.values())
        # a target below the owner of another DNAME also stands for the names it is rewritten to
        targets = [(n, t) for n, ts in self.dn.items() for t in ts]
        added = []
        more = True
        while more:
            more = False
            for n, t in targets:
                new = self.reps(t) - self.dn[n]
                if new:
                    self.dn[n] |= new
                    added += [(n, x) for x in new]
                    more = True
        # ... unless that closes a cycle, which stands for names without end
        self.endless = [(n, t) for n, t in added if self._reaches(t, n)]
        for n, t in self.endless:
            self.dn[n].discard(t)

    def _reaches(self, a, b):
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            for y in list(self.dn.get(x, ())) + [x + (l,) for l in self.kids.get(x, ())]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def _put(self, n):
        for i in range(1, len(n) + 1):
            self.kids[n[:i - 1]].add(n[i - 1])
            self.names.add(n[:i])

    def tree_edges(self):
        return len(self.names) - 1 + self.n_dnames

    def closure(self, vs):
        seen, todo = set(vs), list(vs)
        while todo:
            for t in self.dn.get(todo.pop(), ()):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def reps(self, name):
        """tree nodes that stand for exactly this name (through DNAME substitution of its proper ancestors)"""
        v = {()}
        for l in name:
            v = {x + (l,) for x in self.closure(v) if l in self.kids.get(x, ())}
        return v

    def classes(self, domain, sub, types, limit=4000):
        """set of (name, excl, types, nonexistent)"""
        out = set()
        if too_long(domain):
            return out
        v = self.reps(domain)
        if not v:
            p = domain
            while not self.reps(p):
                p = p[:-1]
            out.add((p, True, types, False))
            return out
        if not sub:
            out.add((domain, False, types, False))
            return out
        self._walks(domain, v)
        todo = [(domain, frozenset(v))]
        while todo:
            n, v = todo.pop()
            if name_len(n) > 254:
                continue
            out.add((n, False, types, False))
            if len(out) > limit:
                raise TooBig('classes')
            kids = defaultdict(set)
            for x in self.closure(v):
                if '*' in self.kids.get(x, ()):
                    out.add((n, True, types, False))
                else:
                    out.add((n, True, ALL, True))
                for l in self.kids.get(x, ()):
                    kids[l].add(x + (l,))
            for l, vs in kids.items():
                todo.append((n + (l,), frozenset(vs)))
        return out

    def _walks(self, domain, v, limit=12000):
        """bounds the number of walks over labels and DNAME targets below the domain (it may be exponential)"""
        left = [limit]

        def rec(x, n, dn, on):
            left[0] -= 1
            if left[0] < 0:
                raise TooBig('walks')
            if n > 254 or (dn and (x, n) in on):
                return
            on = on | {(x, n)}
            for t in self.dn.get(x, ()):
                rec(t, n, True, on)
            for l in self.kids.get(x, ()):
                rec(x + (l,), n + label_len(l) + 1, False, on)
        for x in v:
            rec(x, name_len(domain), False, frozenset())

    # ---- structural delegation consistency ---------------------------------------------------------------------
    def structural(self, domain):
        """-> {name string: set of normalised pairs}"""
        out = {}
        if domain not in self.names:
            return out
        for n in self.names:
            if not under(domain, n):
                continue
            parents, children = [], []
            cname = None
            for z in self.zones:
                t = z.t(n)
                ns = [r for r in z.nodes.get(n, []) if r.type == 'NS']
                if 'SOA' in t:
                    cname = z.origin
                    need = any(under(z.origin, target(r)) for r in ns)
                    g = {x for r in ns for x in z.glue(r)} if need else None
                    children.append((z, strip(ns), None if g is None else strip(g)))
                elif ns:
                    parents.append((z, strip(ns), strip({x for r in ns for x in z.glue(r)})))
            if not any('NS' in z.t(n) for z in self.zones):
                continue
            if parents:
                m = max(len(p[0].origin) for p in parents)
                parents = [p for p in parents if len(p[0].origin) == m]
            if cname:
                parents = [(z, ns, {g for g in gl if under(cname, g[0])}) for z, ns, gl in parents]
            pairs = set()

            def cmp(a, b, ka, kb, glue):
                nd = (a[1] & b[1], a[1] - b[1], b[1] - a[1])
                if glue:
                    ga, gb = a[2] or set(), b[2] or set()
                    gd = (ga & gb, ga - gb, gb - ga)
                else:
                    gd = (set(), set(), set())
                if nd[1] or nd[2] or gd[1] or gd[2]:
                    pairs.add(norm_pair(ka, a[0].ns, kb, b[0].ns, nd, gd))
            for p in parents:
                for c in children:
                    cmp(p, c, 'parent', 'child', c[2] is not None)
            for i, p in enumerate(parents):
                for q in parents[i + 1:]:
                    cmp(p, q, 'parent', 'parent', True)
            for i, p in enumerate(children):
                for q in children[i + 1:]:
                    cmp(p, q, 'child', 'child', True)
            if pairs:
                out[S(n)] = pairs
        return out


def strip(recs):
    return {(r.name, r.type, r.rdata) for r in recs}


def pair_str(t):
    return '%s   %s   %s' % (S(t[0]), t[1], t[2])


def norm_pair(ka, na, kb, nb, nd, gd):
    f = lambda s: frozenset(x if isinstance(x, str) else pair_str(x) for x in s)
    a = (ka, na, f(nd[1]), f(gd[1]))
    b = (kb, nb, f(nd[2]), f(gd[2]))
    return (f(nd[0]), f(gd[0]), frozenset([(a, 0), (b, 0)]) if a != b else frozenset([(a, 0), (a, 1)]))


# ---- interpretation -------------------------------------------------------------------------------------------------
# query: (name, excl, types)
@lru_cache(20000)
def qstr(q):
    return ('~{ }.' if q[1] else '') + S(q[0])


class Graph:
    """All executions of one query class."""

    def __init__(self, w, name, excl, types, nonex=False, limit=3000):
        self.w = w
        self.v = []            # (ns, query)
        self.idx = {}
        self.ans = []          # (tag, records, missing) or None for the start vertices
        self.edges = []        # (u, v, side or -1): one per resolution step, parallel ones repeated
        self.limit = limit
        self.work = []
        self.root = self._vertex('', (name, excl, types))
        while self.work:
            self._expand(self.work.pop())
        self.out = defaultdict(dict)
        self.main = [set() for _ in self.v]
        self.aug = [set() for _ in self.v]
        for u, v, s in self.edges:
            self.main[u].add(v)
            self.aug[u].add(v)
            if s >= 0:
                self.aug[u].add(s)
        self.nonex = nonex
        # vertices reached without / with a rewrite before them (the class of a rewritten query is not 'nonexistent')
        self.clean, self.rewritten = set(), set()
        todo = [(self.root, False)]
        while todo:
            u, rw = todo.pop()
            s = self.rewritten if rw else self.clean
            if u in s:
                continue
            s.add(u)
            rw2 = rw or (self.ans[u] is not None and self.ans[u][0] == 'REWRITE')
            for v in self.main[u]:
                todo.append((v, rw2))
        self.reach = self.clean | self.rewritten

    def _vertex(self, ns, q):
        k = (ns, q)
        if k in self.idx:
            return self.idx[k]
        if len(self.v) >= self.limit:
            raise TooBig('graph')
        self.idx[k] = len(self.v)
        self.v.append(k)
        self.ans.append(None)
        self.work.append(self.idx[k])
        return self.idx[k]

    def _expand(self, u):
        w = self.w
        ns, q = self.v[u]
        if ns == '':
            for t in w.top:
                self.edges.append((u, self._vertex(t, q), -1))
            return
        if too_long(q[0]):
            self.ans[u] = ('YX', set(), q[2])
            return
        z = w.zone_for(ns, q[0])
        if z is None:
            self.ans[u] = ('REFUSED' if ns in w.by_ns else 'NSNOTFOUND', set(), q[2])
            return
        a = self.ans[u] = z.lookup(*q)
        if a[0] == 'REWRITE':
            r = next(iter(a[1]))
            if r.type == 'CNAME':
                nq = (target(r), False, q[2] & ~BIT['CNAME'])
            else:
                nq = (target(r) + q[0][len(r.name):], q[1], q[2])
            if too_long(nq[0]) or w.zone_for(ns, nq[0]):
                self.edges.append((u, self._vertex(ns, nq), -1))
            else:
                for t in w.top:
                    self.edges.append((u, self._vertex(t, nq), -1))
        elif a[0] == 'REF':
            for r in a[1]:
                if r.type != 'NS':
                    continue
                server = S(target(r))
                if z.glue(r) or server in w.top:
                    self.edges.append((u, self._vertex(server, q), -1))
                else:
                    s = self._vertex('', (target(r), False, BIT['A'] | BIT['AAAA']))
                    self.edges.append((u, self._vertex(server, q), s))

    def places(self):
        """(server, text of the query) -> vertices"""
        if not hasattr(self, '_places'):
            self._places = defaultdict(list)
            for i, (ns, q) in enumerate(self.v):
                self._places[(ns, qstr(q))].append(i)
        return self._places

    # ---- executions ----
    def is_cname_end(self, u):
        a = self.ans[u]
        return a is not None and a[0] == 'REWRITE' and bool(self.v[u][1][2] & BIT['CNAME']) and \
            next(iter(a[1])).type == 'CNAME'

    def paths(self, limit=4000):
        """all loop-free executions"""
        out, steps = [], [0]

        def rec(u, p, on):
            steps[0] += 1
            if steps[0] > limit * 8 or len(out) > limit:
                raise TooBig('paths')
            if u in on:
                return
            p = p + [u]
            if self.is_cname_end(u):
                out.append(p)
            on.add(u)
            for v in self.main[u]:
                rec(v, p, on)
            on.discard(u)
            if not self.main[u]:
                out.append(p)
        rec(self.root, [], set())
        return out

    def count_aug(self, limit=30000):
        """cost of walking all augmented executions up to the first repetition (what the loop check may walk)"""
        steps = [0]

        def rec(u, on):
            steps[0] += 1
            if steps[0] > limit:
                raise TooBig('augmented paths')
            if u in on:
                return
            on.add(u)
            for v in self.aug[u]:
                rec(v, on)
            on.discard(u)
        rec(self.root, set())
        return steps[0]

    def ends(self):
        return [u for u in self.reach if not self.main[u] or self.is_cname_end(u)]

    def cyclic(self):
        """vertices on a cycle of executions with side lookups, reachable from the start"""
        color = {}
        stack = [(self.root, iter(self.aug[self.root]))]
        color[self.root] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                c = color.get(v, 0)
                if c == 1:
                    return True
                if c == 0:
                    color[v] = 1
                    stack.append((v, iter(self.aug[v])))
                    break
            else:
                color[u] = 2
                stack.pop()
        return False

    # ---- properties: every function returns a set of hashable violations ----
    def tag(self, u):
        return self.ans[u][0] if self.ans[u] else None

    def hops(self, bound):
        out = set()
        for p in self.paths():
            last, n = '', 0
            for u in p:
                ns = self.v[u][0]
                if ns and ns != last:
                    n += 1
                    last = ns
            if n > bound:
                out.add((qstr(self.v[p[0]][1]), n, bound))
        return out

    def rewrites(self, bound):
        out = set()
        for p in self.paths():
            n = sum(1 for u in p if self.tag(u) == 'REWRITE')
            if n > bound:
                out.add((qstr(self.v[p[0]][1]), n, bound))
        return out

    def _until_rewrite(self, p):
        for a, b in zip(p, p[1:]):
            if self.tag(a) == 'REWRITE':
                return
            yield a, b

    def lame(self):
        out = set()
        for p in self.paths():
            for a, b in self._until_rewrite(p):
                if self.tag(a) == 'REF' and self.tag(b) == 'REFUSED':
                    out.add((qstr(self.v[p[0]][1]), self.v[a][0], self.v[b][0]))
        return out

    def delegation(self):
        out = set()
        for p in self.paths():
            step = None
            for a, b in self._until_rewrite(p):
                if self.tag(a) == 'REF' and self.tag(b) == 'ANS' and any(r.type == 'NS' for r in self.ans[b][1]):
                    step = (a, b)
            if not step:
                continue
            a, b = step
            pn = {r for r in self.ans[a][1] if r.type == 'NS'}
            cn = {r for r in self.ans[b][1] if r.type == 'NS'}
            owner = next(iter(cn)).name
            if next(iter(pn)).name != owner:
                continue
            addr = lambda ns, recs: {r for r in recs if r.type in ('A', 'AAAA') and
                                     any(target(x) == r.name for x in ns) and under(owner, r.name)}
            q = qstr(self.v[p[0]][1])
            if strip(pn) != strip(cn):
                out.add((q, self.v[a][0], self.v[b][0], 'NS'))
            if strip(addr(pn, self.ans[a][1])) != strip(addr(cn, self.ans[b][1])):
                out.add((q, self.v[a][0], self.v[b][0], 'Glue'))
        return out

    def query_rewrite(self, domains):
        out = set()
        for p in self.paths():
            for a, b in zip(p, p[1:]):
                if self.tag(a) == 'REWRITE' and not any(under(d, self.v[b][1][0]) for d in domains):
                    out.add((qstr(self.v[a][1]), qstr(self.v[b][1]), self.v[a][0]))
        return out

    def ns_contact(self, domains):
        out = set()
        for p in self.paths():
            for u in p:
                ns = self.v[u][0]
                if ns and not any(under(d, N(ns)) for d in domains):
                    out.add((qstr(self.v[u][1]), ns))
        return out

    def blackholing(self):
        out = set()
        for p in self.paths():
            for i, u in enumerate(p[:-1]):
                if self.tag(u) == 'REWRITE':
                    if self.tag(p[-1]) == 'NX':
                        out.add((qstr(self.v[u][1]), qstr(self.v[p[-1]][1]), self.v[p[-1]][0]))
                    break
        return out

    def overlong(self):
        out = set()
        for p in self.paths():
            if self.tag(p[-1]) == 'YX':
                out.add((qstr(self.v[p[0]][1]), qstr(self.v[p[-1]][1]), self.v[p[-1]][0]))
        return out

    def infinite(self):
        out = set()
        for p in self.paths():
            seen = {}
            for u in p:
                if self.tag(u) != 'REWRITE':
                    continue
                r = next(iter(self.ans[u][1]))
                k = (r.name, r.type, r.rdata)
                q = self.v[u][1]
                if k in seen and len(q[0]) >= seen[k][0]:
                    out.add((seen[k][1], qstr(q), frozenset(pair_str(x) for x in seen)))
                    break
                seen[k] = (len(q[0]), qstr(q))
        return out

    def aliases(self, canon):
        out = set()
        for p in self.paths():
            for i, u in enumerate(p):
                if self.tag(u) != 'REWRITE':
                    continue
                for v in p[i + 1:]:
                    q = self.v[v][1]
                    if not q[1] and q[0] in canon:
                        out.add((qstr(q), qstr(self.v[u][1])))
        return out

    def returned(self, T):
        """-> (must, may)"""
        must, may = set(), set()
        for u in self.ends():
            q = self.v[u][1]
            if not q[2] & T or self.tag(u) in ('REFUSED', 'NSNOTFOUND', 'REWRITE', None):
                continue
            miss = self.ans[u][2] & T
            if not miss:
                continue
            x = (qstr(q), ' '.join(sorted(names_of(miss))), self.v[u][0])
            if not self.nonex:
                must.add(x)
            elif u in self.rewritten:
                (may if u in self.clean else must).add(x)
        return must, may | must

    def value(self, T, values):
        """-> list of (found, query, ns), one for each end (ends that differ in the types left to ask for look the same)"""
        out = []
        values = set(values)
        for u in self.ends():
            q, tag = self.v[u][1], self.tag(u)
            if not q[2] & T or tag in ('REFUSED', 'NSNOTFOUND', None):
                continue
            if tag == 'REWRITE' and not T & BIT['CNAME']:
                continue
            if tag in ('NX', 'YX'):
                out.append(('', qstr(q), self.v[u][0]))
                continue
            found = {r.rdata for r in self.own(u) if T & BIT[r.type]}
            if found != values:
                out.append((''.join(sorted(found, key=lambda s: s.encode())), qstr(q), self.v[u][0]))
        return out

    def own(self, u):
        """records of the answer without the addresses added for its NS records"""
        recs = self.ans[u][1]
        ns = [r for r in recs if r.type == 'NS']
        if not ns:
            return recs
        return {r for r in recs if r.name == ns[0].name}

    def consistency(self, T):
        """-> (must be reported, reported if records of types requested by other properties are compared too)"""
        def groups(sel):
            cn, ot = set(), set()
            for u in self.ends():
                q, tag = self.v[u][1], self.tag(u)
                if not q[2] & T or tag in ('REFUSED', 'NSNOTFOUND', None):
                    continue
                if q[2] & T & BIT['CNAME']:
                    cn.add(frozenset(strip(r for r in self.ans[u][1] if r.type == 'CNAME')))
                if q[2] & T & ~BIT['CNAME'] and tag != 'REWRITE':
                    ot.add(frozenset(strip(sel(u))))
            return len(cn) > 1 or len(ot) > 1

        def core(u):
            recs = self.ans[u][1] if T & BIT['NS'] else self.own(u)
            return [r for r in recs if T & BIT[r.type] and r.type != 'CNAME']
        return groups(core), groups(lambda u: self.ans[u][1])

    def zero_ttl(self, T):
        out = set()
        for u in self.ends():
            q, tag = self.v[u][1], self.tag(u)
            if not q[2] & T or tag in ('REFUSED', 'NSNOTFOUND', None):
                continue
            for r in self.ans[u][1]:
                if r.ttl == 0 and T & BIT[r.type]:
                    out.add((self.v[u][0], rr_str(r)))
        return out
