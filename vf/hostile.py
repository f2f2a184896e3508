"""Schedules (C20), data races (C21) and hostile inputs (C22)."""
import copy, resource, signal, subprocess
from vf.checks import *
from vf.model import *
from vf import checks


# ---- schedules (C20) ---------------------------------------------------------------------------------------------------
def busy_case(rng, njobs):
    """jobs with many classes, some on domains that several label-graph nodes stand for (parallel class generation)"""
    kw = chainy(rng)
    kw.update(extra=rng.choice([4, 8]), zones=rng.choice([2, 3, 4]), mutate=rng.choice([0, .8]), multi=.6)
    if rng.random() < .4:
        kw.update(dname=4)

    def jobf(r, w):
        d = () if r.random() < .6 else None
        if d is None:
            names = [n for n in w.names if len(w.closure({n})) > 1 or len(w.reps(n)) > 1] or sorted(w.names)
            d = r.choice(sorted(names))
            below = [n for n in w.names if n[:len(d)] == d]
            d = r.choice(sorted(below) or [d])
        must = r.sample(gen.ALLP, r.choice([1, 2, 4]))
        j = gen.job(r, w, must=must, pmore=.2, sub=r.random() < .95, domain=d)
        if r.random() < .6:
            j['Properties'].append({'PropertyName': 'Hops', 'Value': 0})
        return j
    if rng.random() < .012:      # thousands of violations
        b = bounded_case(rng, 1, lambda r, w: many_job(r), wide=515, zones=1, extra=2)
        if b:
            b[0]['default'] = False
        return b
    for _ in range(20):
        default = rng.random() < .1
        b = bounded_case(rng, 1 if default else njobs, (lambda r, w: cases.DEFAULT_JOB) if default else jobf, **kw)
        if b and sum(map(len, b[2])) <= 250 and sum(len(x.edges) for g in b[2] for x in g) < 8000:
            b[0]['default'] = default
            return b
    return None


PROFILES = [(0, 0, 0, 0), (30, 0, 0, 100), (300, 0, 1000, 100), (0, 300, 0, 200), (20, 1000, 800, 50), (100, 100, 500, 500),
            (1000, 0, 0, 0), (5, 20, 900, 1500)]


def sched_env(rng, log=None, **more):
    p = rng.choice(PROFILES)
    e = dict(os.environ, VF_SCHED=':'.join(map(str, (rng.randrange(1 << 30),) + p)), **more)
    e.pop('VF_QLOG', None)
    e.pop('VF_PHASE', None)
    if rng.random() < .4:
        # the producer starts while the consumers doze over the empty queue, or a consumer keeps an item for long
        miss = rng.choice([0, 2000, 8000, 20000])
        e['VF_PHASE'] = '%d:%d:%d:%d:%d' % (miss, rng.choice([1, 1, 2, 4]), rng.choice([0, miss // 4, miss // 2, 2 * miss]),
                                            rng.choice([0, 0, 20, 200]), rng.choice([500, 3000, 10000]))
    if log:
        e['VF_QLOG'] = log
    return e, 'delays %d/%d/%d/%d%s' % (p + (' and phases' if 'VF_PHASE' in e else '',))


def cores(rng):
    have = sorted(os.sched_getaffinity(0))
    k = rng.choice([1, 2, 3, len(have), len(have)])
    return rng.sample(have, min(k, len(have)))


def canonical(x):
    if isinstance(x, dict):
        return {k: canonical(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((canonical(v) for v in x), key=js)
    return x


def js(x):
    return json.dumps(x, sort_keys=True)


def queue_log(path):
    ev = []
    with open(path, errors='replace') as f:
        lines = f.read().split('\n')
    if 'END' not in lines:
        return None
    for l in lines[:lines.index('END')]:
        p = l.split(' ', 5)
        ev.append((int(p[0]), int(p[1]), p[2], p[3], p[4], p[5] if len(p) > 5 else ''))
    ev.sort()
    return ev


def conserve(ev, rep, total):
    """every item put into a queue came out of it exactly once, and the report is what came out"""
    diffs = []
    cnt = Counter()
    put, got = Counter(), Counter()
    out, alias = set(), set()
    live = {}
    for seq, th, op, q, kind, what in ev:
        if kind == 'task':
            # addresses are used again: an item may only come out after it went in
            if op == 'E':
                if live.get((q, what)):
                    diffs.append('task %s was put into the queue twice' % what)
                live[q, what] = True
            else:
                if not live.get((q, what)):
                    diffs.append('task %s came out of the queue without having been put in' % what)
                live[q, what] = False
        (put if op == 'E' else got)[q, kind, what] += 1
        cnt[kind + (' in' if op == 'E' else ' out')] += 1
        if kind == 'json' and op == 'E':
            x = json.loads(what)
            if x.get('Property') == 'All Aliases' and 'Query' in x:
                alias.add((x['Canonical Name'], x['Query']))
            else:
                out.add(js(x))
    for (q, kind, what), n in (put - got).items():
        diffs.append('%d %s item(s) lost in a queue: %s' % (n, kind, what[:200]))
    for (q, kind, what), n in (got - put).items():
        diffs.append('%d %s item(s) came out of a queue more often than put in: %s' % (n, kind, what[:200]))
    if cnt['json in'] or cnt['json out']:
        rout, ralias = set(), set()
        for x in rep:
            if x.get('Property') == 'All Aliases':
                for y in x.get('Canonical Name and their Aliases') or []:
                    ralias.update((y['Canonical Name'], a) for a in y['Aliases'])
            else:
                rout.add(js(x))
        for what, a, b in (('violation', out, rout), ('alias', alias, ralias)):
            for x in sorted(a - b)[:3]:
                diffs.append('%s produced but not in the report: %s' % (what, x))
            for x in sorted(b - a)[:3]:
                diffs.append('%s in the report that no check produced: %s' % (what, x))
    if cnt['attr in'] and cnt['attr in'] != total:
        diffs.append('%d graphs were built but the run reports %s classes' % (cnt['attr in'], total))
    if cnt['task in'] and cnt['attr in'] > cnt['task in']:
        diffs.append('%d graphs were built for %d tasks' % (cnt['attr in'], cnt['task in']))
    return diffs[:8], cnt


def c20_one(item):
    rng = rng_of('C20', item)
    b = busy_case(rng, rng.choice([1, 1, 2, 3]))
    if b is None:
        return Result('skip')
    case, w, gs = b
    exp = None
    for j, g in zip(case['jobs'], gs):
        exp = cases.expect_job(w, j, g, exp)
    d = scratch()
    cases.write(case, d)
    cnt = Counter()
    diffs, keys, first = [], set(), None
    log = os.path.join(d, 'q.log')
    for k in range(4):
        env, prof = sched_env(rng, log)
        if os.path.exists(log):
            os.unlink(log)
        cpus = cores(rng)
        r = cases.run(BIN['sched', 'groot'], d, args=['-s'], env=env, timeout=30, jobs=not case['default'], wrap=['taskset', '-c', ','.join(map(str, cpus))])
        cnt['runs'] += 1
        cnt['runs on %d core(s)' % len(cpus)] += 1
        cnt['runs with ' + prof] += 1
        if r.status != 'exit 0' or r.report is None:
            diffs.append('%s, %s on cores %s' % (bad_end(r), env['VF_SCHED'], cpus))
            if r.status == 'hang':
                break
            continue
        got = cases.parse(r.report)
        for t in set(cases.TITLE.values()) | {'Cyclic Zone Dependency'}:
            diffs += cases.diff_title(t, exp, got)[0][:2]
        if got['UNKNOWN']:
            diffs.append('unknown kind of violation: %r' % list(got['UNKNOWN'])[:2])
        reps = sorted(js(canonical(x) if x.get('Property') == 'All Aliases' else x) for x in r.report)
        if len(set(reps)) != len(reps):
            diffs.append('a violation is reported twice')
        if first is not None and first != reps:
            diffs.append('the reports of two runs differ: %s' % sorted(set(first) ^ set(reps))[:3])
        first = reps
        s = parse_stats(r.out)
        if os.path.exists(log):
            ev = queue_log(log)
            if ev is None:
                diffs.append('the event log is incomplete')
                continue
            x, c = conserve(ev, r.report, s['total_ecs'])
            diffs += x
            cnt.update({'queue ' + a: n for a, n in c.items()})
            cnt['consuming threads'] += len({e[1] for e in ev if e[2] == 'D' and e[4] == 'task'})
            cnt['producing threads'] += len({e[1] for e in ev if e[2] == 'E' and e[4] == 'task'})
            ids = {}
            trace = tuple((ids.setdefault(e[1], len(ids)), e[2], e[4]) for e in ev)
            keys.add(hash(trace))
            cnt['runs with tasks processed by more than one thread'] += len(
                {e[1] for e in ev if e[2] == 'D' and e[4] == 'task'}) > 1
            cnt['runs with tasks generated by more than one thread'] += len(
                {e[1] for e in ev if e[2] == 'E' and e[4] == 'task'}) > 1
        if sum(s['jobs'][i][0] for i in range(len(s['jobs']))) != s['total_ecs']:
            diffs.append('classes of the jobs %r do not add up to %r' % ([x[0] for x in s['jobs']], s['total_ecs']))
    cnt['distinct interleavings'] = len(keys)
    cnt['violations expected'] = sum(Verdict.expected(t, exp) for t in cases.TITLE.values())
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of(case), sum(map(len, gs)) > 3)


@check('C20')
def c20(ctx):
    need(('sched', ('groot',)))
    ctx.rule = 'Random configurations with many classes, each run 4 times under different seeded delays (queue operations, ' \
               'function entries, thread starts) on different sets of cores. The event log of the real queues is checked for ' \
               'conservation, the report against the log, against the reference model and against the other runs. ' \
               'Non-trivial: more than 3 classes.'
    ctx.run(c20_one, items(ctx, 450, 6000), chunk=2)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(200, 3000)


# ---- data races (C21) --------------------------------------------------------------------------------------------------
def sanitizer_report(text):
    m = re.search(r'(WARNING: ThreadSanitizer|ERROR: \w*Sanitizer|runtime error:|terminate called|==\d+== (?:Invalid|Conditional|Use of|'
                  r'Mismatched|Uninit|Syscall param|Process terminating|Source and destination))', text)
    return text[max(0, m.start() - 200):m.start() + 3000] if m else None


def c21_one(item):
    rng = rng_of('C21', item)
    b = busy_case(rng, rng.choice([1, 1, 2]))
    if b is None:
        return Result('skip')
    case, w, gs = b
    d = scratch()
    cases.write(case, d)
    cnt = Counter()
    diffs, files = [], {}
    log = os.path.join(d, 'q.log')
    for k in range(2):
        env, prof = sched_env(rng, log, TSAN_OPTIONS='exitcode=66:halt_on_error=0:history_size=4:report_thread_leaks=0')
        args = [a for a in ('-s', '-l', '-v', '--lint') if rng.random() < .4]
        cpus = cores(rng)
        r = cases.run(BIN['tsan', 'groot'], d, args=args, env=env, timeout=60, jobs=not case['default'],
                      wrap=['taskset', '-c', ','.join(map(str, cpus))])
        cnt['runs'] += 1
        cnt['runs on %d core(s)' % len(cpus)] += 1
        cnt['runs with ' + prof] += 1
        rep = sanitizer_report(r.out)
        if rep:
            loc = re.findall(r'#\d+ (\S[^\n]*?) (?:/\S*?)([^/\s]+:\d+)', rep)
            diffs.append('race: ' + ' | '.join('%s %s' % x for x in loc[:6]))
            files['tsan-%d.txt' % k] = r.out[-20000:]
        elif r.status == 'exit 66':
            diffs.append('the race detector failed the run: ' + r.out[-600:])
        elif r.status != 'exit 0':
            diffs.append(bad_end(r))
        if os.path.exists(log):
            with open(log) as f:
                n = [int(x) for x in f.read().split()]
            cnt['items taken out of queues'] += sum(n)
            cnt['runs with tasks processed by more than one thread'] += len(n) > 3
    return Result('bad' if diffs else 'ok', diffs, case, cnt, key_of(case), sum(map(len, gs)) > 3, files=files)


@check('C21')
def c21(ctx):
    need(('tsan', ('groot',)))
    ctx.rule = 'Random configurations with many classes run under ThreadSanitizer with seeded delays; the queues are replaced by ' \
               'ones whose only ordering is from the enqueue of an item to its dequeue. Non-trivial: more than 3 classes.'
    ctx.assumptions = ['libraries that were not compiled with the race detector (spdlog, fmt, docopt, boost) are not watched inside']
    ctx.run(c21_one, items(ctx, 700, 8000), chunk=2)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(300, 4000)


# ---- hostile inputs (C22) ----------------------------------------------------------------------------------------------
TOKENS = ['$TTL', '$ORIGIN', '$INCLUDE', '$GENERATE', '$', '(', ')', '((', '))', '"', '""', '\\', '\\\\', '\\.', '\\"', '\\000', '\\25', '@', '.', '..',
          '*', '*.*', ';', 'IN', 'CH', 'HS', 'CLASS1', 'TYPE1', 'A', 'AAAA', 'NS', 'MX', 'SOA', 'CNAME', 'DNAME', 'TXT', 'SRV', 'DS', 'RRSIG',
          'NSEC', 'PTR', 'SPF', 'ANY', '0', '-1', '1', '300', '2147483647', '2147483648', '4294967295', '4294967296', '99999999999999999999',
          '1h', '1w2d', '0x10', '1.2.3', '999.1.1.1', '::1', ':::', 'a', 'a.', '.a', 'a..b', 'a' * 63, 'a' * 64, 'a' * 300,
          '.'.join(['a'] * 127) + '.', '.'.join(['a'] * 128) + '.', '.'.join(['b' * 63] * 4) + '.', '.'.join(['x'] * 400), '\x00', '\xff', 'é', '\t', '\r',
          '\x0b', '\x0c', '\x1a', '\xa0', '~{ }.', '', ' ']
MAXV = [None, True, False, 0, -1, 1, 2, 1.5, 1e308, 2 ** 31 - 1, 2 ** 31, 2 ** 63, -2 ** 63, '', '.', '..', 'a', 'a..b.', '.a', 'x' * 64 + '.', '.'.join(['a'] * 200) + '.',
        '*', '*.', '\\', '\\.', 'NS', 'ns', 'A', 'BOGUS', '\x00', '\u00e9', '\ud7ff', '%s%n', '{}', '{0}', 'z0.txt', 'nofile', '/', '../', [], {}, [[]], [{}], ['A'], {'a': 1},
        [1, 'A', None], {'PropertyName': 'Hops', 'Value': 'x'}]


def mutate_bytes(rng, t):
    """t: bytes"""
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2, 3, 8, 30])):
        n = len(t)
        i = rng.randrange(n + 1)
        k = rng.random()
        tok = rng.choice(TOKENS).encode('latin-1', 'replace')
        if k < .15 and i < n:
            t[i] = rng.randrange(256)
        elif k < .25 and i < n:
            t[i] ^= 1 << rng.randrange(8)
        elif k < .35:
            del t[i:i + rng.choice([1, 2, 5, 40])]
        elif k < .45:
            t[i:i] = bytes(rng.choice(b'\n\r\t ;()"\\@.*$\x00\xff0aA') for _ in range(rng.choice([1, 1, 2, 4])))
        elif k < .6:
            t[i:i] = b' ' + tok + b' ' if rng.random() < .7 else tok
        elif k < .75:      # a token becomes another one
            spans = [m.span() for m in re.finditer(rb'[^\s]+', bytes(t))]
            if spans:
                a, b = rng.choice(spans)
                t[a:b] = tok
        elif k < .82:      # a token goes
            spans = [m.span() for m in re.finditer(rb'[^\s]+', bytes(t))]
            if spans:
                a, b = rng.choice(spans)
                del t[a:b]
        elif k < .92:      # lines move or repeat
            ls = bytes(t).split(b'\n')
            a, b = rng.randrange(len(ls)), rng.randrange(len(ls) + 1)
            ls.insert(b, ls[a])
            if rng.random() < .5:
                del ls[rng.randrange(len(ls))]
            t = bytearray(b'\n'.join(ls))
        elif k < .95:
            t = t[:i]
        elif k < .97:
            a = rng.randrange(n + 1)
            t[i:i] = t[a:a + rng.randrange(200)]
        else:
            t[i:i] = tok * rng.choice([10, 100, 3000])
    return bytes(t[:200000])


def mutate_json(rng, x):
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        slots = []

        def walk(y):
            if isinstance(y, dict):
                for k in y:
                    slots.append((y, k))
                    walk(y[k])
            elif isinstance(y, list):
                for k in range(len(y)):
                    slots.append((y, k))
                    walk(y[k])
        walk(x)
        k = rng.random()
        if not slots or k < .03:
            x = copy.deepcopy(rng.choice(MAXV))
            continue
        c, i = rng.choice(slots)
        if k < .55:
            c[i] = copy.deepcopy(rng.choice(MAXV))
        elif k < .7:
            if isinstance(c, dict):
                del c[i]
            else:
                c.pop(i)
        elif k < .8 and isinstance(c, list):
            c.insert(i, copy.deepcopy(rng.choice([c[i]] + MAXV)))
        elif k < .88 and isinstance(c, dict):
            c[str(rng.choice(['Value', 'Types', 'Origin', 'Domain', 'x', '']))] = copy.deepcopy(rng.choice(MAXV))
        elif isinstance(c[i], str):
            s = list(c[i])
            for _ in range(rng.choice([1, 2, 5])):
                s.insert(rng.randrange(len(s) + 1), rng.choice(['.', '..', '\\', '*', '\x00', 'A', '"', '\u00ff', ' ', 'a' * 64, '\t']))
            c[i] = ''.join(s)
        else:
            c[i] = [c[i]]
    return x


def hostile_case(rng):
    """a directory to be filled, as {file: bytes}"""
    if rng.random() < .3:
        zs = [odd_zone(rng)]
        top = [zs[0][0]]
    else:
        top, zs = gen.world(rng, loops=False, dname=rng.choice([0, 0, 1]), zones=rng.choice([1, 2, 2, 3]), extra=rng.choice([1, 4]),
                            conflicts=rng.choice([0, 4]), **({'long': .3} if rng.random() < .1 else {}))
    case = cases.mk(top, zs, layout=rng.randrange(1 << 30) if rng.random() < .6 else None)
    w = cases.model(case)
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        jobs.append(gen.job(rng, w, must=rng.sample(gen.ALLP, rng.choice([1, 2, 4])), pmore=.2))
    case['jobs'] = jobs
    d = scratch()
    cases.write(case, d)
    fs = {}
    for f in os.listdir(d):
        with open(os.path.join(d, f), 'rb') as h:
            fs[f] = h.read()
    what = rng.choice(['zone'] * 6 + ['meta'] * 2 + ['jobs'] * 3 + ['all'] + ['none'])
    touched = []
    for f in sorted(fs):
        kind = 'zone' if re.fullmatch(r'z\d+\.txt', f) else 'meta' if f == 'metadata.json' else 'jobs' if f == 'jobs.json' else None
        if kind and (what == kind or what == 'all') and (kind != 'zone' or rng.random() < .7):
            touched.append(kind)
            if kind != 'zone' and rng.random() < .8:
                # the reader may get bytes that are not UTF-8
                fs[f] = json.dumps(mutate_json(rng, json.loads(fs[f])), ensure_ascii=rng.random() < .5).encode(
                    rng.choice(['utf-8', 'utf-8', 'latin-1']), 'replace')
            else:
                fs[f] = mutate_bytes(rng, fs[f])
    args = [a for a in ('-s', '-l', '-v', '--lint') if rng.random() < .4]
    try:
        use_jobs = rng.random() < .85 or not cases.graphs(w, cases.DEFAULT_JOB)
    except TooBig:
        use_jobs = True
    return fs, args, use_jobs, touched


def hostile_run(tool, fs, args, use_jobs, timeout):
    """-> (what happened, output); the directory is remade"""
    d = scratch()
    for f, b in fs.items():
        with open(os.path.join(d, f), 'wb') as h:
            h.write(b)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:hard_rss_limit_mb=4000:max_allocation_size_mb=3000:detect_stack_use_after_return=1:'
               'strict_string_checks=1:check_initialization_order=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')
    if tool == 'valgrind':
        cmd = ['valgrind', '-q', '--fair-sched=yes', '--error-exitcode=98', '--show-mismatched-frees=yes', '--num-callers=20', BIN['plain', 'groot']]
    else:
        cmd = [BIN['asan', 'groot']]

    def limit():
        if tool == 'valgrind':
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cmd += [d] + (['--jobs=' + d + '/jobs.json'] if use_jobs else []) + args
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=limit)
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'').decode(errors='replace')
    out = r.stdout.decode(errors='replace')
    rep = sanitizer_report(out)
    if 'hard rss limit exhausted' in out or 'allocation-size-too-big' in out and 'max_allocation_size_mb' in out:
        return 'memory', out
    if rep:
        return 'report', rep
    if r.returncode < 0:
        return 'signal %d' % -r.returncode, out
    if r.returncode not in (0, 1):
        return 'status %d' % r.returncode, out
    return 'exit %d' % r.returncode, out


def grows(fs, use_jobs):
    """Is this the known finding, DNAME records that let the set of names explode? Judged on the records really loaded."""
    d = scratch()
    for f, b in fs.items():
        with open(os.path.join(d, f), 'wb') as h:
            h.write(b)
    st, out = probe(d, {'zones': True})
    if out is None:
        return False
    zs = []
    for z in out['zones'].values():
        zs.append([z['ns'], z['origin'], [[x[0], NO_TYPE.get(x[1], 'A'), x[2], x[3]] for _, rr in z['nodes'] for x in rr]])
    try:
        w = World([], [(ns, sorted((Rec(tuple(a), t, n, r) for a, t, n, r in rs), key=lambda r: r.type != 'SOA')) for ns, o, rs in zs])
        if use_jobs:
            doms = [str(j.get('Domain', '.')).lower() for j in json.loads(fs['jobs.json']) if isinstance(j, dict)]
        else:
            doms = ['.']
        for x in doms:
            n = N(x)
            v = w.reps(n)
            if v:
                w._walks(n, v)
    except TooBig:
        return True
    except Exception:
        return False
    return False


def c22_one(item):
    rng = rng_of('C22', item)
    fs, args, use_jobs, touched = hostile_case(rng)
    tool = 'valgrind' if item[1] % 60 == 7 else 'asan'
    cnt = Counter()
    cnt['runs under ' + tool] += 1
    for t in set(touched):
        cnt['mutated ' + t] += 1
    st, out = hostile_run(tool, fs, args, use_jobs, 8 if tool == 'asan' else 60)
    if st == 'hang':
        if grows(fs, use_jobs):
            return Result('skip')
        st, out = hostile_run(tool, fs, args, use_jobs, 150)
    elif st == 'memory' and grows(fs, use_jobs):
        return Result('skip')
    diffs = []
    cnt['ended with ' + st.split(' ')[0] + (' ' + st.split(' ')[1] if st.startswith('exit') else '')] += 1
    for w in re.findall(r'\b([\w-]+\.cpp) \((\w+)\)', out):
        cnt['messages of %s %s' % w] += 1
    if not st.startswith('exit'):
        diffs.append('%s: %s' % (st, out[-2500:]))
    files = {f: b.decode('latin-1') for f, b in fs.items()} if diffs else {}
    return Result('bad' if diffs else 'ok', diffs, {'files': {f: b.decode('latin-1')[:2000] for f, b in fs.items()}, 'args': args,
                  'use_jobs': use_jobs}, cnt, key_of([{f: b.decode('latin-1') for f, b in fs.items()}, args]), True, files=files)


def known_growth():
    with open(os.path.join(runner.VERIF, 'vf/known/c22.json')) as f:
        case = json.load(f)
    d = scratch()
    cases.write(case, d)

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([BIN['plain', 'groot'], d, '--jobs=' + d + '/jobs.json'], cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=8, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        return True
    return r.returncode not in (0, 1)


@check('C22')
def c22(ctx):
    need(('asan', ('groot',)), ('plain', ('groot', 'probe')))
    ctx.rule = 'Random configurations whose zone files, metadata or jobs are damaged at byte, token, line or JSON-value level, run ' \
               'through the command line under AddressSanitizer and UndefinedBehaviorSanitizer (and some under valgrind memcheck). ' \
               'Distinct by file contents; all count as non-trivial.'
    ctx.assumptions = ['memory is watched in the code compiled here; libraries are watched at their interfaces (and inside by valgrind)']
    if known_growth():
        ctx.known_seen.add('dname-growth')
    ctx.run(c22_one, items(ctx, 1800, 60000), chunk=4)
    ctx.min_nontrivial = 1 if hasattr(ctx, 'only') else ctx.n(900, 30000)
