"""Builds the real groot sources of /repo's working tree in several flavours, cached by content."""
import hashlib, os, subprocess, sys, shutil, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
CQ = '/opt/vp/include/concurrentqueue'

BASE = ['-std=c++17', '-w', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-g1']
LIBS = ['-lspdlog', '-lfmt', '-ldocopt', '-lboost_filesystem', '-lboost_regex', '-lboost_serialization', '-lpthread']
FLAVOURS = {
    # assertions of the code under test, of nlohmann/json and of libstdc++ stay on in every flavour
    'plain': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS', '-I' + CQ]),
    'asan': dict(cxx='clang++', flags=['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                 '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-I' + CQ]),
    'tsan': dict(cxx='clang++', flags=['-O1', '-fsanitize=thread', '-I' + os.path.join(VERIF, 'harness/shim/inc'),
                 '-DVF_REAL_QUEUE="%s/concurrentqueue.h"' % CQ, '-DVF_TSAN']),
    'sched': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS', '-I' + os.path.join(VERIF, 'harness/shim/inc'),
                  '-DVF_REAL_QUEUE="%s/concurrentqueue.h"' % CQ, '-finstrument-functions',
                  '-finstrument-functions-exclude-file-list=/usr/,/opt/,harness/']),
}
SCHED = VERIF + '/harness/sched.cpp'


class BuildError(Exception):
    pass


def _h(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    src = sorted(glob.glob(REPO + '/src/*.cpp'))
    if not src:
        raise BuildError('no sources in %s/src' % REPO)
    return src


def _compile(cxx, flags, src, obj):
    tmp = obj + '.tmp%d' % os.getpid()
    r = subprocess.run([cxx] + BASE + flags + ['-I' + REPO + '/src', '-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
    os.rename(tmp, obj)


def build(flavour, want=('groot',)):
    """Returns {'groot': path, 'probe': path} for the wanted programs."""
    fl = FLAVOURS[flavour]
    headers = glob.glob(REPO + '/src/*.h') + glob.glob(VERIF + '/harness/shim/**/*.h', recursive=True)
    srcs = sources()
    mains = {'groot': REPO + '/bin/groot.cpp', 'probe': VERIF + '/harness/probe.cpp'}
    os.makedirs(BUILD, exist_ok=True)
    objdir = os.path.join(BUILD, 'obj-' + flavour)
    os.makedirs(objdir, exist_ok=True)
    key = fl['cxx'] + ' '.join(BASE + fl['flags'])
    res = {}
    with open(os.path.join(BUILD, flavour + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        extra = [SCHED] if flavour in ('tsan', 'sched') else []
        units = srcs + [mains[w] for w in want] + extra
        objs = {}
        todo = []
        hk = _h(headers, key)
        for s in units:
            o = os.path.join(objdir, os.path.basename(s) + '-' + _h([s], key + hk) + '.o')
            objs[s] = o
            if os.path.exists(o):
                os.utime(o)
            else:
                todo.append((s, o))
        # the parser is by far the slowest unit: start it first
        todo.sort(key=lambda t: (0 if 'parser' in t[0] else 1, -os.path.getsize(t[0])))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(_compile, fl['cxx'], fl['flags'], s, o) for s, o in todo]:
                f.result()
        for w in want:
            lobjs = [objs[s] for s in srcs] + [objs[mains[w]]] + [objs[x] for x in extra]
            out = os.path.join(objdir, w + '-' + hashlib.sha256(' '.join(lobjs).encode()).hexdigest()[:20])
            if not os.path.exists(out):
                san = [x for x in fl['flags'] if x.startswith('-fsanitize')]
                r = subprocess.run([fl['cxx']] + san + lobjs + ['-o', out + '.tmp'] + LIBS + ['-ldl'],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError('link failed:\n' + r.stdout.decode(errors='replace')[-3000:])
                os.rename(out + '.tmp', out)
            os.utime(out)
            res[w] = out
        # drop what was not used for a while
        now = time.time()
        files = sorted((os.path.getmtime(os.path.join(objdir, f)), f) for f in os.listdir(objdir))
        if len(files) > 120:
            for m, f in files[:-60]:
                if now - m > 600:
                    os.unlink(os.path.join(objdir, f))
    return res


if __name__ == '__main__':
    for f in sys.argv[1:] or ['plain']:
        t = time.time()
        print(f, build(f, ('groot', 'probe')), round(time.time() - t, 1), 's')
