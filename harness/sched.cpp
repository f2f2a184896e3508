// Seeded delays, thread-start perturbation and the queue event log of the sched and tsan builds.
// VF_SCHED="seed:queue_permille:call_per_million:start_permille:max_us"   VF_QLOG=file
// VF_PHASE="miss_us:misses:first_us:hold_permille:hold_us": a thread sleeps after each of its first fruitless looks into a
// queue, before the first item it puts into a queue, and now and then while it holds an item it took out
#include "shim/vf_sched.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#define QUIET __attribute__((no_instrument_function))
#ifdef VF_TSAN
#define RAW __attribute__((disable_sanitizer_instrumentation))
#else
#define RAW
#endif

namespace {
struct Conf {
    unsigned long seed = 0, queue = 0, call = 0, start = 0, us = 0;
    const char *log = nullptr;
    unsigned long miss_us = 0, misses = 0, first_us = 0, hold = 0, hold_us = 0;
};
Conf conf;
__attribute__((constructor(101))) QUIET RAW void init()
{
    if (const char *s = getenv("VF_SCHED"))
        sscanf(s, "%lu:%lu:%lu:%lu:%lu", &conf.seed, &conf.queue, &conf.call, &conf.start, &conf.us);
    if (const char *s = getenv("VF_PHASE"))
        sscanf(s, "%lu:%lu:%lu:%lu:%lu", &conf.miss_us, &conf.misses, &conf.first_us, &conf.hold, &conf.hold_us);
    conf.log = getenv("VF_QLOG");
}
unsigned long next_id = 0;
struct Local {
    unsigned long id, rnd, missed, put;
};
thread_local Local local __attribute__((tls_model("initial-exec"))) = {0, 0, 0, 0};

QUIET RAW inline unsigned long rnd()
{
    if (!local.rnd) {
        local.id = __atomic_add_fetch(&next_id, 1, __ATOMIC_RELAXED);
        local.rnd = (conf.seed + 1) * 0x9E3779B97F4A7C15ul ^ local.id * 0xBF58476D1CE4E5B9ul;
        if (!local.rnd) local.rnd = 1;
    }
    local.rnd ^= local.rnd << 13;
    local.rnd ^= local.rnd >> 7;
    local.rnd ^= local.rnd << 17;
    return local.rnd >> 11;
}
QUIET RAW void nap(unsigned long us)
{
    timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    nanosleep(&t, nullptr);
}
QUIET RAW void pause_a_while()
{
    unsigned long k = rnd() % 4;
    if (k == 0 || !conf.us) {
        sched_yield();
    } else {
        unsigned long us = k == 3 ? rnd() % (conf.us * 8 + 1) : rnd() % (conf.us + 1);
        timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
        nanosleep(&t, nullptr);
    }
}
} // namespace

namespace vfs {
RAW void delay(int)
{
    if (conf.queue && rnd() % 1000 < conf.queue) pause_a_while();
}
RAW void missed()
{
    if (local.missed < conf.misses) {
        local.missed++;
        nap(conf.miss_us);
    }
}
RAW void putting()
{
    if (conf.first_us && !local.put) {
        local.put = 1;
        nap(conf.first_us);
    }
}
RAW void holding()
{
    if (conf.hold && rnd() % 1000 < conf.hold) nap(conf.hold_us);
}
RAW bool logging() { return conf.log != nullptr; }

#ifdef VF_TSAN
static unsigned long taken[4096];
RAW void took()
{
    rnd();
    __atomic_add_fetch(&taken[local.id % 4096], 1, __ATOMIC_RELAXED);
}
__attribute__((destructor)) RAW void dump_taken()
{
    if (!conf.log) return;
    if (FILE *f = fopen(conf.log, "w")) {
        for (unsigned long n : taken)
            if (n) fprintf(f, "%lu\n", n);
        fclose(f);
    }
}
#endif

#ifndef VF_TSAN
namespace {
struct Ev {
    unsigned long seq;
    Op op;
    const void *q;
    const char *kind;
    std::string what;
};
struct Buf {
    unsigned long id;
    std::vector<Ev> ev;
};
std::mutex &mu()
{
    static std::mutex *m = new std::mutex;
    return *m;
}
std::vector<Buf *> &bufs()
{
    static auto *b = new std::vector<Buf *>;
    return *b;
}
std::atomic<unsigned long> seq{0};
thread_local Buf *mine = nullptr;
struct Dump {
    ~Dump() { dump(); }
    static void dump()
    {
        if (!conf.log) return;
        FILE *f = fopen(conf.log, "w");
        if (!f) return;
        std::lock_guard<std::mutex> g(mu());
        for (Buf *b : bufs())
            for (Ev &e : b->ev)
                fprintf(f, "%lu %lu %c %p %s %s\n", e.seq, b->id, "ED-"[e.op], e.q, e.kind, e.what.c_str());
        fprintf(f, "END\n");
        fclose(f);
    }
} dump_at_exit;
} // namespace

void log(Op op, const void *q, const char *kind, std::string what)
{
    if (!mine) {
        mine = new Buf;
        rnd();
        mine->id = local.id;
        std::lock_guard<std::mutex> g(mu());
        bufs().push_back(mine);
    }
    mine->ev.push_back({seq.fetch_add(1, std::memory_order_relaxed), op, q, kind, std::move(what)});
}
#endif
} // namespace vfs

#ifdef VF_TSAN
namespace moodycamel {
struct VfNode {
    VfNode *next;
};
struct VfList {
    VfNode *head, *tail;
    long n;
    char lock;
};
RAW static inline void lock(VfList *l)
{
    while (__atomic_exchange_n(&l->lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
}
RAW static inline void unlock(VfList *l) { __atomic_store_n(&l->lock, 0, __ATOMIC_RELEASE); }
RAW void vf_push(VfList *l, VfNode *n)
{
    lock(l);
    n->next = nullptr;
    if (l->tail) l->tail->next = n;
    else l->head = n;
    l->tail = n;
    l->n++;
    unlock(l);
}
RAW VfNode *vf_pop(VfList *l)
{
    lock(l);
    VfNode *n = l->head;
    if (n) {
        l->head = n->next;
        if (!l->head) l->tail = nullptr;
        l->n--;
    }
    unlock(l);
    return n;
}
RAW size_t vf_size(VfList *l)
{
    lock(l);
    size_t n = l->n;
    unlock(l);
    return n;
}
} // namespace moodycamel
#else
extern "C" QUIET void __cyg_profile_func_enter(void *, void *)
{
    if (conf.call && rnd() % 1000000 < conf.call) pause_a_while();
}
extern "C" QUIET void __cyg_profile_func_exit(void *, void *) {}

namespace {
struct Start {
    void *(*fn)(void *);
    void *arg;
};
QUIET void *begin(void *p)
{
    Start s = *(Start *)p;
    delete (Start *)p;
    if (rnd() % 1000 < conf.start)
        for (unsigned long n = rnd() % 8 + 1; n; n--) pause_a_while();
    return s.fn(s.arg);
}
} // namespace
extern "C" QUIET int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    using F = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
    return real(t, a, begin, new Start{fn, arg});
}
#endif
