// Observing stand-in for the queue header: the real queue with delays and an event log, or (with VF_TSAN) a queue whose
// only synchronisation is the documented one, from the enqueue of an item to its dequeue.
#pragma once
#include "../vf_sched.h"
#ifndef VF_TSAN
#define ConcurrentQueue VfRealConcurrentQueue
#include VF_REAL_QUEUE
#undef ConcurrentQueue

namespace moodycamel {
template <typename T, typename Traits = ConcurrentQueueDefaultTraits>
class ConcurrentQueue : public VfRealConcurrentQueue<T, Traits>
{
    using Base = VfRealConcurrentQueue<T, Traits>;
    static std::string show(const T &t) { return vfs::logging() ? vfs::show_any(t, 0) : std::string(); }
    void log(vfs::Op op, std::string s) const
    {
        if (vfs::logging()) vfs::log(op, this, vfs::kind_any((const T *)0, 0), std::move(s));
    }
    template <class F> bool enq(const T &t, F f)
    {
        vfs::putting();
        vfs::delay(0);
        log(vfs::ENQ, show(t));     // before the real operation: the consumer may be faster than the return
        bool r = f();
        vfs::delay(1);
        return r;
    }
    template <class U, class F> bool deq(U &u, F f)
    {
        vfs::delay(0);
        bool r = f();
        if (r) log(vfs::DEQ, show(u));
        r ? vfs::holding() : vfs::missed();
        vfs::delay(1);
        return r;
    }

  public:
    using Base::Base;
    bool enqueue(T const &t) { return enq(t, [&] { return Base::enqueue(t); }); }
    bool enqueue(T &&t) { return enq(t, [&] { return Base::enqueue(std::move(t)); }); }
    bool enqueue(ProducerToken const &k, T const &t) { return enq(t, [&] { return Base::enqueue(k, t); }); }
    bool enqueue(ProducerToken const &k, T &&t) { return enq(t, [&] { return Base::enqueue(k, std::move(t)); }); }
    bool try_enqueue(T const &t) { return enqueue(t); }
    bool try_enqueue(T &&t) { return enqueue(std::move(t)); }
    bool try_enqueue(ProducerToken const &k, T const &t) { return enqueue(k, t); }
    bool try_enqueue(ProducerToken const &k, T &&t) { return enqueue(k, std::move(t)); }
    template <class It> bool enqueue_bulk(It it, size_t n)
    {
        for (; n; --n, ++it) enqueue(*it);
        return true;
    }
    template <class It> bool enqueue_bulk(ProducerToken const &k, It it, size_t n)
    {
        for (; n; --n, ++it) enqueue(k, *it);
        return true;
    }
    template <class It> bool try_enqueue_bulk(It it, size_t n) { return enqueue_bulk(it, n); }
    template <class It> bool try_enqueue_bulk(ProducerToken const &k, It it, size_t n) { return enqueue_bulk(k, it, n); }
    template <class U> bool try_dequeue(U &u) { return deq(u, [&] { return Base::try_dequeue(u); }); }
    template <class U> bool try_dequeue(ConsumerToken &k, U &u) { return deq(u, [&] { return Base::try_dequeue(k, u); }); }
    template <class U> bool try_dequeue_non_interleaved(U &u) { return deq(u, [&] { return Base::try_dequeue_non_interleaved(u); }); }
    template <class U> bool try_dequeue_from_producer(ProducerToken const &k, U &u)
    {
        return deq(u, [&] { return Base::try_dequeue_from_producer(k, u); });
    }
    template <class It> size_t try_dequeue_bulk(It it, size_t n)
    {
        size_t i = 0;
        for (T t; i < n && try_dequeue(t); ++i, ++it) *it = std::move(t);
        return i;
    }
    template <class It> size_t try_dequeue_bulk(ConsumerToken &, It it, size_t n) { return try_dequeue_bulk(it, n); }
};
} // namespace moodycamel
#else
#include <deque>
#include <utility>
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);

namespace moodycamel {
struct ConcurrentQueueDefaultTraits {};
struct VfNode {
    VfNode *next = nullptr;
};
struct VfList {
    VfNode *head = nullptr, *tail = nullptr;
    long n = 0;
    char lock = 0;
};
// Compiled without any instrumentation: they order nothing in the eyes of the race detector.
void vf_push(VfList *l, VfNode *n);
VfNode *vf_pop(VfList *l);
size_t vf_size(VfList *l);

template <typename T, typename Traits = ConcurrentQueueDefaultTraits>
class ConcurrentQueue
{
    struct Node : VfNode {
        T item;
        template <class U> Node(U &&u) : item(std::forward<U>(u)) {}
    };
    VfList l;
    template <class U> bool put(U &&u)
    {
        vfs::putting();
        vfs::delay(0);
        Node *n = new Node(std::forward<U>(u));
        __tsan_release(n);
        vf_push(&l, n);
        vfs::delay(1);
        return true;
    }

  public:
    ConcurrentQueue(size_t = 0) {}
    ConcurrentQueue(const ConcurrentQueue &) = delete;
    ~ConcurrentQueue()
    {
        while (VfNode *n = vf_pop(&l)) {
            __tsan_acquire(n);
            delete static_cast<Node *>(n);
        }
    }
    bool enqueue(T const &t) { return put(t); }
    bool enqueue(T &&t) { return put(std::move(t)); }
    bool try_enqueue(T const &t) { return put(t); }
    bool try_enqueue(T &&t) { return put(std::move(t)); }
    template <class It> bool enqueue_bulk(It it, size_t n)
    {
        for (; n; --n, ++it) put(*it);
        return true;
    }
    template <class U> bool try_dequeue(U &u)
    {
        vfs::delay(0);
        VfNode *n = vf_pop(&l);
        if (!n) {
            vfs::missed();
            return false;
        }
        vfs::holding();
        __tsan_acquire(n);
        vfs::took();
        u = std::move(static_cast<Node *>(n)->item);
        delete static_cast<Node *>(n);
        vfs::delay(1);
        return true;
    }
    template <class It> size_t try_dequeue_bulk(It it, size_t n)
    {
        size_t i = 0;
        for (T t; i < n && try_dequeue(t); ++i, ++it) *it = std::move(t);
        return i;
    }
    size_t size_approx() const { return vf_size(const_cast<VfList *>(&l)); }
};
struct ProducerToken {
    template <class Q> explicit ProducerToken(Q &) {}
};
struct ConsumerToken {
    template <class Q> explicit ConsumerToken(Q &) {}
};
} // namespace moodycamel
#endif
