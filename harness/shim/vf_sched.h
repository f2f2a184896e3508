// Seeded delays and the event log of the queues.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <memory>
#include <tuple>
#include <typeinfo>

namespace vfs {
enum Op { ENQ, DEQ, EMPTY };
void delay(int where);                                              // 0 before an operation, 1 after it
void missed();                                                      // after a fruitless look into a queue
void putting();                                                     // before an item goes in
void holding();                                                     // after an item came out
void log(Op op, const void *queue, const char *kind, std::string what);
bool logging();
void took();                                                        // an item came out (tsan build)

template <class T> struct Kind {
    static const char *name() { return typeid(T).name(); }
    static std::string show(const T &) { return ""; }
};
template <class T> struct Kind<std::unique_ptr<T>> {
    static const char *name() { return "task"; }
    static std::string show(const std::unique_ptr<T> &t) { return std::to_string((uintptr_t)t.get()); }
};
template <class T> struct Kind<std::shared_ptr<T>> {
    static const char *name() { return "task"; }
    static std::string show(const std::shared_ptr<T> &t) { return std::to_string((uintptr_t)t.get()); }
};
template <class A, class B> struct Kind<std::tuple<A, B>> {
    static const char *name() { return "attr"; }
    static std::string show(const std::tuple<A, B> &t) { return std::to_string(std::get<0>(t)) + "," + std::to_string(std::get<1>(t)); }
};
template <class T> auto show_any(const T &t, int) -> decltype(t.dump(), std::string()) { return t.dump(); }
template <class T> std::string show_any(const T &t, long) { return Kind<T>::show(t); }
template <class T> auto kind_any(const T *t, int) -> decltype(t->dump(), (const char *)0) { return "json"; }
template <class T> const char *kind_any(const T *, long) { return Kind<T>::name(); }
} // namespace vfs
