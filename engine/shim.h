// Force-included: real standard headers first, then scheduling stand-ins for the
// concurrency primitives the library uses.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#include <bits/stdc++.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <arpa/inet.h>
#include <fcntl.h>
#include <getopt.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <uv.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <openssl/ssl.h>
#include "vsched.h"

namespace std {

template<typename T> class v_atomic {
    T v;
    typedef memory_order mo;
    public:
    typedef T value_type;
    v_atomic() noexcept: v() {}
    constexpr v_atomic(T x) noexcept: v(x) {}
    v_atomic(const v_atomic &) = delete;
    v_atomic &operator=(const v_atomic &) = delete;
    bool is_lock_free() const { return true; }
    T load(mo = memory_order_seq_cst) const { sched::point(); return v; }
    void store(T x, mo = memory_order_seq_cst) { sched::point(); v = x; }
    T exchange(T x, mo = memory_order_seq_cst) { sched::point(); T o = v; v = x; return o; }
    bool compare_exchange_strong(T &e, T x, mo = memory_order_seq_cst, mo = memory_order_seq_cst) {
        sched::point();
        if (v == e) { v = x; return true; }
        e = v; return false;
    }
    bool compare_exchange_weak(T &e, T x, mo = memory_order_seq_cst, mo = memory_order_seq_cst) {
        sched::point();
        if (v == e && !sched::spurious()) { v = x; return true; }
        e = v; return false;
    }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    template<typename U> T fetch_add(U d, mo = memory_order_seq_cst) { sched::point(); T o = v; v = v + d; return o; }
    template<typename U> T fetch_sub(U d, mo = memory_order_seq_cst) { sched::point(); T o = v; v = v - d; return o; }
    template<typename U> T fetch_or(U d, mo = memory_order_seq_cst) { sched::point(); T o = v; v = v | d; return o; }
    template<typename U> T fetch_and(U d, mo = memory_order_seq_cst) { sched::point(); T o = v; v = v & d; return o; }
    template<typename U> T fetch_xor(U d, mo = memory_order_seq_cst) { sched::point(); T o = v; v = v ^ d; return o; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    template<typename U> T operator+=(U d) { return fetch_add(d) + d; }
    template<typename U> T operator-=(U d) { return fetch_sub(d) - d; }
    template<typename U> T operator|=(U d) { return fetch_or(d) | d; }
    template<typename U> T operator&=(U d) { return fetch_and(d) & d; }
};
class v_atomic_flag {
    bool v = false;
    public:
    constexpr v_atomic_flag() noexcept {}
    constexpr v_atomic_flag(int) noexcept {}
    bool test_and_set(memory_order = memory_order_seq_cst) { sched::point(); bool o = v; v = true; return o; }
    void clear(memory_order = memory_order_seq_cst) { sched::point(); v = false; }
};
typedef v_atomic<bool> v_atomic_bool;
typedef v_atomic<int> v_atomic_int;
typedef v_atomic<unsigned> v_atomic_uint;
typedef v_atomic<size_t> v_atomic_size_t;
typedef v_atomic<uint8_t> v_atomic_uint8_t;
typedef v_atomic<uint16_t> v_atomic_uint16_t;
typedef v_atomic<uint32_t> v_atomic_uint32_t;
typedef v_atomic<uint64_t> v_atomic_uint64_t;
typedef v_atomic<long> v_atomic_long;
typedef v_atomic<unsigned long> v_atomic_ulong;
inline void v_atomic_thread_fence(memory_order) { sched::point(); }

class v_mutex {
    volatile unsigned magic = 0x10c4a11e; int owner = -2;
    void ck() const { if (magic != 0x10c4a11e) sched::dead("mutex"); }
    public:
    v_mutex() = default;
    ~v_mutex() { ck(); magic = 0xdead; }
    v_mutex(const v_mutex &) = delete;
    void lock() { sched::point(); ck(); if (owner != -2) sched::block([this]() { return owner == -2; }); owner = sched::self(); }
    bool try_lock() { sched::point(); ck(); if (owner != -2) return false; owner = sched::self(); return true; }
    void unlock() { ck(); owner = -2; sched::point(); }
};
class v_condition_variable {
    volatile unsigned magic = 0xc0dec0de; unsigned long gen = 0; long waiting = 0; long tokens = 0;
    void ck() const { if (magic != 0xc0dec0de) sched::dead("condition variable"); }
    public:
    v_condition_variable() = default;
    ~v_condition_variable() { ck(); magic = 0xdead; }
    void notify_all() { sched::point(); ck(); gen++; tokens = waiting; }
    void notify_one() { sched::point(); ck(); if (tokens < waiting) tokens++; }
    template<typename L> void wait(L &l) {
        ck(); waiting++;
        l.unlock();
        bool spur = sched::spurious();
        if (spur) sched::yielded(); else { sched::block([this]() { return tokens > 0; }); }
        if (tokens > 0) tokens--;
        waiting--;
        l.lock();
    }
    template<typename L, typename P> void wait(L &l, P p) { while (!p()) wait(l); }
};
namespace this_thread { inline void v_yield() noexcept { sched::yielded(); } }
#ifdef VERIF_SIM
class v_thread {
    int id_ = -1;
    public:
    typedef int id;
    v_thread() noexcept {}
    template<typename Fn, typename... A, typename = typename enable_if<!is_same<typename decay<Fn>::type, v_thread>::value>::type>
    explicit v_thread(Fn &&f, A &&...a) { auto p = std::make_shared<std::function<void()>>(std::bind(std::forward<Fn>(f), std::forward<A>(a)...)); id_ = sched::spawn([p]() { (*p)(); }); }
    v_thread(const v_thread &) = delete;
    v_thread(v_thread &&o) noexcept: id_(o.id_) { o.id_ = -1; }
    v_thread &operator=(v_thread &&o) noexcept { if (id_ >= 0) std::terminate(); id_ = o.id_; o.id_ = -1; return *this; }
    ~v_thread() { if (id_ >= 0) std::terminate(); }
    bool joinable() const { return id_ >= 0; }
    void join() { if (id_ < 0) throw std::system_error(EINVAL, std::generic_category()); sched::point(); sched::join(id_); id_ = -1; }
    void detach() { id_ = -1; }
    void swap(v_thread &o) { std::swap(id_, o.id_); }
    id get_id() const { return id_; }
    static unsigned hardware_concurrency() { return 4; }
};
class v_shared_timed_mutex {
    int w = 0, r = 0;
    public:
    void lock() { sched::point(); if (w || r) sched::block([this]() { return !w && !r; }); w = 1; }
    bool try_lock() { sched::point(); if (w || r) return false; w = 1; return true; }
    void unlock() { w = 0; sched::point(); }
    void lock_shared() { sched::point(); if (w) sched::block([this]() { return !w; }); r++; }
    bool try_lock_shared() { sched::point(); if (w) return false; r++; return true; }
    void unlock_shared() { r--; sched::point(); }
};
#endif
}
extern "C" {
static inline ssize_t v_read(int fd, void *b, size_t n) { sched::point(); return read(fd, b, n); }
static inline ssize_t v_write(int fd, const void *b, size_t n) { sched::point(); return write(fd, b, n); }
}
#ifndef VERIF_NO_SHIM
#define atomic v_atomic
#define atomic_flag v_atomic_flag
#define atomic_bool v_atomic_bool
#define atomic_int v_atomic_int
#define atomic_uint v_atomic_uint
#define atomic_size_t v_atomic_size_t
#define atomic_uint8_t v_atomic_uint8_t
#define atomic_uint16_t v_atomic_uint16_t
#define atomic_uint32_t v_atomic_uint32_t
#define atomic_uint64_t v_atomic_uint64_t
#define atomic_long v_atomic_long
#define atomic_ulong v_atomic_ulong
#define atomic_thread_fence v_atomic_thread_fence
#define mutex v_mutex
#define condition_variable v_condition_variable
#define yield v_yield
#ifdef VERIF_SIM
#define thread v_thread
#define shared_timed_mutex v_shared_timed_mutex
#define shared_mutex v_shared_timed_mutex
#define pthread_sigmask v_pthread_sigmask
#define sigprocmask v_pthread_sigmask
static inline int v_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {      // only SIGPIPE is modelled
    bool b = sched::sigblocked();
    if (o) { sigemptyset(o); if (b) sigaddset(o, SIGPIPE); }
    if (s) { bool in = sigismember(s, SIGPIPE) == 1; sched::sigblock(how == SIG_BLOCK ? b || in : how == SIG_UNBLOCK ? b && !in : in); }
    return 0;
}
#define sigpending v_sigpending
#define sigwait v_sigwait
#define sigtimedwait v_sigtimedwait
static inline int v_sigpending(sigset_t *s) { sigemptyset(s); if (sched::sigpend(false)) sigaddset(s, SIGPIPE); return 0; }
static inline int v_sigwait(const sigset_t *, int *n) { if (!sched::sigpend(true)) sched::dead("signal that never comes"); *n = SIGPIPE; return 0; }
static inline int v_sigtimedwait(const sigset_t *, siginfo_t *, const struct timespec *) { return sched::sigpend(true) ? SIGPIPE : -1; }
#endif
#ifdef VERIF_SHIM_IO
#define read v_read
#define write v_write
#endif
#endif
#endif
