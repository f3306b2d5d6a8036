// C26: timers, descriptor, timed descriptor, signal and check events on a real libuv loop
// whose clock is virtual (clock_gettime and epoll_pwait are interposed).
#include "salticidae/event.h"
#include "common.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <signal.h>
#include <cmath>
#include <algorithm>
using namespace salticidae;
using namespace pbt;
static uint64_t g_ns = 1000000000000ULL;   // virtual monotonic time
static bool g_virtual = true;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (g_virtual && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE)) { ts->tv_sec = g_ns / 1000000000; ts->tv_nsec = g_ns % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, ts);
}
static unsigned g_idle_waits = 0;
static int vwait(int ep, struct epoll_event *ev, int n, int to, const sigset_t *ss) {
    int r = syscall(SYS_epoll_pwait, ep, ev, n, 0, ss, 8);
    if (r == 0 && to > 0) g_ns += (uint64_t)to * 1000000;
    if (r == 0 && to < 0 && ++g_idle_waits > 50) fail("the loop would block forever");
    return r;
}
extern "C" int epoll_pwait(int ep, struct epoll_event *ev, int n, int to, const sigset_t *ss) { return vwait(ep, ev, n, to, ss); }
extern "C" int epoll_wait(int ep, struct epoll_event *ev, int n, int to) { return vwait(ep, ev, n, to, nullptr); }

// ---- timers
static const int NT = 5;
struct TM { bool exists = false; int cb = -1; bool armed = false; uint64_t lo = 0, hi = 0; bool fresh = false; unsigned serial = 0; };
struct TimerWorld {
    Ctx &c; EventContext &ec; TimerEvent *t[NT]; TM m[NT]; int nextcb = 0; unsigned fires = 0, incb = 0, depth = 0, serial = 0; uint64_t lastdl = 0; bool stop_req = false; unsigned budget = 0;
    TimerWorld(Ctx &c, EventContext &ec): c(c), ec(ec) { for (auto &x: t) x = new TimerEvent(); }
    ~TimerWorld() { for (auto x: t) delete x; }
    uint64_t now() { return uv_now(ec.get()); }
    TimerEvent::callback_t mk(int id) { return [this, id](TimerEvent &ev) { auto self = this; int my = id; self->fired(my, &ev); }; }
    void fired(int id, TimerEvent *ev) {
        int i = -1;
        for (int k = 0; k < NT; k++) if (m[k].exists && m[k].cb == id) i = k;
        if (i < 0) fail("a callback that was replaced, cleared or destroyed (%d) is called", id);
        PBT_CHECK(ev == t[i], "callback %d of object %d runs with another object", id, i);
        PBT_CHECK(m[i].armed, "timer %d fires although it is not armed", i);
        PBT_CHECK(now() >= m[i].lo, "timer %d fires %llu ms early", i, (unsigned long long)(m[i].lo - now()));
        if (!m[i].fresh) { PBT_CHECK(m[i].hi >= lastdl, "timers fire out of deadline order"); lastdl = m[i].lo; }
        m[i].armed = false; fires++;
        if (g_replaying) c.note("[fire %d cb%d]", i, id);
        if (depth < 1 && budget && c.chance(1, 2)) { depth++; budget--; incb++; for (int n = 1 + c.u(2); n--;) op(true); depth--; }
    }
    void op(bool in) {
        int i = c.u(NT - 1), j = c.u(NT - 1), o = c.u(9);
        static const double D[] = {0, 0.001, 0.0015, 0.003, 0.029, 0.01, 0.1, 1.001, 0.0009, 5};
        double d = D[c.u(9)];
        if (g_replaying || c.notes.size() < 600) c.note("%s%d %d %d %g", in ? "cb:" : "", o, i, j, d);
        switch (o) {
            case 0: case 1: case 2: if (m[i].exists) {
                if (c.chance(1, 20)) { static const double L[] = {4294967.296, 4294967.4, 4294968, 8589934.6, 2147483.648, 2147483.7, 3e9, 86400 * 365.0}; d = L[c.u(7)]; c.label("long delay"); }
                double ms = d * 1000;
                t[i]->add(d); m[i].armed = true; m[i].lo = now() + (uint64_t)floor(ms); m[i].hi = now() + (uint64_t)ceil(ms); m[i].fresh = in; m[i].serial = ++serial;
                break; } // fall through
            case 3: { *t[i] = TimerEvent(ec, mk(nextcb)); m[i] = TM(); m[i].exists = true; m[i].cb = nextcb++; break; }
            case 4: t[i]->del(); m[i].armed = false; break;
            case 5: t[i]->clear(); m[i] = TM(); break;
            case 6: *t[i] = std::move(*t[j]); if (i != j) { m[i] = m[j]; m[j] = TM(); } break;
            case 7: t[i]->swap(*t[j]); std::swap(m[i], m[j]); break;
            case 8: if (m[i].exists) { t[i]->set_callback(mk(nextcb)); m[i].cb = nextcb++; } break;
            case 9: { if (c.coin()) { TimerEvent *n = new TimerEvent(std::move(*t[i])); delete t[i]; t[i] = n; }   // moved to a new place
                      else { delete t[i]; t[i] = new TimerEvent(); m[i] = TM(); } break; }
        }
        PBT_CHECK((bool)*t[i] == m[i].exists && (bool)*t[j] == m[j].exists, "object %d or %d exists/does not exist", i, j);
    }
    void due() { for (int k = 0; k < NT; k++) PBT_CHECK(!(m[k].armed && now() >= m[k].hi + 0), "timer %d has not fired although it was due %llu ms ago", k, (unsigned long long)(now() - m[k].hi)); }
};
static void t_timer(Ctx &c) {
    EventContext ec;
    {
        TimerWorld w(c, ec);
        int n = 3 + c.u(c.chance(1, 4) ? 60 : 20);
        for (int k = 0; k < n; k++) {
            if (c.chance(1, 3)) {
                static const unsigned A[] = {0, 1, 2, 5, 28, 30, 100, 1000, 6000};
                unsigned adv = A[c.u(8)];
                if (g_replaying) c.note("advance %u", adv);
                w.budget = 4; w.lastdl = 0;
                for (auto &x: w.m) x.fresh = false;
                if (c.chance(1, 4)) { // run the loop the way applications do, until a stop
                    TimerEvent st(ec, [&](TimerEvent &) { ec.stop(); });
                    st.add(adv / 1000.0);
                    uint64_t t0 = w.now();
                    ec.dispatch();
                    PBT_CHECK(w.now() >= t0 + adv, "dispatch returned after %llu ms instead of %u", (unsigned long long)(w.now() - t0), adv);
                    st.clear();
                    c.label("dispatch");
                } else g_ns += (uint64_t)adv * 1000000;
                for (int r = 0; r < 10; r++) { unsigned f = w.fires; uv_run(ec.get(), UV_RUN_NOWAIT); if (f == w.fires) break; }
                w.budget = 0;
                for (int r = 0; r < 3; r++) uv_run(ec.get(), UV_RUN_NOWAIT);
                w.due();
            } else w.op(false);
        }
        g_ns += 100000ULL * 1000000; w.lastdl = 0;
        for (auto &x: w.m) x.fresh = false;
        for (int r = 0; r < 4; r++) uv_run(ec.get(), UV_RUN_NOWAIT);
        w.due();
        if (w.fires >= 2) c.nontrivial();
        if (w.incb) c.label("ops-in-callback");
    }
    uv_run(ec.get(), UV_RUN_NOWAIT);
}

// ---- descriptor events, plain or timed
static const int NF = 4;
struct FM { bool exists = false; int fd = -1; int cb = -1; int mask = 0; bool timed = false; uint64_t lo = 0, hi = 0, span_lo = 0, span_hi = 0; bool tarmed = false; };
template<typename E, bool TIMED> struct FdWorld {
    Ctx &c; EventContext &ec; E *e[NF]; FM m[NF]; int sv[NF][2]; unsigned pending[NF]; bool eof[NF]; bool full[NF]; bool used[NF]; int nextcb = 0; unsigned fires = 0, timeouts = 0, depth = 0, budget = 0, incb = 0; int calls[NF]; int was[NF];
    bool touched[NF];
    FdWorld(Ctx &c, EventContext &ec): c(c), ec(ec) {
        for (int k = 0; k < NF; k++) { e[k] = new E(); if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv[k])) abort(); int b = 4096; setsockopt(sv[k][0], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); pending[k] = 0; was[k] = 3; eof[k] = full[k] = used[k] = touched[k] = false; }
    }
    ~FdWorld() { for (auto x: e) delete x; uv_run(ec.get(), UV_RUN_NOWAIT); for (auto &p: sv) { close(p[0]); close(p[1]); } }
    uint64_t now() { return uv_now(ec.get()); }
    FdEvent::callback_t mk(int id) { return [this, id](int fd, int ev) { auto self = this; int my = id; self->fired(my, fd, ev); }; }
    int ready(int f) { return (pending[f] || eof[f] ? FdEvent::READ : 0) | (full[f] ? 0 : FdEvent::WRITE); }
    int idx(int fd) { for (int k = 0; k < NF; k++) if (sv[k][0] == fd) return k; return -1; }
    void fired(int id, int fd, int ev) {
        int i = -1;
        for (int k = 0; k < NF; k++) if (m[k].exists && m[k].cb == id) i = k;
        if (i < 0) fail("a callback that was replaced, cleared or destroyed (%d) is called", id);
        PBT_CHECK(fd == m[i].fd, "callback of object %d runs with descriptor %d instead of %d", i, fd, m[i].fd);
        PBT_CHECK(m[i].mask, "object %d reports events %x although it is not armed", i, ev);
        int f = idx(fd);
        if (TIMED && ev == (1 << 29)) {
            timeouts++;
            PBT_CHECK(m[i].tarmed, "a timeout is reported twice or after disarming");
            PBT_CHECK(now() >= m[i].lo, "timeout reported %llu ms early", (unsigned long long)(m[i].lo - now()));
            m[i].tarmed = false; m[i].mask = 0;    // a timeout disarms the descriptor
        } else {
            PBT_CHECK(!(ev & ~(FdEvent::READ | FdEvent::WRITE)), "unexpected event bits %x", ev);
            PBT_CHECK(ev && !(ev & ~m[i].mask), "events %x reported while armed for %x", ev, m[i].mask);
            // readiness seen by the poll of this iteration may be gone when the callback of another object consumed it
            PBT_CHECK(!(ev & ~(ready(f) | was[f])), "events %x reported while only %x is ready", ev, ready(f));
            if (TIMED) { m[i].lo = now() + m[i].span_lo; m[i].hi = now() + m[i].span_hi; m[i].tarmed = true; }
            fires++; calls[i] |= ev;
            if (c.chance(1, 2) && (ev & FdEvent::READ)) { char b[4096]; while (read(fd, b, sizeof b) > 0) {} pending[f] = 0; }
        }
        if (g_replaying) c.note("[fire %d cb%d ev%x]", i, id, ev);
        if (depth < 1 && budget && c.chance(1, 2)) { depth++; budget--; incb++; for (int n = 1 + c.u(2); n--;) op(true); depth--; }
    }
    void arm(E &x, int mask, double d, FdEvent *) { x.add(mask); }
    void arm(E &x, int mask, double d, TimedFdEvent *) { x.add(mask, d); }
    void op(bool in) {
        int i = c.u(NF - 1), j = c.u(NF - 1), o = c.u(11), mask = 1 + c.u(2); mask = (mask & 1 ? FdEvent::READ : 0) | (mask & 2 ? FdEvent::WRITE : 0);
        static const double D[] = {0.001, 0.005, 0.029, 0.1, 1, 3};
        double d = D[c.u(5)];
        touched[i] = touched[j] = true;
        if (g_replaying || c.notes.size() < 600) c.note("%s%d %d %d m%x %g", in ? "cb:" : "", o, i, j, mask, d);
        switch (o) {
            case 0: case 1: case 2: if (m[i].exists) {
                arm(*e[i], mask, d, (E *)nullptr);
                m[i].mask = mask; m[i].span_lo = (uint64_t)floor(d * 1000); m[i].span_hi = (uint64_t)ceil(d * 1000); m[i].lo = now() + m[i].span_lo; m[i].hi = now() + m[i].span_hi; m[i].tarmed = TIMED;
                break; } // fall through
            case 3: {
                int f = -1; for (int k = 0; k < NF; k++) if (!used[k]) f = k;
                if (m[i].exists) { used[idx(m[i].fd)] = false; f = idx(m[i].fd); e[i]->clear(); m[i] = FM(); }
                if (f < 0) break;
                *e[i] = E(ec, sv[f][0], mk(nextcb)); m[i] = FM(); m[i].exists = true; m[i].fd = sv[f][0]; m[i].cb = nextcb++; used[f] = true;
                break; }
            case 4: e[i]->del(); m[i].mask = 0; m[i].tarmed = false; break;
            case 5: if (m[i].exists) used[idx(m[i].fd)] = false; e[i]->clear(); m[i] = FM(); break;
            case 6: if (i != j && m[i].exists) used[idx(m[i].fd)] = false; *e[i] = std::move(*e[j]); if (i != j) { m[i] = m[j]; m[j] = FM(); } break;
            case 7: e[i]->swap(*e[j]); std::swap(m[i], m[j]); break;
            case 8: if (m[i].exists) { e[i]->set_callback(mk(nextcb)); m[i].cb = nextcb++; } break;
            case 9: if (c.coin()) { E *n = new E(std::move(*e[i])); delete e[i]; e[i] = n; } else { if (m[i].exists) used[idx(m[i].fd)] = false; delete e[i]; e[i] = new E(); m[i] = FM(); } break;
            case 10: { int f = j; if (!eof[f]) { char ch = 'x'; if (write(sv[f][1], &ch, 1) == 1) pending[f]++; } touched[f] = true; for (int k = 0; k < NF; k++) if (m[k].exists && idx(m[k].fd) == f) touched[k] = true; break; }
            case 11: { int f = j; char b[4096]; memset(b, 0, sizeof b); for (int k = 0; k < NF; k++) if (m[k].exists && idx(m[k].fd) == f) touched[k] = true;
                if (c.coin()) { while (write(sv[f][0], b, sizeof b) > 0) {} while (write(sv[f][0], b, 1) > 0) {} full[f] = true; } else { while (read(sv[f][1], b, sizeof b) > 0) {} full[f] = false; } break; }
        }
        PBT_CHECK((bool)*e[i] == m[i].exists && (bool)*e[j] == m[j].exists, "object %d or %d exists/does not exist", i, j);
    }
    void round() {
        for (int &x: calls) x = 0;
        for (bool &x: touched) x = false;
        for (int k = 0; k < NF; k++) was[k] = ready(k);
        int exp[NF]; for (int k = 0; k < NF; k++) exp[k] = m[k].exists ? m[k].mask & ready(idx(m[k].fd)) : 0;
        uv_run(ec.get(), UV_RUN_NOWAIT);
        for (int k = 0; k < NF; k++) if (!touched[k]) PBT_CHECK(calls[k] == exp[k], "object %d: events %x reported where %x was ready and armed", k, calls[k], exp[k]);
    }
};
template<typename E, bool TIMED> static void fdtest(Ctx &c) {
    EventContext ec;
    {
        FdWorld<E, TIMED> w(c, ec);
        int n = 4 + c.u(c.chance(1, 4) ? 60 : 24);
        for (int k = 0; k < n; k++) {
            if (c.chance(1, 3)) {
                static const unsigned A[] = {0, 0, 1, 5, 28, 29, 30, 100, 1000, 4000};
                unsigned adv = A[c.u(9)];
                if (g_replaying) c.note("advance %u", adv);
                // poll for readiness first at the old time, as a loop that is not late would
                w.budget = 3; w.round();
                g_ns += (uint64_t)adv * 1000000;
                w.budget = 3;
                for (int r = 1 + c.u(2); r--;) w.round();
                w.budget = 0; w.round();
                if (TIMED) for (int q = 0; q < NF; q++) PBT_CHECK(!(w.m[q].tarmed && w.now() >= w.m[q].hi + 1), "object %d: no timeout although it was due %llu ms ago", q, (unsigned long long)(w.now() - w.m[q].hi));
            } else w.op(false);
        }
        if (w.fires >= 1 && (!TIMED || w.timeouts)) c.nontrivial();
        if (w.incb) c.label("ops-in-callback"); if (w.timeouts) c.label("timeouts");
    }
}
static void t_fd(Ctx &c) { fdtest<FdEvent, false>(c); }
static void t_timedfd(Ctx &c) { fdtest<TimedFdEvent, true>(c); }

// ---- signal and check events
static void t_sig(Ctx &c) {
    EventContext ec;
    static const int NS = 3; static const int SG[] = {SIGUSR1, SIGUSR2, SIGWINCH};
    struct M { bool exists = false; int cb = -1; int sig = 0; bool once = false; } m[NS];
    std::vector<std::pair<int, int>> got; int nextcb = 0; unsigned raised = 0;
    {
        SigEvent *e[NS]; for (auto &x: e) x = new SigEvent();
        auto mk = [&](int id) { return [&got, id](int s) { got.push_back({id, s}); }; };
        for (int n = 4 + c.u(25); n--;) {
            int i = c.u(NS - 1), j = c.u(NS - 1), o = c.u(9), s = SG[c.u(2)];
            c.note("%d %d %d %d", o, i, j, s);
            switch (o) {
                case 0: case 1: if (m[i].exists) { bool o1 = o || m[i].once; /* libuv 1.48 keeps a handle one-shot for ever once it was: not salticidae's behaviour, so not generated */ if (m[i].sig) e[i]->del(); if (o1) e[i]->add_once(s); else e[i]->add(s); m[i].sig = s; m[i].once = o1; break; } // fall through
                case 2: *e[i] = SigEvent(ec, mk(nextcb)); m[i] = M(); m[i].exists = true; m[i].cb = nextcb++; break;
                case 3: e[i]->del(); m[i].sig = 0; break;
                case 4: e[i]->clear(); m[i] = M(); break;
                case 5: *e[i] = std::move(*e[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break;
                case 6: e[i]->swap(*e[j]); std::swap(m[i], m[j]); break;
                case 7: if (m[i].exists) { e[i]->set_callback(mk(nextcb)); m[i].cb = nextcb++; } break;
                case 8: { SigEvent *x = new SigEvent(std::move(*e[i])); delete e[i]; e[i] = x; break; }
                default: {
                    bool any = false; for (auto &x: m) any |= x.exists && x.sig == s;
                    if (!any) break;
                    raised++; got.clear();
                    kill(getpid(), s);
                    for (int r = 0; r < 3; r++) uv_run(ec.get(), UV_RUN_NOWAIT);
                    std::vector<std::pair<int, int>> exp;
                    for (auto &x: m) if (x.exists && x.sig == s) { exp.push_back({x.cb, s}); if (x.once) x.sig = 0; }
                    std::sort(exp.begin(), exp.end()); std::sort(got.begin(), got.end());
                    PBT_CHECK(got == exp, "signal %d: %zu callbacks instead of %zu (or wrong ones)", s, got.size(), exp.size());
                }
            }
            got.clear();
            if (c.chance(1, 4)) { uv_run(ec.get(), UV_RUN_NOWAIT); PBT_CHECK(got.empty(), "a signal callback without a signal"); }
        }
        for (auto x: e) delete x;
        if (raised) c.nontrivial();
    }
}
static void t_check(Ctx &c) {
    EventContext ec;
    static const int N = 3; struct M { bool exists = false; int cb = -1; bool on = false; } m[N];
    std::vector<int> got; int nextcb = 0; unsigned tot = 0;
    CheckEvent *e[N]; for (auto &x: e) x = new CheckEvent();
    auto mk = [&](int id) { return [&got, id]() { got.push_back(id); }; };
    for (int n = 4 + c.u(25); n--;) {
        int i = c.u(N - 1), j = c.u(N - 1), o = c.u(9);
        c.note("%d %d %d", o, i, j);
        switch (o) {
            case 0: case 1: if (m[i].exists) { e[i]->add(); m[i].on = true; break; } // fall through
            case 2: *e[i] = CheckEvent(ec, mk(nextcb)); m[i] = M(); m[i].exists = true; m[i].cb = nextcb++; break;
            case 3: e[i]->del(); m[i].on = false; break;
            case 4: e[i]->clear(); m[i] = M(); break;
            case 5: *e[i] = std::move(*e[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break;
            case 6: e[i]->swap(*e[j]); std::swap(m[i], m[j]); break;
            case 7: if (m[i].exists) { e[i]->set_callback(mk(nextcb)); m[i].cb = nextcb++; } break;
            case 8: { CheckEvent *x = new CheckEvent(std::move(*e[i])); delete e[i]; e[i] = x; break; }
            default: {
                got.clear(); uv_run(ec.get(), UV_RUN_NOWAIT);
                std::vector<int> exp; for (auto &x: m) if (x.exists && x.on) exp.push_back(x.cb);
                std::sort(exp.begin(), exp.end()); std::sort(got.begin(), got.end());
                tot += exp.size();
                PBT_CHECK(got == exp, "one loop iteration: %zu check callbacks instead of %zu (or wrong ones)", got.size(), exp.size());
            }
        }
    }
    for (auto x: e) delete x;
    if (tot > 1) c.nontrivial();
}
int main(int argc, char **argv) { return main_(argc, argv, {{"timer", t_timer, 5}, {"fd", t_fd, 4}, {"timedfd", t_timedfd, 5}, {"signal", t_sig, 1}, {"check", t_check, 1}}, Opts()); }
