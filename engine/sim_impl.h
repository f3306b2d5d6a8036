// Deterministic simulation of a whole salticidae process: include in the harness only.
//
// Threads are fibers of one OS thread (see shim.h: std::thread, atomics, locks and
// condition variables of the code under test are stand-ins that call sched::point()).
// The clock is virtual, libuv's poll is interposed, and TCP is replaced by a stand-in
// made of in-kernel AF_UNIX pairs (so real epoll works on them) with generated short
// reads and writes, 'would block' results, connect delays, refusals, resets, lost
// suffixes and black holes.  Nothing depends on wall-clock time: "stalled" means that
// no thread can run and no timer is due.
#ifndef VERIF_SIM_IMPL_H
#define VERIF_SIM_IMPL_H
#pragma push_macro("atomic")
#pragma push_macro("mutex")
#pragma push_macro("atomic_flag")
#pragma push_macro("thread")
#undef atomic
#undef mutex
#undef atomic_flag
#undef thread
#include "pbt.h"
#pragma pop_macro("thread")
#pragma pop_macro("atomic_flag")
#pragma pop_macro("mutex")
#pragma pop_macro("atomic")
#include <ucontext.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <openssl/err.h>
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
void *__asan_region_is_poisoned(void *, size_t);
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }
struct sim_eh { void *caught; unsigned int uncaught; };

namespace sim {
static uint64_t g_ns = 1000000000000ULL;
static bool g_tls = false;
}
namespace sched {
static const size_t STK = 1024 * 1024;
struct Fiber {
    ucontext_t uc; char *stk = nullptr; void *fake = nullptr;
    std::function<void()> fn; bool done = true, used = false, blocked = false, yielded = false, idle = false, sigblocked = false, sigpending_ = false;
    std::function<bool()> ready; uint64_t deadline = 0; unsigned prio = 0; int err = 0; sim_eh eh{nullptr, 0};
    std::vector<unsigned long> sslerr; const char *what = "";
};
static const int MAXF = 48;
static Fiber F[MAXF];
static int nf = 0, cur = -1;
static ucontext_t mainuc; static void *mainfake; static const void *mainstk; static size_t mainstksz; static sim_eh maineh;
static pbt::Ctx *C = nullptr;
static bool g_on = false; static int g_quiet = 0;
static unsigned long steps, switches, preempts, gap;
static unsigned strat, gmax;
static unsigned lowprio;
static unsigned long PLIMIT = 6000, SLIMIT = 6000000;
inline bool fair() { return preempts > PLIMIT || steps > SLIMIT / 2; }
bool active() { return g_on; }
int self() { return cur; }
void dead(const char *w) { pbt::fail("a %s is used after its destruction", w); }
static void save_eh(sim_eh &e) { auto g = (sim_eh *)__cxxabiv1::__cxa_get_globals(); e = *g; g->caught = nullptr; g->uncaught = 0; }
static void load_eh(const sim_eh &e) { *(sim_eh *)__cxxabiv1::__cxa_get_globals() = e; }
static void save_ssl(Fiber &f) { if (!sim::g_tls) return; while (ERR_peek_error()) f.sslerr.push_back(ERR_get_error()); }
static void load_ssl(Fiber &f) {
    if (f.sslerr.empty()) return;
    for (auto e: f.sslerr) { ERR_new(); ERR_set_error(ERR_GET_LIB(e), ERR_GET_REASON(e), nullptr); }
    f.sslerr.clear();
}
static void tramp() {
    __sanitizer_finish_switch_fiber(nullptr, &mainstk, &mainstksz);
    Fiber &f = F[cur];
    f.fn();
    f.fn = nullptr; f.done = true;
    __sanitizer_start_switch_fiber(nullptr, mainstk, mainstksz);
    swapcontext(&f.uc, &mainuc);
}
static void to_main() {
    Fiber &f = F[cur];
    f.err = errno; save_eh(f.eh); save_ssl(f);
    __sanitizer_start_switch_fiber(&f.fake, mainstk, mainstksz);
    swapcontext(&f.uc, &mainuc);
    __sanitizer_finish_switch_fiber(f.fake, &mainstk, &mainstksz);
    load_eh(f.eh); load_ssl(f); errno = f.err;
}
static void next_gap() {
    if (fair()) { gap = 500; return; }
    uint64_t v = C->u(gmax);
    gap = v ? v : 4 * gmax + 200;
}
void point() {
    if (!g_on || cur < 0 || g_quiet) return;
    if ((++steps & 16383) == 0) pbt::S->beat++;
    if (--gap) return;
    preempts++;
    next_gap();
    if (strat == 2) F[cur].prio = lowprio--;
    to_main();
}
void yielded() {
    if (!g_on || cur < 0) return;
    if (g_quiet) pbt::fail("the code waits for another thread in a sequential section");
    steps++;
    F[cur].yielded = true;
    if (strat == 2) F[cur].prio = lowprio--;
    to_main();
}
bool spurious() { return false; }
static void block_until(const std::function<bool()> &r, uint64_t deadline, const char *what) {
    if (!g_on || cur < 0) pbt::fail("a blocking operation outside a run would never return");
    Fiber &f = F[cur];
    while (!r() && sim::g_ns < deadline) { f.blocked = true; f.ready = r; f.deadline = deadline; f.what = what; to_main(); }
    f.blocked = false; f.ready = nullptr;
}
void block(const std::function<bool()> &r) { block_until(r, UINT64_MAX, "lock"); }
int spawn(const std::function<void()> &fn) {
    int i = 0;
    while (i < nf && F[i].used) i++;
    if (i == MAXF) pbt::fail("too many threads");
    if (i == nf) nf++;
    Fiber &f = F[i];
    if (!f.stk) f.stk = (char *)mmap(nullptr, STK, 3, 0x22, -1, 0);
    f.fn = fn; f.done = false; f.used = true; f.blocked = f.yielded = f.idle = f.sigblocked = f.sigpending_ = false; f.fake = nullptr; f.err = 0; f.eh = sim_eh{nullptr, 0}; f.sslerr.clear(); f.ready = nullptr;
    f.prio = strat == 2 && C ? 2000000 + C->u(63) * MAXF + i : 0;
    getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = f.stk; f.uc.uc_stack.ss_size = STK; f.uc.uc_link = nullptr;
    makecontext(&f.uc, tramp, 0);
    return i;
}
void join(int i) { block_until([i]() { return F[i].done; }, UINT64_MAX, "join"); F[i].used = false; }
void sigblock(bool b) { if (cur < 0) return; if (!b && F[cur].sigpending_) pbt::fail("sending on a broken connection raises SIGPIPE, delivered as soon as the thread unblocks it: the process dies"); F[cur].sigblocked = b; }
bool sigblocked() { return cur >= 0 && F[cur].sigblocked; }
bool sigpend(bool take) { bool r = cur >= 0 && F[cur].sigpending_; if (r && take) F[cur].sigpending_ = false; return r; }
}
struct Quiet { Quiet() { sched::g_quiet++; } ~Quiet() { sched::g_quiet--; } };

namespace sim {
using pbt::fail;
struct Event { uint64_t t; uint64_t seq; std::function<void()> fn; };
static std::vector<Event> events; static uint64_t evseq;
static void after(double s, std::function<void()> fn) { events.push_back({g_ns + (uint64_t)(s * 1e9), evseq++, std::move(fn)}); }
static double now() { return (g_ns - 1000000000000ULL) * 1e-9; }
static bool run_events() {
    bool any = false;
    for (;;) {
        size_t b = events.size();
        for (size_t i = 0; i < events.size(); i++) if (events[i].t <= g_ns && (b == events.size() || events[i].t < events[b].t || (events[i].t == events[b].t && events[i].seq < events[b].seq))) b = i;
        if (b == events.size()) return any;
        auto fn = std::move(events[b].fn); events.erase(events.begin() + b);
        fn(); any = true;
    }
}
// ---- the controller's waiting operations
static void advance(double s) {     // let everything run, virtual time passes
    auto &f = sched::F[sched::cur];
    bool woken = false; (void)woken;
    f.idle = true; f.deadline = g_ns + (uint64_t)(s * 1e9);
    f.blocked = true;
    sched::to_main();
    f.idle = f.blocked = false;
}
static void settle() { advance(0); }
// wait for a condition at most s virtual seconds; true if it came to hold
static bool await(const std::function<bool()> &cond, double s) {
    uint64_t dl = g_ns + (uint64_t)(s * 1e9);
    sched::block_until(cond, dl, "await");
    return cond();
}
static void yield() { if (sched::cur >= 0) { sched::F[sched::cur].yielded = true; sched::to_main(); } }

static std::string stuck() {
    std::string r;
    for (int i = 0; i < sched::nf; i++) if (sched::F[i].used && !sched::F[i].done) { char b[64]; snprintf(b, sizeof b, "%d:%s ", i, sched::F[i].blocked ? sched::F[i].what : "run"); r += b; }
    return r;
}
static void reset_sockets(); static void bury();
static unsigned nrand;
static uint64_t mix(uint64_t z) { z = (z + 1) * 0x9e3779b97f4a7c15; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9; z = (z ^ (z >> 27)) * 0x94d049bb133111eb; return z ^ (z >> 31); }
static void run(pbt::Ctx &c, const std::function<void()> &controller) {
    using namespace sched;
    C = &c; nf = 0; cur = -1; steps = switches = preempts = 0; g_quiet = 0; lowprio = 1000000;
    for (auto &f: F) f.used = false;
    events.clear(); evseq = 0; reset_sockets();
    g_ns = 1000000000000ULL;
    srand(c.u(1000)); nrand = 0;
    strat = c.u(3);                 // 0, 1: uniform; 2: priorities with demotions; 3: long runs
    static const unsigned G[] = {30, 100, 400, 2000, 10000};
    gmax = G[c.u(4)];
    if (strat == 3) gmax = 50000;
    next_gap();
    spawn(controller);
    g_on = true;
    int last = -1;
    for (;;) {
        if (!events.empty()) run_events();
        int cand[MAXF], m = 0, ycand[MAXF], y = 0; bool live = false; int idle = -1; uint64_t next = UINT64_MAX;
        for (int i = 0; i < nf; i++) {
            if (!F[i].used || F[i].done) continue;
            live = true;
            if (F[i].blocked) {
                if (F[i].idle) { idle = i; continue; }
                if (F[i].deadline > g_ns && !F[i].ready()) { next = std::min(next, F[i].deadline); continue; }
            }
            if (F[i].yielded) ycand[y++] = i; else cand[m++] = i;
        }
        if (!live || (F[0].done && !m && !y)) break;
        if (!m && !y) {
            for (auto &e: events) next = std::min(next, e.t);
            if (idle >= 0 && F[idle].deadline < next) { g_ns = std::max(g_ns, F[idle].deadline); cand[m++] = idle; }
            else if (next == UINT64_MAX) fail("deadlock: every thread waits (%s)", stuck().c_str());
            else { g_ns = std::max(g_ns, next); continue; }
        }
        if (steps > SLIMIT) pbt::fail("no end: the system keeps running without becoming quiet (%s)", stuck().c_str());
        if (!m) { for (int i = 0; i < y; i++) { cand[m++] = ycand[i]; F[ycand[i]].yielded = false; } }
        int pick = cand[0];
        if (fair()) { for (int i = 0; i < m; i++) if (cand[i] > last) { pick = cand[i]; break; } }
        else if (strat == 2) { for (int i = 1; i < m; i++) if (F[cand[i]].prio > F[pick].prio) pick = cand[i]; }
        else if (m > 1) pick = cand[c.u(m - 1)];
        for (int i = 0; i < nf; i++) if (i != pick) F[i].yielded = false;
        F[pick].yielded = false;
        if (pick != last) switches++;
        last = pick; cur = pick;
        save_eh(maineh);
        __sanitizer_start_switch_fiber(&mainfake, F[pick].stk, STK);
        swapcontext(&mainuc, &F[pick].uc);
        __sanitizer_finish_switch_fiber(mainfake, nullptr, nullptr);
        load_eh(maineh);
        cur = -1;
    }
    g_on = false; bury();
    for (int i = 1; i < nf; i++) if (F[i].used && !F[i].done) fail("a thread is left behind at the end (%s)", stuck().c_str());
}

// ---- sockets
enum St { NEW, LISTEN, CONNECTING, REFUSED, CONN };
struct Sock {
    St st = NEW; int other = -1; uint32_t lip = 0, rip = 0; uint16_t lport = 0, rport = 0; bool rst = false, hole = false, faulty = true;
    std::deque<int> backlog; uint64_t id = 0, link = 0; bool raw = false; uint64_t sent = 0, rcvd = 0; bool active = false, accepted = false;
};
static const int MAXFD = 8192;
static Sock *T[MAXFD];
static std::map<uint16_t, int> listeners;      // port (host order) -> fd
static uint16_t eport; static uint64_t sockid, linkid;
static unsigned ncut, naccepted, nclosed_bad;
struct Prof { unsigned send_cap = 0, recv_cap = 0, send_again = 0, recv_again = 0; int sndbuf = 0; double cdelay = 0; bool async = false; uint64_t seed = 0; } prof;
static pbt::Prng frng(0);
static bool rec_wire = false; static std::map<std::pair<uint64_t, bool>, std::vector<uint8_t>> wire;   // (link, from the active side) -> bytes
// decides what a connect() to a port nobody listens on (or the given one) does: 0 refuse, 1 hang
static std::function<int(uint16_t)> on_connect;
static void (*on_attempt)(uint16_t port) = nullptr; static std::map<uint16_t, unsigned> attempts;
static Sock *S_(int fd) { return fd >= 0 && fd < MAXFD ? T[fd] : nullptr; }
static void drop(int fd) { delete T[fd]; T[fd] = nullptr; }
// the other end of a silent link must not notice that this end is closed
static std::vector<int> zombies; static std::set<int> epfds;
static void keep_hole(int fd) { if (S_(fd) && T[fd]->hole) { long z = syscall(SYS_dup, fd); if (z >= 0) zombies.push_back(z); for (int e: epfds) syscall(SYS_epoll_ctl, e, EPOLL_CTL_DEL, fd, nullptr); } }
static void bury() { for (int z: zombies) syscall(SYS_close, z); zombies.clear(); }
// failures of the library's own calls: a number of them, or all until a moment
enum Call { C_SOCKET, C_ACCEPT, C_CONNECT, C_SETSOCKOPT, C_BIND, C_LISTEN, NCALL };
struct Fault { std::deque<int> next; uint64_t until = 0; int err = 0; unsigned hits = 0; };
static Fault faults[NCALL];
static int fault(Call k) { if (!(sched::g_on && sched::cur >= 0)) return 0; auto &f = faults[k]; Quiet q; if (!f.next.empty()) { int e = f.next.front(); f.next.pop_front(); if (e) f.hits++; return e; } if (g_ns < f.until) { f.hits++; return f.err; } return 0; }
static void reset_sockets() {
    for (auto &f: faults) f = Fault();
    bury(); epfds.clear();
    for (int i = 0; i < MAXFD; i++) if (T[i]) { syscall(SYS_close, i); drop(i); }
    listeners.clear(); eport = 40000; sockid = linkid = 0; ncut = naccepted = nclosed_bad = 0; prof = Prof(); rec_wire = false; wire.clear(); on_connect = nullptr; attempts.clear();
}
static void set_prof(const Prof &p) { prof = p; frng = pbt::Prng(p.seed); }
static Prof gen_prof(pbt::Ctx &c) {
    Prof p;
    static const unsigned CAP[] = {0, 0, 1, 2, 7, 100, 1500, 5000};
    static const unsigned AG[] = {0, 0, 2, 3, 10};
    static const int SB[] = {0, 0, 1, 20000, 60000};
    p.send_cap = CAP[c.u(7)]; p.recv_cap = CAP[c.u(7)]; p.send_again = AG[c.u(4)]; p.recv_again = AG[c.u(4)]; p.sndbuf = SB[c.u(4)];
    p.async = c.coin(); p.cdelay = c.chance(1, 3) ? 0.01 * c.u(10) : 0; p.seed = c.u(1000000);
    return p;
}
static int newfd(int fd) { if (fd >= MAXFD) fail("descriptors leak (%d in use)", fd); return fd; }
static uint16_t fresh_port() { for (;;) { if (++eport < 33000) eport = 40000; bool used = listeners.count(eport); for (int i = 0; i < MAXFD && !used; i++) if (T[i] && T[i]->lport == eport) used = true; if (!used) return eport; } }
static bool drain(int fd) { char b[65536]; long n; while ((n = syscall(SYS_recvfrom, fd, b, sizeof b, MSG_DONTWAIT, nullptr, nullptr)) > 0) {} return n == 0; }
static std::vector<uint8_t> take(int fd) { std::vector<uint8_t> r; char b[65536]; long n; while ((n = syscall(SYS_recvfrom, fd, b, sizeof b, MSG_DONTWAIT, nullptr, nullptr)) > 0) r.insert(r.end(), b, b + n); return r; }
static void complete(int fd, uint64_t id) {
    Sock *s = S_(fd);
    if (!s || s->id != id || s->st != CONNECTING) return;      // given up in the meantime
    int o = s->other; Sock *t = S_(o);
    if (!t) return;
    drain(o);
    auto it = listeners.find(s->rport);
    if (it == listeners.end()) { s->st = REFUSED; syscall(SYS_close, o); drop(o); s->other = -1; return; }
    s->st = CONN; t->st = CONN;
    T[it->second]->backlog.push_back(o);
    uint64_t one = 1; syscall(SYS_write, it->second, &one, 8);
}
static int do_connect(int fd, uint16_t port, uint16_t sport, bool raw) {   // ports in host order
    Sock *s = T[fd];
    attempts[port]++;
    if (s->st != NEW) { errno = s->st == CONN ? EISCONN : EALREADY; return -1; }
    int sv[2];
    if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) fail("socketpair: %s", strerror(errno));
    if (prof.sndbuf) for (int k: sv) syscall(SYS_setsockopt, k, SOL_SOCKET, SO_SNDBUF, &prof.sndbuf, sizeof prof.sndbuf);
    syscall(SYS_dup3, sv[0], fd, O_CLOEXEC); syscall(SYS_close, sv[0]);
    int o = newfd(sv[1]);
    if (T[o]) drop(o);
    Sock *t = T[o] = new Sock();
    t->id = ++sockid; t->st = CONNECTING; t->other = fd; s->other = o; s->st = CONNECTING; s->raw = raw; t->faulty = true; s->faulty = !raw; s->active = true;
    s->lip = s->rip = t->lip = t->rip = htonl(INADDR_LOOPBACK);
    s->lport = sport ? sport : fresh_port(); s->rport = port; t->lport = port; t->rport = s->lport;
    s->link = t->link = ++linkid;
    bool known = listeners.count(port);
    int act = known ? 2 : 0;
    if (on_connect) { int a = on_connect(port); if (a == 1) act = 1; else if (a == 0 && !raw) act = 0; }
    if (act == 0 && !prof.async) { s->st = REFUSED; syscall(SYS_close, o); drop(o); s->other = -1; errno = ECONNREFUSED; return -1; }
    if (act == 2 && (!prof.async || raw)) { complete(fd, s->id); return 0; }
    // in progress: not writable until completed
    char b[4096]; memset(b, 0, sizeof b);
    while (syscall(SYS_sendto, fd, b, sizeof b, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0) > 0) {}
    while (syscall(SYS_sendto, fd, b, 1, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0) > 0) {}
    uint64_t id = s->id;
    if (act == 2) after(prof.cdelay, [fd, id]() { complete(fd, id); });
    else if (act == 0) after(prof.cdelay, [fd, id]() {
        Sock *s = S_(fd); if (!s || s->id != id || s->st != CONNECTING) return;
        int o = s->other; s->st = REFUSED; s->other = -1; if (S_(o)) { drain(o); syscall(SYS_close, o); drop(o); } });
    errno = EINPROGRESS; return -1;
}
// ---- raw ends driven by the harness
static int raw_connect(uint16_t port, uint16_t sport = 0) {
    Quiet q;
    int fd = newfd(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0));
    T[fd] = new Sock(); T[fd]->id = ++sockid;
    if (!listeners.count(port)) { syscall(SYS_close, fd); drop(fd); return -1; }
    do_connect(fd, port, sport, true);
    return fd;
}
static size_t raw_send(int fd, const void *p, size_t n) { long r = syscall(SYS_sendto, fd, p, n, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0); return r > 0 ? r : 0; }
static bool raw_send_all(int fd, const std::vector<uint8_t> &d) {    // lets the others run while the pipe is full
    size_t i = 0; unsigned stall = 0;
    while (i < d.size()) { size_t r = raw_send(fd, d.data() + i, d.size() - i); i += r; if (!r) { if (++stall > 2) return false; settle(); } else stall = 0; }
    return true;
}
static std::vector<uint8_t> raw_recv(int fd) { return take(fd); }
static bool raw_eof(int fd) { char b; long r = syscall(SYS_recvfrom, fd, &b, 1, MSG_DONTWAIT | MSG_PEEK, nullptr, nullptr); return r == 0 || (r < 0 && errno != EAGAIN); }
static void raw_close(int fd) { keep_hole(fd); if (S_(fd)) { Sock *s = T[fd]; if (S_(s->other)) T[s->other]->other = -1; drop(fd); } syscall(SYS_close, fd); }
static int raw_listen(uint16_t port) {
    int fd = newfd(syscall(SYS_eventfd2, 0, EFD_NONBLOCK | EFD_SEMAPHORE | EFD_CLOEXEC));
    T[fd] = new Sock(); T[fd]->id = ++sockid; T[fd]->st = LISTEN; T[fd]->lport = port; T[fd]->raw = true; listeners[port] = fd; return fd;
}
static void raw_unlisten(int fd) { listeners.erase(T[fd]->lport); for (int o: T[fd]->backlog) raw_close(o); drop(fd); syscall(SYS_close, fd); }
static int raw_accept(int lfd) {
    Sock *s = T[lfd]; if (s->backlog.empty()) return -1;
    uint64_t v; syscall(SYS_read, lfd, &v, 8);
    int o = s->backlog.front(); s->backlog.pop_front(); T[o]->raw = true; T[o]->faulty = false; return o;
}
// ---- faults on established links; fd is either end
enum Cut { RST, FIN, LOSE, HOLE };
static void cut(int fd, Cut m, size_t keep = 0) {
    Quiet q;
    Sock *s = S_(fd); if (!s || s->st != CONN) return;
    int o = s->other; Sock *t = S_(o);
    ncut++;
    if (m == HOLE) { s->hole = true; drain(fd); if (t) { t->hole = true; drain(o); } return; }
    if (m == RST) { drain(fd); if (t) drain(o); s->rst = true; if (t) t->rst = true; }
    if (m == LOSE && t) for (int k: {fd, o}) {
        auto d = take(k); int w = k == fd ? o : fd;
        if (d.size() > keep) d.resize(keep);
        if (!d.empty()) raw_send(w, d.data(), d.size());
    }
    syscall(SYS_shutdown, fd, SHUT_RDWR);
}
static std::vector<int> established() { std::vector<int> r; for (int i = 0; i < MAXFD; i++) if (T[i] && T[i]->st == CONN && T[i]->active && S_(T[i]->other) && !T[i]->rst && !T[i]->hole) r.push_back(i); return r; }
// the library's own sockets that are connected, or connecting, to a port
static unsigned socks_to(uint16_t port) { unsigned n = 0; for (int i = 0; i < MAXFD; i++) if (T[i] && T[i]->active && !T[i]->raw && T[i]->rport == port && T[i]->st != LISTEN) n++; return n; }
static unsigned open_fds() { unsigned n = 0; for (int i = 0; i < 1024; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static unsigned open_socks() { unsigned n = 0; for (int i = 0; i < MAXFD; i++) if (T[i] && !T[i]->raw && (T[i]->st == LISTEN || T[i]->st == NEW || T[i]->active || T[i]->accepted)) n++; return n; }
static unsigned silent_socks() { unsigned n = 0; for (int i = 0; i < MAXFD; i++) if (T[i] && T[i]->hole) n++; return n; }

static ssize_t s_send(int fd, const void *b, size_t n, int flags) {
    sched::point();
    Sock *s = T[fd];
    if (n && __asan_region_is_poisoned((void *)b, n)) fail("send() is given memory that is not valid");
    switch (s->st) {
        case REFUSED: errno = ECONNREFUSED; return -1;
        case CONNECTING: errno = EAGAIN; return -1;
        case CONN: break;
        default: errno = ENOTCONN; return -1;
    }
    long r;
    if (s->rst) { errno = EPIPE; r = -1; }
    else {
        if (!n) return 0;
        if (s->hole) { if (rec_wire) { auto &w = wire[{s->link, s->active}]; w.insert(w.end(), (const uint8_t *)b, (const uint8_t *)b + n); } return n; }
        if (s->faulty && prof.send_again && frng.below(prof.send_again) == 0) { errno = EAGAIN; return -1; }
        if (s->faulty && prof.send_cap) n = std::min<size_t>(n, 1 + frng.below(prof.send_cap));
        r = syscall(SYS_sendto, fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL, nullptr, 0);
    }
    if (r > 0) { s->sent += r; if (rec_wire) { auto &w = wire[{s->link, s->active}]; w.insert(w.end(), (const uint8_t *)b, (const uint8_t *)b + r); } }
    if (r < 0 && errno == EPIPE && !(flags & MSG_NOSIGNAL) && sched::cur >= 0 && sched::F[sched::cur].sigblocked) sched::F[sched::cur].sigpending_ = true;
    else if (r < 0 && errno == EPIPE && !(flags & MSG_NOSIGNAL) && sched::cur >= 0) fail("sending on a broken connection raises SIGPIPE in a thread that does not block it: the process dies");
    return r;
}
static ssize_t s_recv(int fd, void *b, size_t n, int flags) {
    sched::point();
    Sock *s = T[fd];
    if (n && __asan_region_is_poisoned(b, n)) fail("recv() is given memory that is not valid");
    switch (s->st) {
        case REFUSED: errno = ECONNREFUSED; return -1;
        case CONNECTING: errno = EAGAIN; return -1;
        case CONN: break;
        default: errno = ENOTCONN; return -1;
    }
    if (s->rst) { errno = ECONNRESET; return -1; }
    if (s->hole) { if (drain(fd)) return 0; errno = EAGAIN; return -1; }      // (an end that came before the silence is still seen)
    if (s->faulty && prof.recv_again && frng.below(prof.recv_again) == 0) { errno = EAGAIN; return -1; }
    if (s->faulty && prof.recv_cap && n) n = std::min<size_t>(n, 1 + frng.below(prof.recv_cap));
    long r = syscall(SYS_recvfrom, fd, b, n, flags | MSG_DONTWAIT, nullptr, nullptr);
    if (r > 0) s->rcvd += r;
    return r;
}
}

// ---- interposed system interface
using sim::S_; using sim::T;
#define SIM_ON (sched::g_on && sched::cur >= 0)
extern "C" {
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (sched::g_on && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE)) { ts->tv_sec = sim::g_ns / 1000000000; ts->tv_nsec = sim::g_ns % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, ts);
}
static int sim_fix(struct epoll_event *ev, int r) {
    for (int i = 0; i < r; i++) { auto s = S_(ev[i].data.fd); if (s && (s->rst || s->st == sim::REFUSED)) ev[i].events |= EPOLLERR | EPOLLHUP; }
    return r;
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int to, const sigset_t *) {
    if (!SIM_ON) return syscall(SYS_epoll_pwait, ep, ev, n, 0, nullptr, 8);
    sched::point(); sim::epfds.insert(ep);
    sim::g_ns += 500;
    int r = syscall(SYS_epoll_pwait, ep, ev, n, 0, nullptr, 8);
    if (r) return sim_fix(ev, r);
    if (to == 0) { sched::yielded(); return 0; }
    struct epoll_event tmp[4];
    uint64_t dl = to < 0 ? UINT64_MAX : sim::g_ns + (uint64_t)to * 1000000;
    sched::block_until([&]() { return syscall(SYS_epoll_pwait, ep, tmp, 1, 0, nullptr, 8) > 0; }, dl, "poll");
    r = syscall(SYS_epoll_pwait, ep, ev, n, 0, nullptr, 8);
    return r > 0 ? sim_fix(ev, r) : r;
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int to) { return epoll_pwait(ep, ev, n, to, nullptr); }
int socket(int dom, int type, int proto) noexcept {
    if (!SIM_ON || dom != AF_INET) return syscall(SYS_socket, dom, type, proto);
    if (int e = sim::fault(sim::C_SOCKET)) { errno = e; return -1; }
    int fd = sim::newfd(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0));
    T[fd] = new sim::Sock(); T[fd]->id = ++sim::sockid;
    return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) noexcept {
    auto s = S_(fd); if (!s) return syscall(SYS_bind, fd, a, l);
    auto in = (const struct sockaddr_in *)a;
    if (int e = sim::fault(sim::C_BIND)) { errno = e; return -1; }
    if (sim::listeners.count(ntohs(in->sin_port))) { errno = EADDRINUSE; return -1; }
    s->lport = ntohs(in->sin_port); return 0;
}
int listen(int fd, int b) noexcept {
    auto s = S_(fd); if (!s) return syscall(SYS_listen, fd, b);
    if (int e = sim::fault(sim::C_LISTEN)) { errno = e; return -1; }
    int e = syscall(SYS_eventfd2, 0, EFD_NONBLOCK | EFD_SEMAPHORE | EFD_CLOEXEC);
    syscall(SYS_dup3, e, fd, O_CLOEXEC); syscall(SYS_close, e);
    s->st = sim::LISTEN; sim::listeners[s->lport] = fd; return 0;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    auto s = S_(fd); if (!s) return syscall(SYS_accept, fd, a, l);
    sched::point();
    uint64_t v;
    if (!s->backlog.empty()) if (int e = sim::fault(sim::C_ACCEPT)) {
        if (e == ECONNABORTED || e == EPROTO) { syscall(SYS_read, fd, &v, 8); int o = s->backlog.front(); s->backlog.pop_front(); if (S_(T[o]->other)) T[T[o]->other]->other = -1; sim::drop(o); syscall(SYS_close, o); }
        errno = e; return -1;
    }
    if (s->backlog.empty() || syscall(SYS_read, fd, &v, 8) != 8) { errno = EAGAIN; return -1; }
    int o = s->backlog.front(); s->backlog.pop_front();
    sim::naccepted++; T[o]->accepted = true;
    if (a) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = T[o]->rip; in.sin_port = htons(T[o]->rport); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
    return o;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { return S_(fd) ? accept(fd, a, l) : syscall(SYS_accept4, fd, a, l, f); }
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    auto s = S_(fd); if (!s) return syscall(SYS_connect, fd, a, l);
    sched::point();
    if (int e = sim::fault(sim::C_CONNECT)) { sim::attempts[ntohs(((const struct sockaddr_in *)a)->sin_port)]++; errno = e; return -1; }
    return sim::do_connect(fd, ntohs(((const struct sockaddr_in *)a)->sin_port), 0, false);
}
ssize_t send(int fd, const void *b, size_t n, int f) { return S_(fd) && SIM_ON ? sim::s_send(fd, b, n, f) : syscall(SYS_sendto, fd, b, n, f, nullptr, 0); }
ssize_t recv(int fd, void *b, size_t n, int f) { return S_(fd) && SIM_ON ? sim::s_recv(fd, b, n, f) : syscall(SYS_recvfrom, fd, b, n, f, nullptr, nullptr); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return S_(fd) && SIM_ON ? sim::s_send(fd, b, n, f) : syscall(SYS_sendto, fd, b, n, f, a, l); }
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return S_(fd) && SIM_ON ? sim::s_recv(fd, b, n, f) : syscall(SYS_recvfrom, fd, b, n, f, a, l); }
ssize_t write(int fd, const void *b, size_t n) {
    if (!SIM_ON) return syscall(SYS_write, fd, b, n);
    if (S_(fd) && T[fd]->st != sim::LISTEN) return sim::s_send(fd, b, n, 0);
    sched::point();
    return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!SIM_ON) return syscall(SYS_read, fd, b, n);
    if (S_(fd) && T[fd]->st != sim::LISTEN) return sim::s_recv(fd, b, n, 0);
    sched::point();
    return syscall(SYS_read, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!S_(fd) || !SIM_ON) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim::s_send(fd, v[i].iov_base, v[i].iov_len, 0);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!S_(fd) || !SIM_ON) return syscall(SYS_readv, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return sim::s_recv(fd, v[i].iov_base, v[i].iov_len, 0);
    return 0;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    if (!S_(fd) || !SIM_ON) return syscall(SYS_sendmsg, fd, m, f);
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim::s_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f);
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr *m, int f) {
    if (!S_(fd) || !SIM_ON) return syscall(SYS_recvmsg, fd, m, f);
    for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sim::s_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f);
    return 0;
}
int shutdown(int fd, int how) noexcept {
    auto s = S_(fd); if (s && s->st == sim::LISTEN) { sim::listeners.erase(s->lport); return 0; }
    return syscall(SYS_shutdown, fd, how);
}
int close(int fd) {
    if (!SIM_ON) { if (S_(fd)) { if (T[fd]->st == sim::LISTEN) sim::listeners.erase(T[fd]->lport); sim::drop(fd); } return syscall(SYS_close, fd); }
    sched::point();
    auto s = S_(fd);
    if (s) {
        if (s->st == sim::LISTEN) {
            auto it = sim::listeners.find(s->lport); if (it != sim::listeners.end() && it->second == fd) sim::listeners.erase(it);
            for (int o: s->backlog) { syscall(SYS_close, o); if (S_(T[o]->other)) T[T[o]->other]->other = -1; sim::drop(o); }
        } else {
            int o = s->other; sim::keep_hole(fd);
            if (S_(o)) {
                if (s->st == sim::CONNECTING) { syscall(SYS_close, o); sim::drop(o); }
                else T[o]->other = -1;
            }
            if (s->hole) sim::drain(fd);
        }
        sim::drop(fd);
    }
    int r = syscall(SYS_close, fd);
    if (r < 0 && errno == EBADF) pbt::fail("descriptor %d is closed although it is not open (closed twice)", fd);
    return r;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept { if (S_(fd)) { if (int e = sim::fault(sim::C_SETSOCKOPT)) { errno = e; return -1; } return 0; } return syscall(SYS_setsockopt, fd, l, o, v, n); }
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) noexcept {
    auto s = S_(fd); if (!s) return syscall(SYS_getsockopt, fd, l, o, v, n);
    if (l == SOL_SOCKET && o == SO_TYPE) { *(int *)v = SOCK_STREAM; *n = sizeof(int); return 0; }
    if (v && n && *n >= sizeof(int)) { *(int *)v = l == SOL_SOCKET && o == SO_ERROR ? (s->st == sim::REFUSED ? ECONNREFUSED : s->rst ? ECONNRESET : 0) : 0; *n = sizeof(int); }
    return 0;
}
static int sim_name(uint32_t ip, uint16_t port, struct sockaddr *a, socklen_t *l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = ip; in.sin_port = htons(port); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) noexcept {
    auto s = S_(fd); if (!s) return syscall(SYS_getpeername, fd, a, l);
    if (s->st != sim::CONN) { errno = ENOTCONN; return -1; }
    return sim_name(s->rip, s->rport, a, l);
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) noexcept { auto s = S_(fd); if (!s) return syscall(SYS_getsockname, fd, a, l); return sim_name(s->lip, s->lport, a, l); }
// nonces and other library-level randomness come from the generated case
int RAND_bytes(unsigned char *b, int n) {
    if (!sched::g_on) { syscall(SYS_getrandom, b, n, 0); return 1; }
    // (after a while really random, so that repeated ties end)
    uint64_t v = ++sim::nrand > 12 ? sim::mix(sim::nrand) : sched::C->chance(1, 3) ? sched::C->u(3) : sched::C->u(65535);
    for (int i = 0; i < n; i++) b[i] = (uint8_t)(v >> (8 * (i & 7)));
    return 1;
}
}
#endif
