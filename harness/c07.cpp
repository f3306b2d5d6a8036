// C07 / C08: the lock-free queues under generated schedules.
// Built with -DWHICH=1 (MPSC, C07) or -DWHICH=2 (MPMC, C08).
#include "salticidae/queue.h"
#include "vsched_impl.h"
using namespace salticidae;
using namespace pbt;

// an element whose copies are not atomic: a reader that is let in too early sees a torn value
struct Elem {
    uint32_t a, b;
    Elem(): a(0), b(0) {}
    Elem(uint32_t p, uint32_t s): a(p << 20 | s), b(~a) {}
    Elem(const Elem &o) { sched::point(); a = o.a; sched::point(); b = o.b; }
    Elem(Elem &&o) { sched::point(); a = o.a; sched::point(); b = o.b; }
    Elem &operator=(const Elem &o) { sched::point(); a = o.a; sched::point(); b = o.b; return *this; }
    Elem &operator=(Elem &&o) { sched::point(); a = o.a; sched::point(); b = o.b; return *this; }
    bool ok() const { return a == ~b; }
    uint32_t p() const { return a >> 20; }
    uint32_t s() const { return a & 0xfffff; }
};

#if WHICH == 1
typedef MPSCQueue<Elem> Q;
#else
typedef MPMCQueue<Elem> Q;
#endif
static const size_t BS = MPMCQ_SIZE;

// allocation accounting: allocations made from inside queue operations
static size_t g_blocks; static int g_inq[32];
static long g_occ, g_occpeak;      // elements accepted (or being added) and not yet taken
void *operator new(size_t n) { if (g_inq[sched::self() + 1]) g_blocks++; void *p = malloc(n); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
struct In { In() { g_inq[sched::self() + 1]++; } ~In() { g_inq[sched::self() + 1]--; } };

struct Prod { std::vector<uint32_t> accepted, refused; };
static const int MAXP = 5;

static void finish_check(std::vector<uint32_t> *got, Prod *pr, int np) {
    for (int p = 0; p < np; p++) {
#if WHICH == 2
        std::sort(got[p].begin(), got[p].end());
#endif
        size_t i = 0;
        for (; i < got[p].size() && i < pr[p].accepted.size(); i++)
            if (got[p][i] != pr[p].accepted[i]) break;
        if (got[p] == pr[p].accepted) continue;
        for (auto x: pr[p].refused) for (auto g: got[p]) if (x == g) fail("element %d/%u was refused but came out", p, x);
        fail("producer %d: %zu elements accepted, %zu came out; first difference at #%zu (accepted %d, got %d)", p, pr[p].accepted.size(), got[p].size(), i,
             i < pr[p].accepted.size() ? (int)pr[p].accepted[i] : -1, i < got[p].size() ? (int)got[p][i] : -1);
    }
}

static void t_sched(Ctx &c) {
    sched::begin(c);
    int np = 1 + c.u(3);
#if WHICH == 1
    int nc = 1;
#else
    int nc = 1 + c.u(2);
#endif
    size_t cap = c.u(3);                       // capacity in blocks (0: none reserved, head block only plus unbounded growth)
    unsigned mode = c.u(2);                    // 0 unbounded, 1 bounded, 2 mixed
    g_blocks = 0; memset(g_inq, 0, sizeof g_inq); g_occ = g_occpeak = 0;
    Q *q = new Q();
    size_t reserve = 0;
    if (cap || mode) { size_t r = cap * BS + c.u(BS - 1); q->set_capacity(r); reserve = std::max<size_t>(r / BS, 1); }
    size_t base_blocks = g_blocks;
    Prod pr[MAXP]; std::vector<uint32_t> got[MAXP];
    unsigned nops[MAXP];
    size_t total = 0;
    unsigned per = BS > 64 ? 12 : 3 + BS * 3;
    for (int p = 0; p < np; p++) { nops[p] = 1 + c.u(c.chance(1, 4) ? per * 3 : per); total += nops[p]; }
    // move the queue close to a block boundary first
    unsigned pre = BS > 64 ? BS - 1 - c.u(8) : c.u(2 * BS);
    unsigned keep = BS > 64 ? c.u(6) : c.u(BS);
    {
        sched::Quiet qq;
        unsigned put = 0, out = 0; Elem e;
        for (unsigned i = 0; i < pre; i++) {
            if (!q->enqueue(Elem(MAXP, put), mode == 0)) { PBT_CHECK(put - out >= reserve * BS, "sequential enqueue refused with only %u elements in %zu blocks", put - out, 1 + reserve); break; }
            put++; g_occ++;
            while (put - out > keep) { PBT_CHECK(q->try_dequeue(e), "queue with %u elements reports empty", put - out); PBT_CHECK(e.ok() && e.p() == MAXP && e.s() == out, "sequential order"); out++; g_occ--; }
        }
        while (out < put) { PBT_CHECK(q->try_dequeue(e), "queue with %u elements reports empty", put - out); PBT_CHECK(e.ok() && e.p() == MAXP && e.s() == out, "sequential order"); out++; g_occ--; }
        PBT_CHECK(!q->try_dequeue(e), "empty queue returned an element");
        g_occpeak = keep + 1;
    }
    int running = np;
    bool grew = false;
    std::vector<char> bounded[MAXP]; for (int p = 0; p < np; p++) for (unsigned k = 0; k < nops[p]; k++) bounded[p].push_back(mode == 0 ? 0 : mode == 1 ? 1 : c.coin());
    // elements whose enqueue has returned, minus elements whose dequeue has started to be decided
    long acc_ret = 0, deq_ret = 0, deq_fly = 0;
    for (int p = 0; p < np; p++) sched::spawn([&, p]() {
        for (unsigned k = 0; k < nops[p]; k++) {
            bool b = bounded[p][k];
            g_occ++; if (g_occ > g_occpeak) g_occpeak = g_occ;
            bool ok;
            Elem el(p, k);
            { In in; if (b && (k & 1)) ok = q->try_enqueue(el); else ok = q->enqueue(el, !b); }
            if (g_replaying) c.note("P%d enq %u %s", p, k, ok ? "ok" : "refused");
            if (ok) { pr[p].accepted.push_back(k); acc_ret++; }
            else { pr[p].refused.push_back(k); g_occ--; PBT_CHECK(b, "an unbounded enqueue was refused"); sched::yielded(); }
        }
        running--;
    });
    unsigned rew = 0, empties = 0;
    static unsigned want_rewind; want_rewind = c.u(3);
    std::vector<Elem> pushed_back;
    int consumers_left = nc;
    for (int k = 0; k < nc; k++) sched::spawn([&, k]() {
        std::vector<Elem> hist;      // dequeued, not final yet (may be rewound)
        bool last = false;
        for (;;) {
            bool quiet = running == 0;
            Elem e(999, 7);
            long in0 = acc_ret;
            deq_fly++;
            bool okd = q->try_dequeue(e);
            deq_fly--;
            if (g_replaying) c.note("C%d deq %s %u/%u", k, okd ? "ok" : "empty", e.p(), e.s());
            if (!okd) {
                empties++;
                PBT_CHECK(in0 <= deq_ret + deq_fly, "try_dequeue reports empty although %ld elements were completely enqueued before it started and at most %ld were taken", in0, deq_ret + deq_fly);
                if (quiet) break;
                sched::yielded();
                continue;
            }
            PBT_CHECK(e.ok(), "torn element dequeued: %08x/%08x", e.a, e.b);
            PBT_CHECK(e.p() < (uint32_t)np && e.s() < nops[e.p()], "element %u/%u was never enqueued", e.p(), e.s());
            deq_ret++; g_occ--;
#if WHICH == 1
            if (!pushed_back.empty()) {
                PBT_CHECK(pushed_back.back().a == e.a, "after a rewind of %u/%u the next element is %u/%u", pushed_back.back().p(), pushed_back.back().s(), e.p(), e.s());
                pushed_back.pop_back();
            }
            hist.push_back(e);
            if (want_rewind && c.chance(1, 2 + 3 * want_rewind)) {
                unsigned n = 1 + c.u(std::min<size_t>(hist.size(), 2 * std::min<size_t>(BS, 4)) - 1);
                while (n--) { Elem x = hist.back(); hist.pop_back(); deq_ret--; g_occ++; { In in; q->rewind(x); } if (g_replaying) c.note("rewind %u/%u", x.p(), x.s()); pushed_back.push_back(x); rew++; }
                if (pushed_back.size() > 1) {}
            } else if (hist.size() > 40 || !want_rewind) { for (auto &x: hist) got[x.p()].push_back(x.s()); hist.clear(); }
#else
            got[e.p()].push_back(e.s());
#endif
            (void)last;
        }
        for (auto &x: hist) got[x.p()].push_back(x.s());
        if (--consumers_left == 0) {
            Elem e; sched::Quiet qq;
            // everybody is quiet: the queue must be drained by now
#if WHICH == 2
            while (q->try_dequeue(e)) { PBT_CHECK(e.ok(), "torn element"); got[e.p()].push_back(e.s()); }
#else
            PBT_CHECK(!q->try_dequeue(e), "an element appeared after the drain");
#endif
        }
    });
    sched::run(c);
    finish_check(got, pr, np);
    // storage: bounded operation never allocates; unbounded operation reuses blocks
    size_t grown = g_blocks - base_blocks;
    if (mode == 1 && !rew) PBT_CHECK(grown == 0, "bounded operation allocated %zu extra blocks", grown);
    size_t lim = g_occpeak / BS + 4 * (np + nc) + 8 + rew / BS + (rew ? 2 : 0);
    PBT_CHECK(grown <= lim, "%zu blocks allocated for at most %ld elements at a time (%d producers)", grown, g_occpeak, np);
    if (grown) grew = true;
    delete q;
    size_t acc = 0, ref = 0; for (int p = 0; p < np; p++) { acc += pr[p].accepted.size(); ref += pr[p].refused.size(); }
    if (ref) c.label("refusal");
    if (grew) c.label("new_block");
    if (rew) c.label("rewind");
    if (empties > 1) c.label("empty_seen");
    if (np > 1) c.label("producers>1");
    if (nc > 1) c.label("consumers>1");
    c.label(sched::strat == 2 ? "pct" : "random_walk");
    if (sched::preempt >= 2 && acc + pre > BS) c.nontrivial();
    c.note("block=%zu producers=%d consumers=%d accepted=%zu refused=%zu rewinds=%u capacity=%zu steps=%lu preemptions=%lu strategy=%u", BS, np, nc, acc, ref, rew, reserve, sched::steps, sched::preempt, sched::strat);
}

#if WHICH == 1
static void t_seq(Ctx &c) {
    // one thread: exact FIFO with put-back and exact capacity
    sched::begin(c);
    size_t cap = c.u(4), r = cap * BS + c.u(BS - 1), reserve = std::max<size_t>(r / BS, 1);
    bool bounded = c.coin(), rewinds = c.coin();
    if (BS > 64 && c.chance(3, 4)) { c.discard(); return; }
    Q q; q.set_capacity(r);
    std::deque<uint32_t> m; uint32_t seq = 0; std::vector<uint32_t> taken;
    size_t n = BS > 64 ? 1 + c.u(8) : 1 + c.size(300); unsigned ref = 0, rw = 0;
    for (size_t k = 0; k < n; k++) {
        unsigned op = c.u(9);
        unsigned rep = BS > 64 ? 1 + c.u(6000) : 1 + c.u(3);
        while (rep--) {
            if (op < 5) {
                uint32_t s = seq++ & 0xfffff;
                bool ok = q.enqueue(Elem(1, s), !bounded);
                if (ok) { m.push_back(s); if (bounded && !rewinds) PBT_CHECK(m.size() <= (reserve + 1) * BS, "bounded queue of %zu blocks holds %zu elements", reserve + 1, m.size()); }
                else { ref++; PBT_CHECK(bounded, "unbounded enqueue refused"); PBT_CHECK(m.size() >= reserve * BS, "enqueue refused with %zu elements although %zu blocks of %zu exist", m.size(), reserve + 1, BS); }
            } else if (op < 9) {
                Elem e(5, 5); bool ok = q.try_dequeue(e);
                PBT_CHECK(ok == !m.empty(), "dequeue %s with %zu elements", ok ? "succeeded" : "failed", m.size());
                if (ok) { PBT_CHECK(e.ok() && e.p() == 1 && e.s() == m.front(), "dequeued %u, expected %u", e.s(), m.front()); taken.push_back(e.s()); m.pop_front(); }
            } else if (rewinds && !taken.empty()) {
                uint32_t s = taken.back(); taken.pop_back(); q.rewind(Elem(1, s)); m.push_front(s); rw++;
            }
        }
        if (k < 12) c.note("op%u", op);
    }
    while (!m.empty()) { Elem e; PBT_CHECK(q.try_dequeue(e), "drain"); PBT_CHECK(e.ok() && e.s() == m.front(), "drain order"); m.pop_front(); }
    Elem e; PBT_CHECK(!q.try_dequeue(e), "drained queue not empty");
    if (seq > BS && (rw || ref)) c.nontrivial();
    if (ref) c.label("seq_refusal"); if (rw) c.label("seq_rewind");
}
#endif
int main(int argc, char **argv) {
    Opts o; o.batch = 50;
#if WHICH == 1
    return main_(argc, argv, {{"schedule", t_sched, 6}, {"sequential", t_seq, 1}}, o);
#else
    return main_(argc, argv, {{"schedule", t_sched, 1}}, o);
#endif
}
