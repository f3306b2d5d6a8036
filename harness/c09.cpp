// C09: event-driven queues under generated schedules; consumers poll a real libuv loop.
#include "salticidae/event.h"
#include "vsched_impl.h"
using namespace salticidae;
using namespace pbt;
static const size_t BS = MPMCQ_SIZE;
struct Run {
    int np = 0, nc = 0, running = 0, left = 0;
    unsigned long accepted = 0, consumed = 0, calls = 0, idle = 0;
    std::vector<std::vector<int>> got;
};
template<typename Q> static void reg(Q &q, const EventContext &ec, Ctx &c, Run &r, unsigned burst, int who, unsigned *again, bool *inside) {
    q.reg_handler(ec, [&q, &r, burst, who, again, inside](auto &) {
        r.calls++; r.idle = 0; sched::point();
        (void)inside;
        unsigned n = 0; int e;
        while (q.try_dequeue(e)) {
            r.consumed++; r.got[who].push_back(e);
            if (++n == burst) return true;
        }
        if (again && *again) { (*again)--; return true; }
        return false;
    });
}
template<typename Q, bool MULTI> static void go(Ctx &c) {
    sched::begin(c);
    Run r; r.np = 1 + c.u(3); r.nc = MULTI ? 1 + c.u(2) : 1; r.running = r.np; r.left = r.nc;
    r.got.resize(r.nc);
    std::vector<EventContext> ecs(r.nc);
    { std::vector<EventContext> t; for (int i = 0; i < r.nc; i++) t.push_back(EventContext()); ecs.swap(t); }
    Q *q = new Q();
    if (c.coin()) q->set_capacity(c.u(3 * BS));
    unsigned burst[4]; for (auto &b: burst) { static const unsigned B[] = {1, 2, 3, 128}; b = B[c.u(3)]; }
    std::vector<unsigned> nops(r.np); for (auto &n: nops) n = 1 + c.u(c.chance(1, 3) ? 20 : 5);
    bool bounded = c.chance(1, 4);
    unsigned late = c.u(4);      // 0..: registration happens inside the run after that many steps of the consumer
    unsigned prereg = c.u(2);    // elements enqueued before anything is registered
    unsigned rereg = MULTI ? 0 : c.u(2);
    unsigned again = c.chance(1, 3) ? 1 + c.u(4) : 0, want_again = again;
    for (unsigned i = 0; i < prereg; i++) if (q->enqueue((int)(900000 + i), !bounded)) r.accepted++;
    if (MULTI || late == 0) for (int i = 0; i < r.nc; i++) reg(*q, ecs[i], c, r, burst[i], i, &again, nullptr);
    for (int p = 0; p < r.np; p++) sched::spawn([&, p]() {
        for (unsigned k = 0; k < nops[p]; k++)
            if (q->enqueue((int)(p * 1000 + k), !bounded)) r.accepted++; else sched::yielded();
        r.running--;
    });
    for (int i = 0; i < r.nc; i++) sched::spawn([&, i]() {
        if (!MULTI && late) { for (unsigned k = 0; k < late * 3; k++) sched::point(); reg(*q, ecs[0], c, r, burst[0], 0, &again, nullptr); }
        unsigned long polls = 0;
        for (;;) {
            sched::point();
            bool quiet = r.running == 0;
            unsigned long calls0 = r.calls;
            uv_run(ecs[i].get(), UV_RUN_NOWAIT);
            if (++polls % 256 == 0) S->beat++;
            if (!MULTI && rereg && !quiet && c.chance(1, 6)) { rereg--; q->unreg_handler(); for (unsigned k = c.u(6); k--;) sched::yielded(); reg(*q, ecs[0], c, r, burst[0], 0, &again, nullptr); }
            if (quiet && r.calls == calls0) {
                r.idle++;
                if (r.idle > 8u * r.nc) break;
            }
            sched::yielded();
        }
        r.left--;
    });
    sched::run(c);
    PBT_CHECK(r.consumed <= r.accepted, "%lu elements handled, %lu enqueued", r.consumed, r.accepted);
    PBT_CHECK(r.consumed == r.accepted, "lost wake-up: %lu of %lu elements were left behind with every thread idle (%lu handler runs)", r.accepted - r.consumed, r.accepted, r.calls);
    PBT_CHECK(again == 0 || want_again == 0, "the handler asked to be called again %u more times but was not", again);
    std::set<int> seen;
    for (auto &g: r.got) { std::map<int, int> last; for (int e: g) { PBT_CHECK(seen.insert(e).second, "element %d handled twice", e); if (!MULTI) { int p = e / 1000; PBT_CHECK(!last.count(p) || last[p] < e, "element %d after %d", e, last[p]); last[p] = e; } } }
    delete q; ecs.clear();
    c.label(MULTI ? "mpmc" : "mpsc");
    if (late && !MULTI) c.label("late_registration");
    if (r.calls > 2) c.label("several_wakeups");
    if (want_again) c.label("asked_again");
    if (sched::preempt >= 2 && r.calls >= 2) c.nontrivial();
    c.note("producers=%d loops=%d accepted=%lu handler_runs=%lu burst=%u late=%u prereg=%u steps=%lu preemptions=%lu", r.np, r.nc, r.accepted, r.calls, burst[0], late, prereg, sched::steps, sched::preempt);
}
// the two queue types differ in the name of the unregistration call
struct SQ: public MPSCQueueEventDriven<int> {};
struct MQ: public MPMCQueueEventDriven<int> { void unreg_handler() { unreg_handlers(); } };
static void t_mpsc(Ctx &c) { go<SQ, false>(c); }
static void t_mpmc(Ctx &c) { go<MQ, true>(c); }
int main(int argc, char **argv) {
    Opts o; o.batch = 50;
    return main_(argc, argv, {{"mpsc", t_mpsc, 3}, {"mpmc", t_mpmc, 1}}, o);
}
