// C10: ThreadCall under generated schedules; the executing side polls a real libuv loop.
#include "salticidae/event.h"
#include "vsched_impl.h"
using namespace salticidae;
using namespace pbt;
struct Probe {   // captured state: counts live instances per call
    static std::vector<int> live; int id; uint32_t magic;
    Probe(int id): id(id), magic(0x600d600d) { live[id]++; }
    Probe(const Probe &o): id(o.id), magic(o.magic) { live[id]++; }
    Probe(Probe &&o): id(o.id), magic(o.magic) { live[id]++; }
    ~Probe() { if (magic != 0x600d600d) fail("captured state of call %d destroyed twice", id); magic = 0; live[id]--; if (live[id] < 0) fail("captured state of call %d destroyed twice", id); }
};
std::vector<int> Probe::live;
struct Big { int id; std::string text; std::vector<int> v; Probe p; };
struct Err: std::runtime_error { int id; Err(int id): std::runtime_error("err"), id(id) {} };
enum Kind { ASYNC, ASYNC_THROW, ASYNC_NESTED, SYNC_INT, SYNC_BIG, SYNC_NONE, SYNC_THROW, SYNC_THROW_INT, STOP };
static void t_calls(Ctx &c) {
    sched::begin(c);
    int ncall = 1 + c.u(3);
    static const size_t B[] = {1, 2, 3, 7, 128};
    size_t burst = B[c.u(4)];
    std::vector<std::vector<int>> plan(ncall);
    int total = 0;
    bool withstop = c.chance(1, 4);
    int stop_at = withstop ? (int)c.u(ncall - 1) : -1;
    for (int t = 0; t < ncall; t++) { int n = 1 + c.u(c.chance(1, 3) ? 12 : 4); for (int k = 0; k < n; k++) plan[t].push_back((int)c.u(SYNC_THROW_INT)); if (t == stop_at) plan[t].insert(plan[t].begin() + c.u(plan[t].size()), STOP); total += plan[t].size(); }
    bool abandon = !withstop && c.chance(1, 8);    // destroy with asynchronous calls pending
    int N = total * 2 + 4;
    Probe::live.assign(N, 0);
    std::vector<int> runs(N, 0), order_t(N, -1); std::vector<std::vector<int>> exec_order(ncall);
    std::vector<char> returned(N, 0), sync(N, 0);
    int next_id = 0, loopfiber = ncall, running = ncall; bool stopped = false; unsigned long idle = 0, execs = 0; unsigned errs = 0;
    std::vector<char> posted_after_stop(N, 0);
    {
    EventContext ec;
    ThreadCall *tc = new ThreadCall(ec, burst);
    auto ran = [&](int id, int t) {
        PBT_CHECK(sched::self() == loopfiber, "call %d ran on thread %d instead of the loop's thread", id, sched::self());
        PBT_CHECK(!returned[id], "call %d ran after its caller had got the result", id);
        PBT_CHECK(++runs[id] == 1, "call %d ran %d times", id, runs[id]);
        PBT_CHECK(Probe::live[id] > 0, "captured state of call %d destroyed before it ran", id);
        PBT_CHECK(!posted_after_stop[id], "call %d posted after the stop was executed", id);
        if (t >= 0) exec_order[t].push_back(id);
        execs++; idle = 0;
    };
    for (int t = 0; t < ncall; t++) sched::spawn([&, t]() {
        for (int kind: plan[t]) {
            int id = next_id++;
            posted_after_stop[id] = stopped;
            order_t[id] = t;
            bool after = stopped;
            Probe pb(id);
            if (kind >= SYNC_INT && abandon) kind = ASYNC;
            if (kind == ASYNC) tc->async_call([&, id, t, pb](ThreadCall::Handle &) { ran(id, t); });
            else if (kind == ASYNC_THROW) tc->async_call([&, id, t, pb](ThreadCall::Handle &) { ran(id, t); throw Err(id); });
            else if (kind == ASYNC_NESTED) tc->async_call([&, id, t, pb](ThreadCall::Handle &) {
                ran(id, t);
                int id2 = next_id++; posted_after_stop[id2] = stopped; Probe pb2(id2);
                tc->async_call([&, id2, pb2](ThreadCall::Handle &h) { ran(id2, -1); h.set_result(Probe(id2)); });
            });
            else {
                sync[id] = 1;
                bool threw = false, notavail = false; int got = -1; Err *pe = nullptr; (void)pe;
                {
                    auto res = tc->call([&, id, t, kind, pb](ThreadCall::Handle &h) {
                        if (kind == STOP) { ran(id, t); tc->stop(); stopped = true; return; }
                        ran(id, t);
                        sched::point();
                        if (kind == SYNC_INT) h.set_result(id * 7 + 1);
                        else if (kind == SYNC_BIG) { if (id & 1) h.set_result(Big{-1, "overwritten", {}, Probe(id)}); h.set_result(Big{id, std::string(100 + id, 'x'), std::vector<int>(id + 1, id), Probe(id)}); }
                        else if (kind == SYNC_THROW) throw Err(id);
                        else if (kind == SYNC_THROW_INT) { h.set_result(5); throw id; }
                        sched::point();
                    });
                    returned[id] = 1;
                    try {
                        void *d = res.get();
                        if (kind == SYNC_INT) { PBT_CHECK(d, "no result"); got = *(int *)d; PBT_CHECK(got == id * 7 + 1, "call %d returned %d", id, got); }
                        else if (kind == SYNC_BIG) { PBT_CHECK(d, "no result"); Big *b = (Big *)d; PBT_CHECK(b->id == id && b->text == std::string(100 + id, 'x') && b->v == std::vector<int>(id + 1, id), "call %d returned another object", id); }
                        else if (kind == SYNC_NONE || kind == STOP) PBT_CHECK(d == nullptr, "call %d without a result returned one", id);
                    } catch (Err &e) { threw = true; PBT_CHECK(e.id == id && kind == SYNC_THROW, "call %d got the exception of %d", id, e.id); }
                    catch (int x) { threw = true; PBT_CHECK(x == id && kind == SYNC_THROW_INT, "call %d got the exception of %d", id, x); }
                    catch (SalticidaeError &e) { threw = true; notavail = true; PBT_CHECK(e.get_code() == SALTI_ERROR_NOT_AVAIL, "call %d failed with error %d", id, e.get_code()); }
                }
                if (notavail) { errs++; PBT_CHECK(runs[id] == 0, "call %d reported unavailable but ran", id); PBT_CHECK(stopped, "call %d refused without a stop", id); }
                else {
                    PBT_CHECK(runs[id] == 1, "synchronous call %d returned before it ran", id);
                    PBT_CHECK(!after, "call %d posted after a stop did not fail", id);
                    PBT_CHECK(threw == (kind == SYNC_THROW || kind == SYNC_THROW_INT), "call %d: exception %s", id, threw ? "invented" : "lost");
                }
            }
        }
        running--;
    });
    unsigned abandon_after = abandon ? c.u(6) : 0;
    sched::spawn([&]() {
        unsigned polls = 0;
        for (;;) {
            sched::point();
            bool quiet = running == 0;
            unsigned long e0 = execs;
            if (abandon && polls >= abandon_after) { if (quiet) break; sched::yielded(); polls++; continue; }
            uv_run(ec.get(), UV_RUN_NOWAIT);
            polls++;
            if (quiet && execs == e0 && ++idle > 8) break;
            sched::yielded();
        }
    });
    sched::run(c);
    if (!abandon && !stopped) for (int id = 0; id < next_id; id++) PBT_CHECK(runs[id] == 1, "call %d ran %d times (lost wake-up or lost call)", id, runs[id]);
    PBT_CHECK(tc->is_stopped() == stopped, "is_stopped");
    delete tc;
    }
    for (int id = 0; id < next_id; id++) PBT_CHECK(Probe::live[id] == 0, "captured state or result of call %d leaked (%d instances)", id, Probe::live[id]);
    for (int t = 0; t < ncall; t++) for (size_t i = 1; i < exec_order[t].size(); i++) PBT_CHECK(exec_order[t][i - 1] < exec_order[t][i], "calls of thread %d ran out of order", t);
    if (withstop) c.label("stop"); if (errs) c.label("refused_after_stop"); if (abandon) c.label("destroyed_with_pending");
    if (sched::preempt >= 2 && execs >= 2) c.nontrivial();
    c.note("callers=%d calls=%d burst=%zu stop=%d abandon=%d execs=%lu steps=%lu preemptions=%lu", ncall, next_id, burst, withstop, abandon, execs, sched::steps, sched::preempt);
}
int main(int argc, char **argv) {
    Opts o; o.batch = 50;
    return main_(argc, argv, {{"calls", t_calls, 1}}, o);
}
