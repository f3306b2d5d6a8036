// Implementation of sched.h; include in the harness only.
#ifndef VERIF_SCHED_IMPL_H
#define VERIF_SCHED_IMPL_H
#pragma push_macro("atomic")
#pragma push_macro("mutex")
#pragma push_macro("atomic_flag")
#pragma push_macro("read")
#pragma push_macro("write")
#undef atomic
#undef mutex
#undef atomic_flag
#undef read
#undef write
#include "pbt.h"
#pragma pop_macro("write")
#pragma pop_macro("read")
#pragma pop_macro("atomic_flag")
#pragma pop_macro("mutex")
#pragma pop_macro("atomic")
#include <ucontext.h>
extern "C" {
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
}
namespace sched {
static const size_t STK = 256 * 1024;
struct Fiber {
    ucontext_t uc; char *stk = nullptr; void *fake = nullptr;
    std::function<void()> fn; bool done = true; bool blocked = false; bool yielded = false;
    std::function<bool()> ready; unsigned prio = 0; 
};
static const int MAXF = 16;
static Fiber F[MAXF];
static int nf = 0, cur = -1;
static ucontext_t mainuc; static void *mainfake; static const void *mainstk; static size_t mainstksz;
static pbt::Ctx *C = nullptr;
static bool g_on = false, g_quiet = false;
static unsigned long steps, runlen, switches, preempt;
static unsigned strat, denom, spur;
static std::vector<unsigned long> cps;   // PCT change points
static unsigned lowprio;
static unsigned long LIMIT = 60000;
static std::vector<int> trace;

inline bool fair() { return steps > LIMIT; }
bool active() { return g_on; }
int self() { return cur; }
void dead(const char *w) { pbt::fail("a %s is used after its destruction", w); }
static void tramp() {
    __sanitizer_finish_switch_fiber(nullptr, &mainstk, &mainstksz);
    Fiber &f = F[cur];
    f.fn();
    f.done = true;
    __sanitizer_start_switch_fiber(nullptr, mainstk, mainstksz);
    swapcontext(&f.uc, &mainuc);
}
static void to_main() {
    Fiber &f = F[cur];
    __sanitizer_start_switch_fiber(&f.fake, mainstk, mainstksz);
    swapcontext(&f.uc, &mainuc);
    __sanitizer_finish_switch_fiber(f.fake, &mainstk, &mainstksz);
}
void point() {
    if (!g_on || cur < 0 || g_quiet) return;
    steps++; runlen++;
    if ((steps & 4095) == 0) pbt::S->beat++;
    bool sw = false;
    if (fair()) sw = runlen > 40;
    else if (strat == 2) {   // PCT
        if (!cps.empty() && steps >= cps.back()) { cps.pop_back(); F[cur].prio = lowprio--; sw = true; preempt++; }
        else if (runlen > 300) { F[cur].prio = lowprio--; sw = true; }
    } else { sw = C->chance(1, denom) || runlen > 400; if (sw) preempt++; }
    if (sw) to_main();
}
void yielded() {
    if (!g_on || cur < 0) return;
    if (g_quiet) { pbt::fail("the code waits for another thread in a sequential section"); }
    steps++;
    F[cur].yielded = true;
    if (strat == 2 && !fair()) F[cur].prio = lowprio--;
    to_main();
}
bool spurious() {
    if (!g_on || cur < 0 || g_quiet || fair() || !spur) return false;
    return C->chance(1, spur);
}
void block(const std::function<bool()> &r) {
    if (!g_on || cur < 0) pbt::fail("blocking operation outside a scheduled run would never return");
    Fiber &f = F[cur];
    while (!r()) { f.blocked = true; f.ready = r; to_main(); }
    f.blocked = false;
}
// spawn before run()
static void spawn(const std::function<void()> &fn) {
    Fiber &f = F[nf];
    if (!f.stk) f.stk = (char *)mmap(nullptr, STK, 3, 0x22, -1, 0);
    f.fn = fn; f.done = false; f.blocked = false; f.yielded = false; f.fake = nullptr;
    getcontext(&f.uc);
    f.uc.uc_stack.ss_sp = f.stk; f.uc.uc_stack.ss_size = STK; f.uc.uc_link = nullptr;
    makecontext(&f.uc, tramp, 0);
    nf++;
}
struct Quiet { bool o; Quiet(): o(g_quiet) { g_quiet = true; } ~Quiet() { g_quiet = o; } };

static void begin(pbt::Ctx &c) {
    C = &c; nf = 0; cur = -1; steps = runlen = switches = preempt = 0; g_quiet = false;
    lowprio = 1000000; trace.clear();
}
// runs all fibers to completion
static void run(pbt::Ctx &c) {
    strat = c.u(3);       // 0,1,3: random walk with different switch rates; 2: priority based (PCT)
    static const unsigned D[] = {2, 4, 8, 20, 60};
    denom = D[c.u(4)];
    if (strat == 3) denom = 150;
    static const unsigned SP[] = {0, 0, 6, 25};
    spur = SP[c.u(3)];
    cps.clear();
    if (strat == 2) {
        for (int i = 0; i < nf; i++) F[i].prio = 2000000 + c.u(1000) * 16 + i;
        unsigned d = c.u(6), horizon = 1u << (5 + c.u(8));
        for (unsigned i = 0; i < d; i++) cps.push_back(c.u(horizon));
        std::sort(cps.rbegin(), cps.rend());
    }
    g_on = true;
    int last = -1;
    for (;;) {
        int run[MAXF], n = 0; bool live = false;
        for (int i = 0; i < nf; i++) {
            if (F[i].done) continue;
            live = true;
            if (F[i].blocked && !F[i].ready()) continue;
            run[n++] = i;
        }
        if (!live) break;
        if (!n) pbt::fail("deadlock: every remaining thread is blocked");
        if (steps > 2 * LIMIT + 200000) pbt::fail("no progress: %d threads keep running without finishing (livelock or lost wake-up)", n);
        // a fiber that yielded goes last if another one can run
        int cand[MAXF], m = 0;
        for (int i = 0; i < n; i++) if (!F[run[i]].yielded) cand[m++] = run[i];
        if (!m) { for (int i = 0; i < n; i++) { F[run[i]].yielded = false; cand[m++] = run[i]; } }
        int pick;
        if (fair()) { pick = cand[0]; for (int i = 0; i < m; i++) if (cand[i] > last) { pick = cand[i]; break; } }
        else if (strat == 2) { pick = cand[0]; for (int i = 1; i < m; i++) if (F[cand[i]].prio > F[pick].prio) pick = cand[i]; }
        else {
            // prefer a switch away from the last one
            int oth[MAXF], k = 0; for (int i = 0; i < m; i++) if (cand[i] != last) oth[k++] = cand[i];
            pick = k ? oth[k > 1 ? c.u(k - 1) : 0] : cand[0];
        }
        // others may run again after this one has
        for (int i = 0; i < nf; i++) if (i != pick) F[i].yielded = false;
        F[pick].blocked = false; F[pick].yielded = false;
        if (pick != last) switches++;
        last = pick; cur = pick; runlen = 0;
        __sanitizer_start_switch_fiber(&mainfake, F[pick].stk, STK);
        swapcontext(&mainuc, &F[pick].uc);
        __sanitizer_finish_switch_fiber(mainfake, nullptr, nullptr);
        cur = -1;
    }
    g_on = false;
}
}
#endif
