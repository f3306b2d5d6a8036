// C11: owning and reference-counted pointers: sequential model and scheduled interleavings.
#include "salticidae/ref.h"
#include "vsched_impl.h"
using namespace salticidae;
using namespace pbt;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static bool g_count = false; static long g_out = 0;
static bool counting() { return g_count || (sched::active() && sched::self() >= 0); }
static void mh(const volatile void *, size_t) { if (counting()) g_out++; }
static void fh(const volatile void *p) { if (p && counting()) g_out--; }
struct Count { bool o; Count(): o(g_count) { g_count = true; } ~Count() { g_count = o; } };

static const int MAXO = 64;
static int g_alive[MAXO], g_dead[MAXO];
static std::function<void(int)> *g_on_destroy = nullptr;
template<typename R> struct Derived;
template<typename R> struct Base {
    uint32_t magic = 0xfeedbeef; int id;
    WeakObjBase<Base, R> self;
    RcObjBase<Base, R> next;
    Base(int id): id(id) { g_alive[id]++; }
    virtual bool derived() const { return false; }
    virtual ~Base() {
        if (magic != 0xfeedbeef || !g_alive[id]) fail("object %d destroyed twice", id);
        magic = 0; g_alive[id]--; g_dead[id]++;
        if (g_on_destroy) (*g_on_destroy)(id);
    }
};
template<typename R> struct Mixin { long pad[3] = {1, 2, 3}; virtual ~Mixin() {} };
template<typename R> struct Derived: public Mixin<R>, public Base<R> {   // the base is not at offset 0
    Derived(int id): Base<R>(id) {}
    bool derived() const override { return true; }
};

template<typename R> static void seq(Ctx &c) {
    typedef Base<R> B; typedef Derived<R> D;
    typedef RcObjBase<B, R> SB; typedef RcObjBase<D, R> SD; typedef WeakObjBase<B, R> WB;
    static const int NS = 4, ND = 2, NW = 3, NB = 2;
    memset(g_alive, 0, sizeof g_alive); memset(g_dead, 0, sizeof g_dead);
    g_out = 0;
    int nops = 3 + c.u(c.chance(1, 3) ? 60 : 15), nextid = 0, ncell = 0;
    struct Cell { int obj; };
    static Cell cell[4096]; static B *ptr[MAXO]; static bool isd[MAXO]; static int cellof[MAXO], link_[MAXO], selfw[MAXO]; static bool alive[MAXO];
    int mS[NS], mD[ND], mW[NW], mB[NB], mBD[NB];   // cells; for boxes: object ids
    for (int &x: mS) x = -1; for (int &x: mD) x = -1; for (int &x: mW) x = -1; for (int &x: mB) x = -1; for (int &x: mBD) x = -1;
    unsigned kinds = 0, moves = 0, upgrades = 0;
    {
        SB s[NS]; SD d[ND]; WB w[NW]; BoxObj<B> b[NB]; BoxObj<D> bd[NB];
        auto strong = [&](int ce) { size_t n = 0; for (int x: mS) n += x == ce; for (int x: mD) n += x == ce; for (int o = 0; o < nextid; o++) n += alive[o] && link_[o] == ce; return n; };
        auto newcell = [&](int obj) { cell[ncell].obj = obj; if (obj >= 0) cellof[obj] = ncell; return ncell++; };
        auto mk = [&](bool der) -> int { int id = nextid++; isd[id] = der; alive[id] = true; cellof[id] = -1; link_[id] = -1; selfw[id] = 0; return id; };
        auto settle = [&]() {
            bool ch = true;
            while (ch) {
                ch = false;
                for (int o = 0; o < nextid; o++) {
                    if (!alive[o]) continue;
                    bool own = false;
                    for (int x: mB) own |= x == o; for (int x: mBD) own |= x == o;
                    if (cellof[o] >= 0 && strong(cellof[o])) own = true;
                    if (!own) { alive[o] = false; link_[o] = -1; ch = true; }
                }
            }
        };
        auto check = [&]() {
            settle();
            for (int o = 0; o < nextid; o++) {
                PBT_CHECK(g_alive[o] == (int)alive[o], alive[o] ? "object %d destroyed although it has an owner" : "object %d still alive although its last owner is gone", o);
                PBT_CHECK(g_alive[o] + g_dead[o] == 1, "object %d destroyed %d times", o, g_dead[o]);
            }
            auto ck = [&](const char *n, int i, int ce, B *got, bool bb, size_t cnt, bool isnull) {
                B *exp = ce < 0 || cell[ce].obj < 0 ? nullptr : ptr[cell[ce].obj];
                PBT_CHECK(got == exp, "%s[%d] points to %p instead of %p", n, i, (void *)got, (void *)exp);
                PBT_CHECK(bb == (exp != nullptr) && isnull == (exp == nullptr), "%s[%d] is%s reported null", n, i, exp ? "" : " not");
                size_t e = ce < 0 ? 0 : strong(ce);
                PBT_CHECK(cnt == e, "%s[%d] reports %zu owners instead of %zu", n, i, cnt, e);
                if (exp) PBT_CHECK(got->magic == 0xfeedbeef && got->derived() == isd[cell[ce].obj], "%s[%d]: wrong object content", n, i);
            };
            for (int i = 0; i < NS; i++) ck("strong", i, mS[i], s[i].get(), (bool)s[i], s[i].get_cnt(), s[i] == nullptr);
            for (int i = 0; i < ND; i++) ck("derived", i, mD[i], d[i].get(), (bool)d[i], d[i].get_cnt(), d[i] == nullptr);
            for (int i = 0; i < NB; i++) {
                PBT_CHECK(b[i].get() == (mB[i] < 0 ? nullptr : ptr[mB[i]]) && (bool)b[i] == (mB[i] >= 0), "box %d points to the wrong object", i);
                PBT_CHECK((B *)bd[i].get() == (mBD[i] < 0 ? nullptr : ptr[mBD[i]]) && (bool)bd[i] == (mBD[i] >= 0), "derived box %d points to the wrong object", i);
            }
            PBT_CHECK((s[0] == s[1]) == (s[0].get() == s[1].get()) && (s[0] != s[1]) != (s[0] == s[1]), "comparison");
            if (s[0] == s[1]) PBT_CHECK(std::hash<SB>()(s[0]) == std::hash<SB>()(s[1]), "equal pointers hash differently");
        };
        static const char *ON[] = {"new", "newD", "newBox", "copy", "move", "upcopy", "upmove", "downcopy", "downmove", "swap", "frombox", "frombox0", "weak", "wcopy", "wmove", "wswap", "upgrade", "reset", "null", "boxmove", "boxup", "boxcast", "unwrap", "self", "link", "wreset", "ctorcopy", "boxswap", "upcopyctor", "advance", "advmove", "weakself"};
        for (int k = 0; k < nops; k++) {
            int op = c.u(31), i = c.u(NS - 1), j = c.u(NS - 1), di = i % ND, dj = j % ND, wi = i % NW, wj = j % NW, bi = i % NB, bj = j % NB;
            bool f = c.coin();
            if (nextid >= MAXO - 2 && op <= 2) op = 17;
            if (g_replaying || k < 12) c.note("%s %d %d %d", ON[op], i, j, f);
            kinds |= 1u << op;
            {
            Count cn;
            switch (op) {
                case 0: { int o = mk(f); B *p = f ? (B *)new D(o) : new B(o); ptr[o] = p; s[i] = SB(p); mS[i] = newcell(o); break; }
                case 1: { int o = mk(true); D *p = new D(o); ptr[o] = p; d[di] = p; mD[di] = newcell(o); break; }
                case 2: { int o = mk(f); if (f) { D *p = new D(o); ptr[o] = p; bd[bi] = BoxObj<D>(p); mBD[bi] = o; } else { B *p = new B(o); ptr[o] = p; b[bi] = p; mB[bi] = o; } break; }
                case 3: s[i] = s[j]; mS[i] = mS[j]; break;
                case 4: s[i] = std::move(s[j]); if (i != j) { mS[i] = mS[j]; mS[j] = -1; moves++; } break;
                case 5: s[i] = d[dj]; mS[i] = mD[dj]; break;
                case 6: s[i] = std::move(d[dj]); mS[i] = mD[dj]; mD[dj] = -1; moves++; break;
                case 7: if (mS[j] < 0 || cell[mS[j]].obj < 0 || isd[cell[mS[j]].obj]) { d[di] = static_pointer_cast<D>((const SB &)s[j]); mD[di] = mS[j]; } break;
                case 8: if (mS[j] < 0 || cell[mS[j]].obj < 0 || isd[cell[mS[j]].obj]) { d[di] = static_pointer_cast<D>(std::move(s[j])); mD[di] = mS[j]; mS[j] = -1; moves++; } break;
                case 9: s[i].swap(s[j]); std::swap(mS[i], mS[j]); break;
                case 10: { int o = mB[bj]; s[i] = SB(std::move(b[bj])); mB[bj] = -1; mS[i] = newcell(o); break; }
                case 11: { int o = mBD[bj]; d[di] = SD(std::move(bd[bj])); mBD[bj] = -1; mD[di] = newcell(o); break; }
                case 12: w[wi] = s[j]; mW[wi] = mS[j]; break;
                case 13: w[wi] = w[wj]; mW[wi] = mW[wj]; break;
                case 14: w[wi] = std::move(w[wj]); if (wi != wj) { mW[wi] = mW[wj]; mW[wj] = -1; } break;
                case 15: w[wi].swap(w[wj]); std::swap(mW[wi], mW[wj]); break;
                case 16: {
                    s[i] = SB(w[wj]);
                    // the old target of s[i] is released after the upgrade
                    int ce = mW[wj];
                    mS[i] = ce >= 0 && strong(ce) ? ce : -1;
                    upgrades++;
                    break; }
                case 17: s[i] = SB(); mS[i] = -1; break;
                case 18: s[i] = nullptr; mS[i] = newcell(-1); break;
                case 19: if (f) { b[bi] = std::move(b[bj]); if (bi != bj) { mB[bi] = mB[bj]; mB[bj] = -1; } } else { BoxObj<B> t(std::move(b[bj])); b[bi] = std::move(t); if (bi != bj) { mB[bi] = mB[bj]; mB[bj] = -1; } } break;
                case 20: b[bi] = std::move(bd[bj]); mB[bi] = mBD[bj]; mBD[bj] = -1; break;
                case 21: if (mB[bj] < 0 || isd[mB[bj]]) { bd[bi] = static_pointer_cast<D>(std::move(b[bj])); mBD[bi] = mB[bj]; mB[bj] = -1; } break;
                case 22: { int o = mB[bj]; B *p = b[bj].unwrap(); PBT_CHECK(p == (o < 0 ? nullptr : ptr[o]), "unwrap gives the wrong object"); mB[bj] = -1; if (f && p) { b[bi] = BoxObj<B>(p); mB[bi] = o; } else delete p; break; }
                case 23: if (s[i]) { s[i]->self = s[i]; selfw[cell[mS[i]].obj] = 1; } break;
                case 24: if (s[i] && s[j] && cell[mS[j]].obj < cell[mS[i]].obj) { s[i]->next = s[j]; link_[cell[mS[i]].obj] = mS[j]; } break;
                case 25: w[wi] = WB(); mW[wi] = -1; break;
                case 26: { SB t(s[j]); if (f) { s[i] = t; mS[i] = mS[j]; } else { SB u(std::move(t)); s[i] = u; mS[i] = mS[j]; } break; }
                case 27: b[bi].swap(b[bj]); std::swap(mB[bi], mB[bj]); break;
                // the assigned pointer lives inside the object that the assignment releases
                case 29: if (s[i]) { int l = link_[cell[mS[i]].obj]; const SB &nx = s[i]->next; s[i] = nx; mS[i] = l; } break;
                case 30: if (s[i]) { int o = cell[mS[i]].obj, l = link_[o]; link_[o] = -1; if (f) s[i] = std::move(s[i]->next); else { SB &nx = s[i]->next; s[i].swap(nx); SB t(std::move(nx)); } mS[i] = l; } break;
                case 31: if (s[j]) { int o = cell[mS[j]].obj, t = selfw[o] ? cellof[o] : -1; w[wi] = s[j]->self; mW[wi] = t; if (f) { const WB &ws = s[j]->self; SB u(ws); s[j] = u; mS[j] = t; } } break;
                case 28: { SB t(d[dj]); SB u(std::move(t)); s[i].swap(u); mS[i] = mD[dj]; break; }
            }
            }
            check();
        }
        {   // release everything in a generated order
            Count cn;
            if (c.coin()) for (int i = 0; i < NW; i++) { w[i] = WB(); mW[i] = -1; }
            for (int i = 0; i < NS; i++) { s[i] = SB(); mS[i] = -1; }
            for (int i = 0; i < ND; i++) { d[i] = SD(); mD[i] = -1; }
            for (int i = 0; i < NB; i++) { b[i] = BoxObj<B>(); bd[i] = BoxObj<D>(); mB[i] = mBD[i] = -1; }
        }
        check();
        { Count cn; for (int i = 0; i < NW; i++) { SB t(w[i]); PBT_CHECK(!t && !t.get_cnt(), "a weak reference upgraded after the last owner was gone"); w[i] = WB(); } }
    }
    for (int o = 0; o < nextid; o++) PBT_CHECK(!g_alive[o] && g_dead[o] == 1, "object %d: %d destructions", o, g_dead[o]);
    PBT_CHECK(g_out == 0, "%ld allocations not balanced after everything was released (bookkeeping leaked or freed twice)", g_out);
    if (__builtin_popcount(kinds) >= 5 && nextid >= 2) c.nontrivial();
    if (moves) c.label("moves"); if (upgrades) c.label("upgrades");
}
static void t_rc(Ctx &c) { seq<_RCCtl>(c); }
static void t_arc_seq(Ctx &c) { seq<_ARCCtl>(c); }

// arrays and custom deleters
struct Cell2 { static int n; int v; Cell2(): v(7) { n++; } ~Cell2() { n--; } };
int Cell2::n = 0;
struct Del { static int n; void operator()(Cell2 *p) const { n++; delete p; } };
int Del::n = 0;
static void t_arrays(Ctx &c) {
    Cell2::n = 0; Del::n = 0; g_out = 0;
    int dels = 0;
    {
        Count cn;
        BoxObj<Cell2[]> a(new Cell2[1 + c.u(5)]), b; RcObj<Cell2[]> r(new Cell2[1 + c.u(5)]), q; ArcObj<Cell2, Del> x(new Cell2), y; BoxObj<Cell2, Del> z(new Cell2);
        dels = 2;
        for (int k = c.u(12); k--;) switch (c.u(7)) {
            case 0: b = std::move(a); break;
            case 1: a.swap(b); break;
            case 2: q = r; break;
            case 3: r.swap(q); break;
            case 4: q = std::move(r); break;
            case 5: y = x; break;
            case 6: x = std::move(y); break;
            case 7: { BoxObj<Cell2, Del> t(std::move(z)); z = std::move(t); break; }
        }
        {   // a list that consumes itself from the front
            static int nodes; nodes = 0; struct Node { int v; BoxObj<Node> n; Node(int v): v(v) { nodes++; } ~Node() { nodes--; } };
            BoxObj<Node> h; int len = c.u(6); for (int k = 0; k < len; k++) { BoxObj<Node> x(new Node(k)); x->n = std::move(h); h = std::move(x); }
            for (int k = len; k--;) { PBT_CHECK(h && h->v == k && nodes == k + 1, "%d list nodes instead of %d", nodes, k + 1); if (c.coin()) h = std::move(h->n); else { BoxObj<Node> x(std::move(h->n)); h.swap(x); } }
            PBT_CHECK(!h && !nodes, "%d list nodes left", nodes);
        }
        if (a) PBT_CHECK(a[0].v == 7, "array content");
        PBT_CHECK(!(a && b), "two owners of one array");
        PBT_CHECK((q ? q.get_cnt() : r.get_cnt()) == size_t(bool(q)) + bool(r), "array owner count");
        PBT_CHECK((x ? x.get_cnt() : y.get_cnt()) == size_t(bool(x)) + bool(y), "owner count with a deleter");
        c.nontrivial();
    }
    PBT_CHECK(Cell2::n == 0, "%d array elements alive after their owner is gone", Cell2::n);
    PBT_CHECK(Del::n == dels, "custom deleter ran %d times instead of %d", Del::n, dels);
    PBT_CHECK(g_out == 0, "%ld allocations left", g_out);
}

// several threads, each with its own pointers to shared objects
static void t_threads(Ctx &c) {
    typedef Base<_ARCCtl> B; typedef ArcObj<B> SB; typedef AweakObj<B> WB;
    static const int MT = 4, N = 2;
    sched::begin(c);
    memset(g_alive, 0, sizeof g_alive); memset(g_dead, 0, sizeof g_dead); g_out = 0;
    int nt = 2 + c.u(2), nobj = 1 + c.chance(1, 4);
    static int mS[MT][N], mW[MT][N]; static unsigned long since[MT][N]; static unsigned long clk; clk = 1;
    for (auto &r: mS) for (int &x: r) x = -1; for (auto &r: mW) for (int &x: r) x = -1;
    SB *s[MT]; WB *w[MT];
    static SB sp[MT][N]; static WB wp[MT][N];
    struct Op { int op, i, j; };
    Op plan[MT][8]; int np[MT];
    for (int t = 0; t < MT; t++) { s[t] = sp[t]; w[t] = wp[t]; }
    for (int t = 0; t < nt; t++) { np[t] = c.u(6); for (int k = 0; k < np[t]; k++) { plan[t][k].op = c.u(8); plan[t][k].i = c.u(N - 1); plan[t][k].j = c.u(N - 1); } }
    {
        Count cn;
        for (int o = 0; o < nobj; o++) {
            SB a(new B(o));
            if (c.chance(1, 4)) a->self = a;
            bool any = false;
            for (int t = 0; t < nt; t++) {
                int m = c.u(3);
                if (m & 1) { s[t][o] = a; mS[t][o] = o; since[t][o] = clk; any = true; }
                if (m & 2) { w[t][o] = a; mW[t][o] = o; }
            }
            if (!any) { s[0][o] = a; mS[0][o] = o; since[0][o] = clk; }
        }
    }
    unsigned up_ok = 0, up_null = 0;
    std::function<void(int)> od = [&](int o) {
        for (int t = 0; t < nt; t++) for (int i = 0; i < N; i++) PBT_CHECK(mS[t][i] != o, "object %d destroyed while thread %d owns it", o, t);
    };
    g_on_destroy = &od;
    for (int t = 0; t < nt; t++) sched::spawn([&, t]() {
        auto got = [&](int i, int o) {
            clk++;
            B *p = s[t][i].get();
            if (o < 0) { PBT_CHECK(!p, "thread %d got a pointer out of nothing", t); mS[t][i] = -1; return; }
            PBT_CHECK(p, "thread %d lost its pointer", t);
            PBT_CHECK(g_alive[o], "thread %d owns object %d which has been destroyed", t, o);
            PBT_CHECK(p->magic == 0xfeedbeef && p->id == o, "thread %d: wrong object", t);
            PBT_CHECK(s[t][i].get_cnt() >= 1, "owner count is zero while owned");
            mS[t][i] = o; since[t][i] = clk;
        };
        for (int k = 0; k < np[t]; k++) {
            int i = plan[t][k].i, j = plan[t][k].j;
            if (g_replaying) c.note("t%d op%d %d %d", t, plan[t][k].op, i, j);
            switch (plan[t][k].op) {
                case 0: mS[t][i] = -1; s[t][i] = SB(); break;
                case 1: if (i != j) { int o = mS[t][j]; mS[t][i] = -1; s[t][i] = s[t][j]; got(i, o); } break;
                case 2: if (i != j) { int o = mS[t][j]; mS[t][i] = mS[t][j] = -1; s[t][i] = std::move(s[t][j]); got(i, o); } break;
                case 3: { int o = mS[t][j]; w[t][i] = s[t][j]; mW[t][i] = o; break; }
                case 4: w[t][i] = WB(); mW[t][i] = -1; break;
                case 5: if (i != j) { w[t][i] = w[t][j]; mW[t][i] = mW[t][j]; } break;
                case 6: case 7: case 8: {
                    int o = mW[t][j]; unsigned long st = ++clk;
                    SB n(w[t][j]);
                    if (!n) {
                        up_null++;
                        if (o >= 0) for (int x = 0; x < nt; x++) for (int y = 0; y < N; y++)
                            PBT_CHECK(!(mS[x][y] == o && since[x][y] <= st), "upgrade of a weak reference to object %d fails although thread %d owned it all along", o, x);
                        o = -1;
                    } else { up_ok++; PBT_CHECK(o >= 0, "upgrade of an empty weak reference succeeded"); PBT_CHECK(g_alive[o], "upgrade yields object %d after its destruction", o); }
                    mS[t][i] = -1; s[t][i] = std::move(n); got(i, o);
                    break; }
            }
        }
        for (int i = 0; i < N; i++) {
            if (plan[t][0].i & 1) { w[t][i] = WB(); mW[t][i] = -1; }
            mS[t][i] = -1; s[t][i] = SB();
            w[t][i] = WB(); mW[t][i] = -1;
        }
    });
    sched::run(c);
    g_on_destroy = nullptr;
    for (int o = 0; o < nobj; o++) PBT_CHECK(!g_alive[o] && g_dead[o] == 1, "object %d: alive %d, destroyed %d times after the last owner left", o, g_alive[o], g_dead[o]);
    PBT_CHECK(g_out == 0, "%ld bookkeeping blocks leaked after the last reference went", g_out);
    if (!g_replaying) c.note("%d threads, %lu steps, %lu preemptions, upgrades ok/null %u/%u", nt, sched::steps, sched::preempt, up_ok, up_null);
    if (sched::preempt >= 1 && nt >= 2) c.nontrivial();
    if (up_null) c.label("upgrade-null"); if (up_ok) c.label("upgrade-ok");
}
int main(int argc, char **argv) {
    __sanitizer_install_malloc_and_free_hooks(mh, fh);
    return main_(argc, argv, {{"rc", t_rc, 3}, {"arc_seq", t_arc_seq, 2}, {"arrays", t_arrays, 1}, {"threads", t_threads, 6}}, Opts());
}
