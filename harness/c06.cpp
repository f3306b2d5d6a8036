// C06: SegBuffer against a list-of-segments model.
#include "salticidae/event.h"
#include "salticidae/buffer.h"
#include "pbt.h"
#include <deque>
using namespace salticidae;
using namespace pbt;
typedef std::vector<uint8_t> V;
struct Model {
    std::deque<V> segs; size_t empties = 0;
    size_t size() const { size_t n = 0; for (auto &s: segs) n += s.size(); return n; }
    void norm() { for (auto it = segs.begin(); it != segs.end();) if (it->empty()) it = segs.erase(it); else ++it; }
    V take(size_t n) { V r; while (n && !segs.empty()) { auto &f = segs.front(); size_t k = std::min(n, f.size()); r.insert(r.end(), f.begin(), f.begin() + k); f.erase(f.begin(), f.begin() + k); n -= k; if (f.empty()) segs.pop_front(); } return r; }
};
static uint8_t ctr;
static V seg(Ctx &c) {
    size_t n = c.chance(1, 8) ? 0 : c.size(300);
    V v(n); for (auto &b: v) b = ctr++;    // consecutive bytes: any loss or reorder is visible
    if (c.chance(1, 6)) v = c.bytes(n);
    return v;
}
static void t_history(Ctx &c) {
    ctr = 0;
    const size_t N = 2;
    SegBuffer b[N]; Model m[N];
    size_t nops = 1 + c.size(120);
    unsigned cross = 0, rew = 0, mp = 0;
    for (size_t k = 0; k < nops; k++) {
        size_t i = c.u(N - 1);
        SegBuffer &x = b[i]; Model &y = m[i];
        unsigned op = c.u(11);
        switch (op) {
            case 0: case 1: case 2: { V v = seg(c); if (v.empty()) y.empties++; else y.segs.push_back(v); x.push(std::move(v)); break; }
            case 3: case 4: { V v = seg(c); if (v.empty()) y.empties++; else y.segs.push_front(v); x.rewind(std::move(v)); rew++; break; }
            case 5: case 6: case 7: {
                size_t n = c.chance(1, 6) ? y.size() + c.u(5) : c.u(y.size());
                if (c.chance(1, 4) && !y.segs.empty()) n = y.segs.front().size();   // exactly to a boundary
                size_t front = y.segs.empty() ? 0 : y.segs.front().size();
                if (n > front) cross++;
                V got = x.pop(n), exp = y.take(n);
                PBT_CHECK(got == exp, "pop(%zu) returned %s, expected %s", n, hexs(got).c_str(), hexs(exp).c_str());
                break; }
            case 8: if (!x.empty()) {
                V got = x.move_pop(); mp++;
                if (got.empty()) { PBT_CHECK(y.empties > 0, "move_pop returned nothing although no empty segment was ever stored"); y.empties--; }
                else { PBT_CHECK(!y.segs.empty(), "move_pop invented %zu bytes", got.size());
                    V exp = y.segs.front(); y.segs.pop_front();
                    PBT_CHECK(got == exp, "move_pop returned %s, the unread part of the front segment is %s", hexs(got).c_str(), hexs(exp).c_str()); }
                break; } break;
            case 9: { size_t j = c.u(N - 1); b[j] = x; m[j] = Model(y); if (c.coin()) { SegBuffer t(x); V a = SegBuffer(t).pop(y.size()); Model z(y); PBT_CHECK(a == z.take(y.size()), "copy differs"); } break; }
            case 10: { size_t j = 1 - i; if (c.coin()) { b[j] = std::move(x); m[j] = y; x = SegBuffer(); y = Model(); } else { SegBuffer t(std::move(x)); PBT_CHECK(t.size() == y.size(), "moved buffer has size %zu, expected %zu", t.size(), y.size()); PBT_CHECK(x.size() == 0, "moved-from buffer still reports %zu bytes", x.size()); x = std::move(t); } break; }
            case 11: if (c.chance(1, 4)) { x.clear(); y = Model(); } else { x.swap(b[1 - i]); std::swap(y, m[1 - i]); } break;
        }
        if (k < 15) c.note("op%u@%zu", op, i);
        for (size_t j = 0; j < N; j++) {
            PBT_CHECK(b[j].size() == m[j].size(), "size() is %zu but %zu bytes are left", b[j].size(), m[j].size());
            if (b[j].empty()) PBT_CHECK(m[j].size() == 0, "reports empty with %zu bytes left", m[j].size());
            if (m[j].size()) PBT_CHECK(b[j].len() > 0, "no segments but bytes left");
        }
    }
    for (size_t j = 0; j < N; j++) {
        size_t n = m[j].size();
        V got = b[j].pop(n + 10), exp = m[j].take(n);
        PBT_CHECK(got == exp, "final content differs: %s vs %s", hexs(got).c_str(), hexs(exp).c_str());
        PBT_CHECK(b[j].size() == 0, "drained buffer reports %zu", b[j].size());
    }
    if (cross && (rew || mp)) c.nontrivial();
    if (cross) c.label("pop_across_segments");
    if (mp) c.label("move_pop");
    if (rew) c.label("rewind");
}
int main(int argc, char **argv) {
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"history", t_history, 1}}, o);
}
