// C03: 256-bit values and bit sets against big-number / boolean-array models.
#include "salticidae/stream.h"
#include "common.h"
#include <map>
#include <set>
#include <unordered_map>
using namespace salticidae;
using namespace pbt;

static V ser(const uint256_t &h) { DataStream s; s << h; return (bytearray_t)(const DataStream &)s; }
static bool num_less(const V &a, const V &b) { for (int i = 31; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i]; return false; }
static V near(Ctx &c, const V &a) {
    V b(a);
    switch (c.u(3)) {
        case 0: b[c.u(31)] ^= 1 << c.u(7); break;
        case 1: { size_t i = c.u(31); b[i]++; break; }
        case 2: { size_t w = c.u(3); for (size_t i = 0; i < 8; i++) b[w * 8 + i] = c.u(255); break; }   // one word differs
        case 3: { size_t w = c.u(2), x = w + 1 + c.u(2 - w); std::swap_ranges(b.begin() + w * 8, b.begin() + w * 8 + 8, b.begin() + x * 8); break; }
    }
    return b;
}
static uint256_t build(Ctx &c, const V &v) {
    switch (c.u(8)) {
        case 0: return uint256_t(v);
        case 1: return uint256_t(v.data());
        case 2: { uint256_t h; h.load(v.data()); return h; }
        case 3: { uint256_t h; DataStream s(v); s >> h; PBT_CHECK(s.size() == 0, "256-bit read left %zu bytes", s.size()); return h; }
        case 4: { uint256_t h; h.from_bytes(v); return h; }
        case 5: { uint256_t h; h.from_hex(hexs(v, 999)); return h; }
        case 6: { uint256_t g(v), h; h = g; return h; }
        case 7: { uint256_t *p = uint256_new_from_bytes(v.data()); uint256_t h(*p); uint256_free(p); return h; }
        default: { uint256_t h(near(c, v)); h.load(v.data()); uint256_t g(std::move(h)); return g; }
    }
}
static void t_blob(Ctx &c) {
    size_t n = 2 + c.size(12);
    std::vector<V> vs; std::vector<uint256_t> hs;
    unsigned close = 0;
    for (size_t i = 0; i < n; i++) {
        V v = (i && c.chance(2, 3)) ? (close++, near(c, vs[c.u(i - 1)])) : c.bytes(32);
        if (i && c.chance(1, 5)) v = vs[c.u(i - 1)];
        vs.push_back(v); hs.push_back(build(c, v));
        PBT_CHECK(ser(hs[i]) == v, "serialises to %s, built from %s", hexs(ser(hs[i])).c_str(), hexs(v).c_str());
        PBT_CHECK((bytearray_t)hs[i] == v && hs[i].to_bytes() == v, "to bytes differs");
        PBT_CHECK(hs[i].to_hex() == hexs(v, 999), "hex differs");
        PBT_CHECK(!hs[i].is_null() && !uint256_is_null(&hs[i]), "a built value is null");
        Blob<256, uint32_t> w32(v); DataStream s; s << w32; PBT_CHECK((bytearray_t)(const DataStream &)s == v, "32-bit word value differs");
        Blob<256, uint16_t> w16; DataStream s2(v); s2 >> w16; PBT_CHECK((bytearray_t)w16 == v, "16-bit word value differs");
    }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        bool eq = vs[i] == vs[j];
        PBT_CHECK((hs[i] == hs[j]) == eq, "== is %d for %s and %s", !eq, hexs(vs[i]).c_str(), hexs(vs[j]).c_str());
        PBT_CHECK((hs[i] != hs[j]) == !eq, "!= disagrees");
        PBT_CHECK(uint256_is_eq(&hs[i], &hs[j]) == eq, "C equality disagrees");
        PBT_CHECK((hs[i] < hs[j]) == num_less(vs[i], vs[j]), "< is %d for %s and %s", hs[i] < hs[j], hexs(vs[i]).c_str(), hexs(vs[j]).c_str());
        if (eq) PBT_CHECK(std::hash<uint256_t>()(hs[i]) == std::hash<uint256_t>()(hs[j]) && hs[i].cheap_hash() == hs[j].cheap_hash(), "equal values with different hashes");
    }
    std::set<V> mv(vs.begin(), vs.end());
    std::set<uint256_t> st(hs.begin(), hs.end());
    std::unordered_map<uint256_t, int> um; for (auto &h: hs) um[h]++;
    PBT_CHECK(st.size() == mv.size() && um.size() == mv.size(), "containers disagree on the number of distinct values");
    const uint256_t *prev = nullptr;
    for (auto &h: st) { if (prev) PBT_CHECK(num_less(ser(*prev), ser(h)), "set is not in numeric order"); prev = &h; }
    uint256_t z; PBT_CHECK(z.is_null() && ser(z) == V(32), "the null value");
    PBT_CHECK(uint256_is_null(&z), "C null");
    if (close) c.nontrivial();
    c.note("%zu values, %u near-equal, first %s", n, close, hexs(vs[0]).c_str());
}

template<typename T> struct BitsTest {
    typedef _Bits<T> B;
    static void agree(const B &b, const std::vector<bool> &m, const char *when) {
        PBT_CHECK(b.size() == m.size(), "%s: size() is %u, expected %zu", when, b.size(), m.size());
        for (uint32_t i = 0; i < m.size(); i++) PBT_CHECK(b.get(i) == (uint8_t)m[i] && b[i] == (uint8_t)m[i], "%s: bit %u of %zu reads %u, expected %d", when, i, m.size(), b.get(i), (int)m[i]);
    }
    static void run(Ctx &c) {
        std::vector<bool> m;
        B b;
        unsigned kind = c.u(3);
        if (kind == 0) { uint32_t n = c.coin() ? c.u(5) * sizeof(T) * 8 + c.u(2) : c.size(400); b.~B(); new (&b) B(n); b.clear(); m.assign(n, false); }
        else {
            V v = c.bytes(c.size(80));
            v.shrink_to_fit();
            if (kind == 1) { b.~B(); new (&b) B(v); } else if (kind == 2) { b.~B(); new (&b) B(v.data(), v.size()); } else b.load(v.data(), v.size());
            m.resize(v.size() * 8); for (size_t i = 0; i < m.size(); i++) m[i] = (v[i / 8] >> (i % 8)) & 1;
        }
        agree(b, m, "built");
        size_t nops = c.size(150);
        unsigned hi = 0;
        for (size_t k = 0; k < nops && m.size(); k++) {
            uint32_t i = c.coin() ? c.u(m.size() - 1) : (uint32_t)m.size() - 1 - c.u(std::min<size_t>(m.size() - 1, 3));
            if (i % (sizeof(T) * 8) >= sizeof(T) * 4) hi++;
            unsigned op = c.u(11);
            if (op <= 3) { b.set(i); m[i] = true; }
            else if (op <= 6) { b.unset(i); m[i] = false; }
            else if (op <= 9) { b.flip(i); m[i] = !m[i]; }
            else if (op == 10) { if (c.chance(1, 6)) { b.clear(); m.assign(m.size(), false); } }
            else { B d(b); agree(d, m, "copy"); d.flip(i); agree(b, m, "original after changing a copy"); }
            if (k < 8) c.note("op%u@%u", op, i);
            agree(b, m, "after an operation");
        }
        // round trip
        DataStream s; V pre = c.bytes(c.size(5)), post = c.bytes(c.size(9));
        s << pre << b << post;
        s.get_data_inplace(pre.size());
        B d; s >> d;
        agree(d, m, "after a round trip");
        PBT_CHECK((bytearray_t)(const DataStream &)s == post, "bytes after the bit set changed");
        DataStream s2; s2 << d; DataStream s3; s3 << b;
        PBT_CHECK((bytearray_t)(const DataStream &)s2 == (bytearray_t)(const DataStream &)s3, "re-serialisation differs");
        // reuse of an object that already holds bits
        B e((uint32_t)c.u(130)); e.clear(); s3 >> e; agree(e, m, "unserialised over another value");
        c.label(kind == 0 ? "sized" : "loaded");
        if (m.size() % (sizeof(T) * 8)) c.label("partial_word");
        if (m.empty()) c.label("empty");
        if (hi && m.size() > sizeof(T) * 8) c.nontrivial();
        c.note("width=%zu nbits=%zu", sizeof(T) * 8, m.size());
    }
};
static void t_bits(Ctx &c) {
    switch (c.u(3)) { case 0: case 1: BitsTest<uint64_t>::run(c); break; case 2: BitsTest<uint32_t>::run(c); break; default: BitsTest<uint16_t>::run(c); }
}
static void t_null(Ctx &c) {
    // a default bit set is the empty one
    memset(alloca(4096), (int)c.u(255), 4096);
    void *mem = operator new(sizeof(Bits)); memset(mem, (int)c.u(255), sizeof(Bits));
    Bits *b = new (mem) Bits();
    PBT_CHECK(b->is_null(), "default bit set is not null");
    PBT_CHECK(b->size() == 0, "default bit set reports %u bits", b->size());
    DataStream s; s << *b; Bits d; s >> d;
    PBT_CHECK(d.size() == 0 && s.size() == 0, "empty bit set does not round-trip");
    Bits e(*b); PBT_CHECK(e.size() == 0, "copy of an empty bit set");
    b->~Bits(); operator delete(mem);
    if (c.chance(1, 400)) {     // as many bits as the length can say
        uint32_t n = UINT32_MAX - c.u(80), i = n - 1 - c.u(200), j = c.u(200), k = c.u(n - 1);
        Bits h(n); PBT_CHECK(h.size() == n, "a set of %u bits has %u", n, h.size());
        for (uint32_t x: {i, j, k}) { h.set(x); PBT_CHECK(h.get(x) == 1, "bit %u of %u is not set", x, n); h.flip(x); PBT_CHECK(h.get(x) == 0, "bit %u of %u is not flipped", x, n); }
        c.label("huge");
    }
    c.nontrivial();
}
int main(int argc, char **argv) {
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"blob", t_blob, 4}, {"bits", t_bits, 4}, {"null", t_null, 1}}, o);
}
