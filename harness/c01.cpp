// C01: DataStream against a byte-queue model.
#include "salticidae/stream.h"
#include "salticidae/netaddr.h"
#include "pbt.h"
#include <openssl/evp.h>
#include <deque>
using namespace salticidae;
using namespace pbt;
typedef std::vector<uint8_t> V;

static V sha256(const V &v) {
    V r(32); unsigned l;
    EVP_Digest(v.data(), v.size(), r.data(), &l, EVP_sha256(), nullptr);
    return r;
}

struct Rec {   // a user-defined serialisable object
    uint16_t a; uint64_t b; V tail;
    void serialize(DataStream &s) const { s << htole(a) << htole(b) << htole((uint32_t)tail.size()) << tail; }
    void unserialize(DataStream &s) {
        uint32_t n; s >> a >> b >> n; a = letoh(a); b = letoh(b); n = letoh(n);
        auto p = s.get_data_inplace(n); tail = V(p, p + n);
    }
};

struct SRec: public Serializable {
    uint32_t x; V t;
    void serialize(DataStream &s) const override { s << htole(x) << t; }
    void unserialize(DataStream &s) override { s >> x; x = letoh(x); size_t n = s.size(); auto p = s.get_data_inplace(n); t = V(p, p + n); }
};

struct M { DataStream s; V m; };   // m: the unread bytes

template<typename T> static void put_int(Ctx &c, M &x) {
    T v = (T)c.edge64();
    x.s << v;
    uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof v);
    x.m.insert(x.m.end(), b, b + sizeof v);
}
template<typename T> static void put_le(Ctx &c, M &x) {
    T v = (T)c.edge64();
    x.s << htole(v);
    for (size_t i = 0; i < sizeof v; i++) x.m.push_back((uint8_t)(v >> (8 * i)));
    PBT_CHECK(letoh(htole(v)) == v, "letoh(htole(v)) != v");
}
template<typename T> static void get_int(Ctx &c, M &x) {
    if (x.m.size() < sizeof(T)) return;
    bool le = c.coin();
    T v = 0; x.s >> v;
    T w; memcpy(&w, x.m.data(), sizeof w);
    (void)le;
    PBT_CHECK(v == w, "integer of %zu bytes read back as %llx, expected %llx", sizeof v, (unsigned long long)v, (unsigned long long)w);
    x.m.erase(x.m.begin(), x.m.begin() + sizeof(T));
    c.label("get_int");
}
template<typename T> static void get_le(Ctx &c, M &x) {
    if (x.m.size() < sizeof(T)) return;
    T v = 0; x.s >> v; v = letoh(v);
    T w = 0; for (size_t i = 0; i < sizeof(T); i++) w |= (T)((T)x.m[i] << (8 * i));
    PBT_CHECK(v == w, "little-endian integer of %zu bytes read back as %llx, expected %llx", sizeof v, (unsigned long long)v, (unsigned long long)w);
    x.m.erase(x.m.begin(), x.m.begin() + sizeof(T));
}

static void views(M &x, const char *when) {
    PBT_CHECK(x.s.size() == x.m.size(), "%s: size() is %zu, %zu bytes are unread", when, x.s.size(), x.m.size());
    if (x.m.size()) PBT_CHECK(!memcmp(x.s.data(), x.m.data(), x.m.size()), "%s: data() differs from the unread bytes", when);
}
static void deep(Ctx &c, M &x) {
    views(x, "views");
    PBT_CHECK(x.s.get_hex() == hexs(x.m, (size_t)-1), "get_hex() differs: %s vs %s", x.s.get_hex().c_str(), hexs(x.m).c_str());
    V h = (bytearray_t)x.s.get_hash();
    PBT_CHECK(h == sha256(x.m), "get_hash() is not the SHA-256 of the unread bytes");
    const DataStream &cs = x.s;
    V a = (bytearray_t)cs;
    PBT_CHECK(a == x.m, "conversion to byte array (const) differs: %zu bytes vs %zu unread", a.size(), x.m.size());
    std::string st = (std::string)cs;
    PBT_CHECK(st == std::string(x.m.begin(), x.m.end()), "conversion to string differs");
    DataStream cp(x.s);
    PBT_CHECK(cp.size() == x.m.size(), "copy has size %zu, expected %zu", cp.size(), x.m.size());
    V b = bytearray_t(std::move(cp));
    PBT_CHECK(b == x.m, "conversion of a moved-from copy to byte array differs: %zu bytes vs %zu unread", b.size(), x.m.size());
    std::string st2 = std::string(DataStream(x.s));
    PBT_CHECK(st2 == std::string(x.m.begin(), x.m.end()), "conversion of a temporary to string differs");
    // a copy embedded in another stream
    DataStream outer; outer << (uint8_t)1 << V(cs);
    PBT_CHECK(outer.size() == 1 + x.m.size(), "embedding changed the size");
    c.label("deep_view");
}

static void t_history(Ctx &c) {
    const size_t N = 3;
    M s[N];
    // initial contents through the various constructors
    for (auto &x: s) {
        V v = c.bytes(c.size(40));
        switch (c.u(4)) {
            case 0: break;
            case 1: x.s = DataStream(v.data(), v.data() + v.size()); x.m = v; break;
            case 2: x.s = DataStream(v); x.m = v; break;
            case 3: { V w = v; x.s = DataStream(std::move(w)); x.m = v; break; }
            case 4: x.s = DataStream(std::string(v.begin(), v.end())); x.m = v; break;
        }
        views(x, "constructed");
    }
    size_t nops = 1 + c.size(60);
    unsigned reads = 0, writes = 0, partial = 0;
    for (size_t k = 0; k < nops; k++) {
        size_t i = c.u(N - 1);
        M &x = s[i];
        unsigned op = c.u(33);
        switch (op) {
            case 0: put_int<uint8_t>(c, x); writes++; break;
            case 1: put_int<int8_t>(c, x); writes++; break;
            case 2: put_int<uint16_t>(c, x); writes++; break;
            case 3: put_int<int16_t>(c, x); writes++; break;
            case 4: put_int<uint32_t>(c, x); writes++; break;
            case 5: put_int<int32_t>(c, x); writes++; break;
            case 6: put_int<uint64_t>(c, x); writes++; break;
            case 7: put_int<int64_t>(c, x); writes++; break;
            case 8: put_le<uint16_t>(c, x); put_le<uint32_t>(c, x); put_le<uint64_t>(c, x); writes++; break;
            case 9: { V v = c.bytes(c.size(700)); std::string t(v.begin(), v.end()); x.s << t; x.m.insert(x.m.end(), v.begin(), v.end()); writes++; break; }
            case 10: { V v = c.bytes(c.size(700)); x.s << v; x.m.insert(x.m.end(), v.begin(), v.end()); writes++; break; }
            case 11: { V v = c.bytes(c.size(700)); x.s.put_data(v.data(), v.data() + v.size()); x.m.insert(x.m.end(), v.begin(), v.end()); writes++; break; }
            case 12: { V v = c.bytes(c.size(20)); for (auto &b: v) if (!b) b = 1; std::string t(v.begin(), v.end()); x.s << t.c_str(); x.m.insert(x.m.end(), v.begin(), v.end()); writes++; break; }
            case 13: { V v = c.bytes(32); uint256_t h(v); x.s << h; x.m.insert(x.m.end(), v.begin(), v.end()); writes++; break; }
            case 14: { Rec r; r.a = c.edge64(); r.b = c.edge64(); r.tail = c.bytes(c.size(30));
                // write and read back through a stream of its own prefix
                DataStream t; t << r; Rec q; t >> q;
                PBT_CHECK(q.a == r.a && q.b == r.b && q.tail == r.tail && t.size() == 0, "user object does not round-trip");
                DataStream t2; t2 << r; V raw = (bytearray_t)(const DataStream &)t2;
                x.s << r; x.m.insert(x.m.end(), raw.begin(), raw.end()); writes++; break; }
            case 15: { SRec r; r.x = c.edge64(); r.t = c.bytes(c.size(40));
                V b = r.to_bytes(); SRec q; q.from_bytes(b);
                PBT_CHECK(q.x == r.x && q.t == r.t, "to_bytes/from_bytes does not round-trip");
                SRec q2; q2.from_hex(r.to_hex());
                PBT_CHECK(q2.x == r.x && q2.t == r.t, "to_hex/from_hex does not round-trip");
                SRec q3; V b2 = b; q3.from_bytes(std::move(b2));
                PBT_CHECK(q3.x == r.x && q3.t == r.t, "from_bytes(&&) does not round-trip");
                x.s << r; x.m.insert(x.m.end(), b.begin(), b.end()); writes++; break; }
            case 16: get_int<uint8_t>(c, x); reads++; break;
            case 17: get_int<int8_t>(c, x); reads++; break;
            case 18: get_int<uint16_t>(c, x); reads++; break;
            case 19: get_int<int16_t>(c, x); reads++; break;
            case 20: get_int<uint32_t>(c, x); reads++; break;
            case 21: get_int<int32_t>(c, x); reads++; break;
            case 22: get_int<uint64_t>(c, x); reads++; break;
            case 23: get_int<int64_t>(c, x); reads++; break;
            case 24: get_le<uint16_t>(c, x); get_le<uint32_t>(c, x); get_le<uint64_t>(c, x); reads++; break;
            case 25: { size_t n = c.u(x.m.size()); auto p = x.s.get_data_inplace(n);
                if (n) PBT_CHECK(!memcmp(p, x.m.data(), n), "raw read differs");
                x.m.erase(x.m.begin(), x.m.begin() + n); reads++; break; }
            case 26: if (x.m.size() >= 32) { uint256_t h; x.s >> h; V v = (bytearray_t)h;
                PBT_CHECK(V(x.m.begin(), x.m.begin() + 32) == v, "256-bit value differs");
                x.m.erase(x.m.begin(), x.m.begin() + 32); reads++; } break;
            case 27: { size_t j = c.u(N - 1); s[j].s = x.s; s[j].m = V(x.m); c.label("copy_assign"); break; }
            case 28: { size_t j = c.u(N - 1); if (j != i) { s[j].s = std::move(x.s); s[j].m = x.m; x.s = DataStream(); x.m.clear(); c.label("move_assign"); } break; }
            case 29: { size_t j = c.u(N - 1); if (j != i) { x.s.swap(s[j].s); std::swap(x.m, s[j].m); c.label("swap"); } break; }
            case 30: { DataStream t(x.s); DataStream u(std::move(t)); M y{std::move(u), x.m}; deep(c, y); break; }
            case 31: if (c.chance(1, 3)) { x.s.clear(); x.m.clear(); } break;
            case 32: { size_t n = c.size(100); V v = c.bytes(n); std::string h = hexs(v, (size_t)-1);
                if (c.chance(1, 3)) { x.s.load_hex(h); x.m = v; } break; }
            default: deep(c, x); if (x.m.size()) partial++; break;
        }
        if (k < 12) c.note("op%u@%zu(%zu)", op, i, x.m.size());
        for (auto &y: s) views(y, "after operation");
    }
    for (auto &y: s) deep(c, y);
    if (reads >= 2 && writes >= 2) { c.nontrivial(); }
    if (partial) c.label("partly_consumed_view");
}

// put a typed sequence, read it back as a typed sequence: values compared as values
static void t_typed(Ctx &c) {
    struct Item { int k; uint64_t v; V b; };
    std::vector<Item> it;
    DataStream s;
    size_t n = 1 + c.size(50), rd = 0;
    auto readone = [&]() {
        Item &x = it[rd++];
        switch (x.k) {
#define RI(K, T) case K: { T v; s >> v; PBT_CHECK(v == (T)x.v, "value read %lld, written %lld", (long long)v, (long long)(T)x.v); break; }
            RI(0, uint8_t) RI(1, int8_t) RI(2, uint16_t) RI(3, int16_t) RI(4, uint32_t) RI(5, int32_t) RI(6, uint64_t) RI(7, int64_t) RI(8, bool) RI(9, char)
            case 10: { uint32_t l; s >> l; l = letoh(l); PBT_CHECK(l == x.b.size(), "length"); auto p = s.get_data_inplace(l); PBT_CHECK(V(p, p + l) == x.b, "bytes differ"); break; }
            case 11: { NetAddr a; s >> a; PBT_CHECK(a == NetAddr((uint32_t)x.v, (uint16_t)(x.v >> 32)), "address differs"); break; }
        }
    };
    for (size_t i = 0; i < n; i++) {
        Item x; x.k = c.u(11); x.v = c.edge64(); if (x.k == 10) x.b = c.bytes(c.size(5000));
        switch (x.k) {
            case 0: s << (uint8_t)x.v; break; case 1: s << (int8_t)x.v; break; case 2: s << (uint16_t)x.v; break;
            case 3: s << (int16_t)x.v; break; case 4: s << (uint32_t)x.v; break; case 5: s << (int32_t)x.v; break;
            case 6: s << (uint64_t)x.v; break; case 7: s << (int64_t)x.v; break; case 8: x.v &= 1; s << (bool)x.v; break;
            case 9: s << (char)x.v; break; case 10: s << htole((uint32_t)x.b.size()) << x.b; break;
            case 11: s << NetAddr((uint32_t)x.v, (uint16_t)(x.v >> 32)); break;
        }
        it.push_back(x);
        while (rd < it.size() && c.chance(1, 3)) readone();
        if (c.chance(1, 8)) { DataStream t(s); s = std::move(t); }
        if (c.chance(1, 12)) { bytearray_t b = bytearray_t(std::move(s)); s = DataStream(b); c.label("rebuilt_mid_read"); }
    }
    if (rd < it.size() && rd) c.nontrivial();
    while (rd < it.size()) readone();
    PBT_CHECK(s.size() == 0, "%zu bytes left over", s.size());
    c.note("%zu items, interleaved reads", n);
}

int main(int argc, char **argv) {
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"history", t_history, 3}, {"typed", t_typed, 1}}, o);
}
