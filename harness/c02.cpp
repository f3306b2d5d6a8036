// C02: bounded reads and untrusted sizes.
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "salticidae/netaddr.h"
#include "common.h"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace salticidae;
using namespace pbt;

static volatile bool g_track; static size_t g_total, g_max;
static void on_malloc(const volatile void *, size_t n) { if (g_track) { g_total += n; if (n > g_max) g_max = n; } }
static void on_free(const volatile void *) {}
struct Track { Track() { g_total = g_max = 0; g_track = true; } ~Track() { g_track = false; } };

// pull raw bytes into an exactly sized heap block so that ASAN sees any overrun
static V exact(const V &v) { V r(v); r.shrink_to_fit(); return r; }

template<typename T> static bool cpp_get(DataStream &s, T &v) { try { s >> v; return true; } catch (std::exception &) { return false; } }
template<typename T> static void step_int(Ctx &c, DataStream &s, V &m, unsigned &refused, unsigned &ok, T (*cget)(datastream_t *, bool *)) {
    bool viac = c.coin();
    T v = 0x5a; bool good;
    if (viac) { good = c.coin(); v = cget(&s, &good); }
    else good = cpp_get(s, v);
    bool exp = m.size() >= sizeof(T);
    PBT_CHECK(good == exp, "%s read of a %zu-byte integer from %zu bytes reported %s", viac ? "C" : "C++", sizeof(T), m.size(), good ? "success" : "failure");
    if (exp) { T w; memcpy(&w, m.data(), sizeof w); PBT_CHECK(v == w, "wrong value"); m.erase(m.begin(), m.begin() + sizeof(T)); ok++; }
    else refused++;
}
static void t_reads(Ctx &c) {
    V m = exact(c.bytes(c.size(60)));
    DataStream s(m);
    unsigned refused = 0, ok = 0, after = 0;
    size_t n = 1 + c.size(30);
    for (size_t k = 0; k < n; k++) {
        unsigned r0 = refused, o0 = ok;
        unsigned op = c.u(11);
        size_t arg = 0;
        switch (op) {
            case 0: step_int<uint8_t>(c, s, m, refused, ok, datastream_get_u8); break;
            case 1: step_int<uint16_t>(c, s, m, refused, ok, datastream_get_u16); break;
            case 2: step_int<uint32_t>(c, s, m, refused, ok, datastream_get_u32); break;
            case 3: step_int<uint64_t>(c, s, m, refused, ok, datastream_get_u64); break;
            case 4: step_int<int8_t>(c, s, m, refused, ok, datastream_get_i8); break;
            case 5: step_int<int16_t>(c, s, m, refused, ok, datastream_get_i16); break;
            case 6: step_int<int32_t>(c, s, m, refused, ok, datastream_get_i32); break;
            case 7: step_int<int64_t>(c, s, m, refused, ok, datastream_get_i64); break;
            case 8: case 9: {
                switch (c.u(4)) {
                    case 0: arg = c.u(m.size()); break;
                    case 1: arg = m.size() + 1 + c.u(8); break;
                    case 2: arg = SIZE_MAX - c.u(80); break;
                    case 3: arg = c.edge64(); break;
                    default: arg = m.size(); break;
                }
                const uint8_t *p = nullptr; bool good;
                if (op == 8) { try { p = s.get_data_inplace(arg); good = true; } catch (std::exception &) { good = false; } }
                else { p = datastream_get_data_inplace(&s, arg); good = p != nullptr; if (arg == 0) good = true; }
                bool exp = arg <= m.size();
                PBT_CHECK(good == exp, "raw read of %zu bytes from %zu bytes reported %s", arg, m.size(), good ? "success" : "failure");
                if (exp) { if (arg) PBT_CHECK(!memcmp(p, m.data(), arg), "raw read returned other bytes"); m.erase(m.begin(), m.begin() + arg); ok++; } else refused++;
                break; }
            case 10: { V v = c.bytes(c.size(12)); s.put_data(v.data(), v.data() + v.size()); m.insert(m.end(), v.begin(), v.end()); break; }
            case 11: { uint256_t h; bool exp = m.size() >= 32, good;   // composite: may consume what it could read
                try { if (c.coin()) s >> h; else uint256_unserialize(&h, &s); good = true; } catch (std::exception &) { good = false; }
                PBT_CHECK(good == exp, "256-bit read from %zu bytes reported %s", m.size(), good ? "success" : "failure");
                PBT_CHECK(s.size() <= m.size(), "a failed composite read grew the stream");
                if (exp) { PBT_CHECK((bytearray_t)h == V(m.begin(), m.begin() + 32), "256-bit value differs"); }
                m.erase(m.begin(), m.begin() + (m.size() - s.size()));
                if (exp) ok++; else refused++;
                break; }
        }
        if (k < 10) c.note("op%u(%zu) left=%zu", op, arg, m.size());
        PBT_CHECK(s.size() == m.size(), "after %s the stream reports %zu bytes, %zu are unread", refused > r0 ? "a refused read" : "an operation", s.size(), m.size());
        if (m.size()) PBT_CHECK(!memcmp(s.data(), m.data(), m.size()), "unread bytes changed");
        if (r0 && ok > o0) after++;
    }
    if (refused && ok) c.nontrivial();
    if (after) c.label("read_after_refusal");
}

template<typename F> static void decode(Ctx &c, const char *what, const V &in, F f) {
    bool good; size_t left = 0; V re;
    size_t tot, mx;
    {
        DataStream s(in);
        Track t;
        try { f(s, false, re); left = s.size(); good = true; } catch (std::bad_alloc &) { good = false; g_max = SIZE_MAX; } catch (std::exception &) { good = false; }
        tot = g_total; mx = g_max;
    }
    PBT_CHECK(tot <= 64 * in.size() + 16384, "decoding %zu bytes as a %s allocated %zu bytes (largest block %zu)", in.size(), what, tot, mx);
    if (good) {
        DataStream s(in);
        f(s, true, re);
        V used(in.begin(), in.begin() + (in.size() - left));
        PBT_CHECK(re == used, "decoding a %s succeeded but its encoding %s is not the %zu bytes consumed: %s", what, hexs(re).c_str(), used.size(), hexs(used).c_str());
        c.label((std::string("ok_") + what).c_str());
    } else c.label((std::string("refused_") + what).c_str());
}
template<typename T> static void dec_bits(Ctx &c, const V &in) {
    decode(c, "bitset", in, [](DataStream &s, bool ser, V &re) { _Bits<T> b; s >> b; if (ser) { re = (bytearray_t)b; volatile unsigned sum = 0; size_t nb = b.size(), st = nb > 100000 ? nb / 1000 : 1; for (size_t i = 0; i < nb; i += st) sum = sum + b.get(i); if (nb) sum = sum + b.get(nb - 1); } });
}
struct DummyMsg { static const uint8_t opcode = 1; DataStream serialized; };
static void t_decode(Ctx &c) {
    unsigned kind = c.u(5);
    V in;
    // structured-then-broken inputs: a length prefix with too few, exact or too many bytes behind it
    unsigned shape = c.u(3);
    if (shape == 0) in = c.bytes(c.size(200));
    else {
        uint32_t n = shape == 1 ? c.chance(1, 3) ? UINT32_MAX - (uint32_t)c.u(80) : (uint32_t)c.edge64() : (uint32_t)c.u(700);
        le(in, n, 4);
        size_t unit = kind == 5 ? 32 : 8;
        size_t need = kind == 5 ? (size_t)n * 32 : ((size_t)n + 63) / 64 * 8;
        if (need > 8000) need = c.size(400);
        V b = c.bytes(need);
        in.insert(in.end(), b.begin(), b.end());
        switch (c.u(3)) { case 0: break; case 1: in.resize(c.u(in.size())); break; case 2: { V x = c.bytes(c.size(20)); in.insert(in.end(), x.begin(), x.end()); break; } case 3: in.resize(in.size() > unit ? in.size() - 1 - c.u(unit - 1) : in.size()); break; }
    }
    in = exact(in);
    switch (kind) {
        case 0: dec_bits<uint64_t>(c, in); break;
        case 1: dec_bits<uint32_t>(c, in); break;
        case 2: dec_bits<uint16_t>(c, in); break;
        case 3: decode(c, "address", in, [](DataStream &s, bool ser, V &re) { NetAddr a; s >> a; if (ser) { DataStream t; t << a; re = (bytearray_t)(const DataStream &)t; } }); break;
        case 4: {
            decode(c, "uint256", in, [](DataStream &s, bool ser, V &re) { uint256_t a; s >> a; if (ser) re = (bytearray_t)a; });
            bool good; uint256_t q;
            try { uint256_t x(in); good = true; } catch (std::exception &) { good = false; }
            PBT_CHECK(good == (in.size() == 32), "a 256-bit value was %s from %zu bytes", good ? "built" : "refused", in.size());
            uint256_t *p = uint256_new_from_bytearray(&in);
            PBT_CHECK((p != nullptr) == (in.size() == 32), "C: a 256-bit value was %s from %zu bytes", p ? "built" : "refused", in.size());
            if (p) uint256_free(p);
            try { q.from_bytes(in); good = true; } catch (std::exception &) { good = false; }
            PBT_CHECK(good == (in.size() >= 32), "from_bytes on %zu bytes", in.size());
            break; }
        case 5: decode(c, "hashlist", in, [](DataStream &s, bool ser, V &re) {
                MsgBase<uint8_t> m; std::vector<uint256_t> h; m.parse_hash_list(s, h);
                if (ser) { DataStream t; m.gen_hash_list(t, h); re = (bytearray_t)(const DataStream &)t; } }); break;
    }
    if (in.size() >= 4) c.nontrivial();
    c.note("kind=%u shape=%u len=%zu head=%s", kind, shape, in.size(), hexs(in, 12).c_str());
}
// message headers cut short
static void t_header(Ctx &c) {
    V in = exact(c.bytes(c.size(40)));
    bool good; 
    try { MsgBase<uint8_t> m{DataStream(in)}; good = true;
        PBT_CHECK(m.get_length() == rdle(in.data() + 5, 4), "length"); PBT_CHECK(m.get_magic() == rdle(in.data(), 4), "magic"); PBT_CHECK(m.get_opcode() == in[4], "opcode");
    } catch (std::exception &) { good = false; }
    PBT_CHECK(good == (in.size() >= 13), "a header was %s from %zu bytes", good ? "parsed" : "refused", in.size());
    if (in.size() > 8 && in.size() < 20) c.nontrivial();
}
int main(int argc, char **argv) {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"reads", t_reads, 3}, {"decode", t_decode, 3}, {"header", t_header, 1}}, o);
}
