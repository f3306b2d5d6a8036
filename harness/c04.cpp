// C04: hex text and digests.
#include "salticidae/stream.h"
#include "salticidae/crypto.h"
#include "common.h"
using namespace salticidae;
using namespace pbt;
static bool ishex(unsigned char x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'); }
static int hv(char x) { return x <= '9' ? x - '0' : (x | 32) - 'a' + 10; }
static void t_hexround(Ctx &c) {
    V v = c.bytes(c.size(3000));
    DataStream s(v); 
    std::string h = s.get_hex();
    PBT_CHECK(h == hexs(v, (size_t)-1), "encoding of %s is %s", hexs(v).c_str(), h.substr(0, 100).c_str());
    PBT_CHECK(get_hex(v) == h, "get_hex(bytes) differs");
    std::string mixed(h); Prng p(c.u(UINT64_MAX)); for (auto &x: mixed) if (p.next() & 1) x = toupper(x);
    PBT_CHECK(from_hex(h) == v && from_hex(mixed) == v, "decoding does not give the bytes back");
    DataStream t(V(c.size(40))); if (t.size()) t.get_data_inplace(c.u(t.size()));
    t.load_hex(mixed); PBT_CHECK((bytearray_t)(const DataStream &)t == v, "load_hex into a used stream differs");
    bytearray_t *b = bytearray_new_from_hex(mixed.c_str()); PBT_CHECK(b && *b == v, "C decoding differs"); bytearray_free(b);
    char *hc = datastream_get_hex(&s); PBT_CHECK(h == hc, "C encoding differs"); free(hc);
    if (v.size() > 1) c.nontrivial();
    c.note("%zu bytes", v.size());
}
static void t_hexbad(Ctx &c) {
    static const char *odd[] = {" ", "\t", "\n", "x", "X", "g", "G", "-", "+", "0x", "\0", ".", "/", ":", "@", "`", "\x80", "\xff"};
    std::string h;
    size_t n = c.size(40);
    for (size_t i = 0; i < n; i++) h += "0123456789abcdefABCDEF"[c.u(21)];
    unsigned bad = c.u(3);
    for (unsigned k = 0; k < bad; k++) {
        size_t w = c.u(h.size());
        if (c.coin()) { const char *t = odd[c.u(17)]; std::string ts = *t ? std::string(t) : std::string(1, '\0'); if (c.coin() || w + ts.size() > h.size()) h.insert(w, ts); else h.replace(w, ts.size(), ts); }
        else { char b = (char)c.u(255); if (c.coin() || w == h.size()) h.insert(w, 1, b); else h[w] = b; }
    }
    bool valid = h.size() % 2 == 0; for (auto x: h) if (!ishex(x)) valid = false;
    V exp; if (valid) for (size_t i = 0; i < h.size(); i += 2) exp.push_back(hv(h[i]) * 16 + hv(h[i + 1]));
    V got; bool good;
    try { got = from_hex(h); good = true; } catch (std::exception &) { good = false; }
    PBT_CHECK(good == valid, "text '%s' (%zu chars, hex %s) is %s", h.c_str(), h.size(), hexs((const uint8_t *)h.data(), h.size()).c_str(), good ? "accepted" : "refused");
    if (valid) PBT_CHECK(got == exp, "text '%s' decodes to %s", h.c_str(), hexs(got).c_str());
    if (h.find('\0') == std::string::npos) {
        bytearray_t *b = bytearray_new_from_hex(h.c_str());
        PBT_CHECK((b != nullptr) == valid, "C decoding of '%s' %s", h.c_str(), b ? "accepted" : "refused");
        if (b) bytearray_free(b);
    }
    uint256_t q; try { q.from_hex(h); good = true; } catch (std::exception &) { good = false; }
    PBT_CHECK(good == (valid && h.size() >= 64), "256-bit from_hex('%s') %s", h.c_str(), good ? "accepted" : "refused");
    if (!valid) { c.nontrivial(); c.label("invalid"); } else c.label("valid");
    c.note("'%s'", h.c_str());
}
template<typename D> static void feed(Ctx &c, D &d, const V &v) {
    size_t i = 0;
    while (i < v.size()) {
        size_t n = c.coin() ? 1 + c.u(std::min<size_t>(v.size() - i, 70) - 1) : 1 + c.u(v.size() - i - 1);
        switch (c.u(3)) {
            case 0: d.update(v.data() + i, n); break;
            case 1: d.update(v.begin() + i, n); break;
            case 2: d.update(V(v.begin() + i, v.begin() + i + n)); break;
            default: d.update(std::string(v.begin() + i, v.begin() + i + n)); break;
        }
        i += n;
        if (c.chance(1, 8)) d.update(v.data(), 0);
    }
}
template<typename D> static V fin(Ctx &c, D &d, size_t n) {
    V r; if (c.coin()) r = d.digest(); else { r = c.bytes(c.size(60)); d.digest(r); }
    PBT_CHECK(r.size() >= n, "digest has %zu bytes", r.size());
    r.resize(n); return r;
}
static V content(Ctx &c) {
    static const size_t e[] = {0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 4096};
    return c.bytes(c.coin() ? e[c.u(13)] : c.size(5000));
}
static void t_digest(Ctx &c) {
    class salticidae::SHA256 d; class salticidae::SHA1 e;
    unsigned rounds = 1 + c.u(3);
    for (unsigned k = 0; k < rounds; k++) {
        V v = content(c);
        if (c.chance(1, 3)) { feed(c, d, content(c)); feed(c, e, content(c)); }     // abandoned input
        d.reset(); e.reset();
        feed(c, d, v); feed(c, e, v);
        PBT_CHECK(fin(c, d, 32) == sha256(v), "SHA-256 of %zu bytes is wrong", v.size());
        PBT_CHECK(fin(c, e, 20) == sha1(v), "SHA-1 of %zu bytes is wrong", v.size());
        class salticidae::SHA256 f; feed(c, f, v); PBT_CHECK(fin(c, f, 32) == sha256(v), "SHA-256 of a fresh object is wrong");
        class salticidae::SHA1 g; feed(c, g, v); PBT_CHECK(fin(c, g, 20) == sha1(v), "SHA-1 of a fresh object is wrong");
        DataStream s(v); size_t skip = c.u(v.size()); s.get_data_inplace(skip);
        V rest(v.begin() + skip, v.end());
        PBT_CHECK((bytearray_t)s.get_hash() == sha256(rest), "stream hash is not the SHA-256 of the unread bytes");
        PBT_CHECK((bytearray_t)get_hash(v) == sha256(v), "get_hash(bytes) is wrong");
        uint256_t *p = datastream_get_hash(&s); PBT_CHECK((bytearray_t)*p == sha256(rest), "C stream hash is wrong"); uint256_free(p);
        if (v.size() > 64) c.nontrivial();
        c.note("%zu bytes", v.size());
    }
}
int main(int argc, char **argv) {
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"hex_roundtrip", t_hexround, 1}, {"hex_text", t_hexbad, 3}, {"digest", t_digest, 1}}, o);
}
