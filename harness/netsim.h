// Shared by the network harnesses: loops, message types, wire encoder, certificates.
#ifndef NETSIM_H
#define NETSIM_H
#include "salticidae/event.h"
#include "salticidae/network.h"
#include "sim_impl.h"
#include "common.h"
#include <openssl/ec.h>
#include <openssl/pem.h>
using namespace salticidae;
using pbt::Ctx; using pbt::fail; using pbt::g_replaying;
typedef std::vector<uint8_t> Bytes;

struct Loop {      // a user's event loop on its own thread
    EventContext ec; std::thread th; ThreadCall *tc = nullptr; int tid = -1; bool up = false;
    Loop() { tc = new ThreadCall(ec); }
    void start() { up = true; th = std::thread([this]() { tid = sched::self(); ec.dispatch(); }); }
    void stop() { if (!up) return; up = false; auto e = ec; tc->async_call([e](ThreadCall::Handle &) { e.stop(); }); th.join(); }
    void run(std::function<void()> fn) { tc->call([fn](ThreadCall::Handle &) { fn(); }).get(); }    // executes fn on the loop
    void post(std::function<void()> fn) { tc->async_call([fn](ThreadCall::Handle &) { fn(); }); }
    ~Loop() { stop(); delete tc; }
};
static NetAddr at(uint16_t port) { return NetAddr("127.0.0.1", port); }

// pseudo-random content derived from an id, so that a payload identifies itself
static Bytes content(uint64_t id, size_t n) { Bytes r(n); uint64_t x = id * 0x9e3779b97f4a7c15ULL + 77; for (size_t i = 0; i < n; i++) { if (!(i & 7)) x = x * 6364136223846793005ULL + 1442695040888963407ULL; r[i] = (uint8_t)(x >> (8 * (i & 7))); } return r; }

template<uint8_t OP> struct MsgT {     // src, seq, content
    static const uint8_t opcode = OP;
    DataStream serialized; uint32_t src = 0, seq = 0; bytearray_t data;
    MsgT(uint32_t src, uint32_t seq, size_t len): src(src), seq(seq) { serialized << htole(src) << htole(seq); auto c = content(((uint64_t)src << 32) | seq, len); if (len) serialized.put_data(c.data(), c.data() + len); }
    MsgT(DataStream &&s) { s >> src >> seq; src = letoh(src); seq = letoh(seq); data = bytearray_t(s.data(), s.data() + s.size()); }
    bool good() const { auto c = content(((uint64_t)src << 32) | seq, data.size()); return data.size() == c.size() && (data.empty() || !memcmp(data.data(), c.data(), c.size())); }
    static size_t wire(size_t len) { return 13 + 8 + len; }
};
template<uint8_t OP> const uint8_t MsgT<OP>::opcode;
// independent encoder of the wire format
static Bytes enc(uint8_t op, const Bytes &payload, uint32_t magic = 0) {
    Bytes r; auto p32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) r.push_back(v >> (8 * i)); };
    p32(magic); r.push_back(op); p32(payload.size());
    auto h = sha1(payload); r.insert(r.end(), h.begin(), h.begin() + 4);
    r.insert(r.end(), payload.begin(), payload.end());
    return r;
}
static Bytes body(uint32_t src, uint32_t seq, size_t len) { Bytes r; for (uint32_t v: {src, seq}) for (int i = 0; i < 4; i++) r.push_back(v >> (8 * i)); auto c = content(((uint64_t)src << 32) | seq, len); r.insert(r.end(), c.begin(), c.end()); return r; }
struct WireMsg { uint32_t magic; uint8_t op; Bytes payload; bool sum; };
static std::vector<WireMsg> dec(Bytes &in) {    // consumes whole messages
    std::vector<WireMsg> r; size_t i = 0;
    auto g32 = [&](size_t o) { return in[o] | in[o + 1] << 8 | in[o + 2] << 16 | (uint32_t)in[o + 3] << 24; };
    while (in.size() - i >= 13) {
        uint32_t len = g32(i + 5);
        if (len > (1u << 26) || in.size() - i - 13 < len) break;
        WireMsg m; m.magic = g32(i); m.op = in[i + 4]; m.payload.assign(in.begin() + i + 13, in.begin() + i + 13 + len);
        auto h = sha1(m.payload); m.sum = !memcmp(h.data(), &in[i + 9], 4);
        r.push_back(std::move(m)); i += 13 + len;
    }
    in.erase(in.begin(), in.begin() + i);
    return r;
}

// certificates, made once before the workers fork
struct Ident { bytearray_t key, cert; };
static std::vector<Ident> g_ids;
static Ident make_ident(int n) {
    EVP_PKEY *k = EVP_EC_gen("P-256");
    ::X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1000 + n);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400); X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365);
    X509_set_pubkey(x, k);
    auto nm = X509_get_subject_name(x); auto cn = "node" + std::to_string(n);
    X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const unsigned char *)cn.c_str(), -1, -1, 0);
    X509_set_issuer_name(x, nm);
    X509_sign(x, k, EVP_sha256());
    Ident r; unsigned char *p = nullptr; int l = i2d_PrivateKey(k, &p); r.key = bytearray_t(p, p + l); OPENSSL_free(p);
    p = nullptr; l = i2d_X509(x, &p); r.cert = bytearray_t(p, p + l); OPENSSL_free(p);
    EVP_PKEY_free(k); X509_free(x);
    return r;
}
static void make_idents(int n) { for (int i = 0; i < n; i++) g_ids.push_back(make_ident(i)); }
template<typename C> static void use_tls(C &cfg, int i) {
    sim::g_tls = true;
    cfg.enable_tls(true); cfg.tls_key(new PKey(PKey::create_privkey_from_der(g_ids[i].key))); cfg.tls_cert(new salticidae::X509(salticidae::X509::create_from_der(g_ids[i].cert)));
}
#endif
