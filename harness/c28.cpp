// C28: keys and certificates: export/import round trips, passwords, mismatches, malformed inputs.
#include "salticidae/crypto.h"
#include "salticidae/network.h"
#include "common.h"
#include <dirent.h>
#include <sys/stat.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <openssl/ec.h>
#include <openssl/rsa.h>
using namespace salticidae;
using namespace pbt;
struct K { EVP_PKEY *k; V priv, pub; bool rsa; int bits; };
static std::vector<K> pool;
static V to_v(int (*f)(const EVP_PKEY *, unsigned char **), EVP_PKEY *k) { unsigned char *p = nullptr; int n = f(k, &p); V r(p, p + std::max(n, 0)); OPENSSL_free(p); return r; }
static void add(EVP_PKEY *k, bool rsa, int bits) { pool.push_back({k, to_v(i2d_PrivateKey, k), to_v(i2d_PublicKey, k), rsa, bits}); }
static PKey dup(const K &k) { EVP_PKEY_up_ref(k.k); return PKey(k.k); }
static std::string fn(const char *s) { return std::string("c28_") + std::to_string(getpid()) + s; }
static V slurp(const std::string &f) { V r; FILE *fp = fopen(f.c_str(), "rb"); int ch; while (fp && (ch = fgetc(fp)) != EOF) r.push_back(ch); if (fp) fclose(fp); return r; }
static void spit(const std::string &f, const V &v) { FILE *fp = fopen(f.c_str(), "wb"); fwrite(v.data(), 1, v.size(), fp); fclose(fp); }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
static V vb(bytearray_t *b) { PBT_CHECK(b, "null byte array"); V r(b->begin(), b->end()); delete b; return r; }
static void t_key(Ctx &c) {
    const K &k = pool[c.u(pool.size() - 1)];
    PKey p = dup(k);
    std::string f = fn(".key");
    int steps = 1 + c.u(4); unsigned kinds = 0;
    for (int i = 0; i < steps; i++) {
        V priv = p.get_privkey_der(), pub = p.get_pubkey_der();
        PBT_CHECK(priv == k.priv, "exported private key differs after %d steps", i);
        PBT_CHECK(pub == k.pub, "exported public key differs after %d steps", i);
        int how = c.u(5); kinds |= 1 << how;
        c.note("%s%d step %d", k.rsa ? "rsa" : "ec", k.bits, how);
        SalticidaeCError e; pkey_t *q = nullptr;
        PKey n(nullptr);
        switch (how) {
            case 0: { PKey t = PKey::create_privkey_from_der(priv); p.~PKey(); new (&p) PKey(std::move(t)); break; }
            case 1: { unlink(f.c_str()); p.save_privkey_to_file(f); PKey t = PKey::create_privkey_from_pem_file(f); p.~PKey(); new (&p) PKey(std::move(t)); break; }
            case 2: { PKey t(std::move(p)); new (&p) PKey(std::move(t)); break; }
            case 3: { bytearray_t b(priv.begin(), priv.end()); q = pkey_new_privkey_from_der(&b, &e); break; }
            case 4: { unlink(f.c_str()); p.save_privkey_to_file(f); q = pkey_new_privkey_from_pem_file(f.c_str(), c.coin() ? "unneeded" : nullptr, &e); break; }
            default: { std::string pw = "unneeded"; unlink(f.c_str()); p.save_privkey_to_file(f); PKey t = PKey::create_privkey_from_pem_file(f, &pw); p.~PKey(); new (&p) PKey(std::move(t)); break; }
        }
        if (how == 3 || how == 4) {
            PBT_CHECK(q && e.code == 0, "C interface refuses a good key (%d)", e.code);
            PBT_CHECK(vb(pkey_get_privkey_der(q)) == k.priv && vb(pkey_get_pubkey_der(q)) == k.pub, "C interface exports a different key");
            pkey_free(q);
        }
    }
    unlink(f.c_str());
    PBT_CHECK(V(p.get_privkey_der()) == k.priv && V(p.get_pubkey_der()) == k.pub, "key changed");
    if (kinds & ~4u) c.nontrivial();
}
static void t_cert(Ctx &c) {
    const K &k = pool[c.u(pool.size() - 1)];
    PKey p = dup(k);
    std::string cn(1 + c.u(50), 'a'); for (auto &ch: cn) ch = "abcXYZ019-. _"[c.u(12)];
    static const char *CO[] = {"US", "CN", "XX"};
    const char *co = CO[c.u(2)];
    bool dflt = c.chance(1, 4);
    salticidae::X509 x = dflt ? salticidae::X509::create_self_signed_from_pubkey(p) : salticidae::X509::create_self_signed_from_pubkey(p, co, cn.c_str());
    if (dflt) { cn = "localhost"; co = "US"; }
    V der = x.get_der();
    {   // independent view of the certificate
        const unsigned char *q = der.data(); ::X509 *o = d2i_X509(nullptr, &q, der.size());
        PBT_CHECK(o && q == der.data() + der.size(), "exported certificate does not parse");
        char b[256] = "";
        X509_NAME_get_text_by_NID(X509_get_subject_name(o), NID_commonName, b, sizeof b);
        PBT_CHECK(cn == b, "common name \"%s\" instead of \"%s\"", b, cn.c_str());
        X509_NAME_get_text_by_NID(X509_get_subject_name(o), NID_countryName, b, sizeof b);
        PBT_CHECK(!strcmp(co, b), "country \"%s\"", b);
        EVP_PKEY *pk = X509_get0_pubkey(o);
        PBT_CHECK(pk && EVP_PKEY_eq(pk, k.k) == 1, "the certificate does not carry the key it was made from");
        PBT_CHECK(X509_verify(o, pk) == 1, "the self-signed certificate does not verify with its own key");
        X509_free(o);
    }
    std::string f = fn(".crt");
    c.note("cn %s", cn.c_str());
    for (int i = 1 + c.u(4); i--;) {
        SalticidaeCError e; x509_t *q = nullptr;
        switch (c.u(5)) {
            case 0: { auto t = salticidae::X509::create_from_der(der); x.~X509(); new (&x) salticidae::X509(std::move(t)); break; }
            case 1: { unlink(f.c_str()); x.save_to_file(f); auto t = salticidae::X509::create_from_pem_file(f); x.~X509(); new (&x) salticidae::X509(std::move(t)); break; }
            case 2: { salticidae::X509 t(std::move(x)); new (&x) salticidae::X509(std::move(t)); break; }
            case 3: { bytearray_t b(der.begin(), der.end()); q = x509_new_from_der(&b, &e); break; }
            case 4: { unlink(f.c_str()); x.save_to_file(f); q = x509_new_from_pem_file(f.c_str(), c.coin() ? "unneeded" : nullptr, &e); break; }
            default: { std::string pw = "unneeded"; unlink(f.c_str()); x.save_to_file(f); auto t = salticidae::X509::create_from_pem_file(f, &pw); x.~X509(); new (&x) salticidae::X509(std::move(t)); break; }
        }
        if (q) {
            PBT_CHECK(e.code == 0, "error code with a result");
            PBT_CHECK(vb(x509_get_der(q)) == der, "C interface exports a different certificate");
            pkey_t *pk = x509_get_pubkey(q); PBT_CHECK(vb(pkey_get_pubkey_der(pk)) == k.pub, "C interface: different public key"); pkey_free(pk);
            x509_free(q);
        }
        PBT_CHECK(V(x.get_der()) == der, "certificate changed by export and import");
        PBT_CHECK(V(x.get_pubkey().get_pubkey_der()) == k.pub, "certificate has another public key");
    }
    unlink(f.c_str());
    c.nontrivial();
}
static std::string pwgen(Ctx &c) { std::string s(c.chance(1, 12) ? 1019 + c.u(4) : 1 + c.size(c.chance(1, 6) ? 1000 : 40), 'x'); Prng p(c.u(UINT64_MAX)); for (auto &ch: s) ch = (char)(33 + p.below(93)); return s; }
static void t_passwd(Ctx &c) {
    const K &k = pool[c.u(pool.size() - 1)];
    std::string pw = pwgen(c), f = fn(".enc"), wrong;
    switch (c.u(5)) { case 0: wrong = pw + std::string(1 + c.u(5), 'x'); break; case 1: wrong = pw.substr(0, pw.size() - 1); break; case 2: wrong = pw; wrong[c.u(pw.size() - 1)] ^= 1; break; case 3: wrong = std::string(1023 + c.u(4), 'z'); break; case 4: wrong = ""; break; default: wrong = pwgen(c); }
    if (wrong == pw) wrong += "!";
    BIO *fp = BIO_new_file(f.c_str(), "wb");
    bool trad = c.coin();
    int ok = trad ? PEM_write_bio_PrivateKey_traditional(fp, k.k, EVP_aes_128_cbc(), (const unsigned char *)pw.data(), pw.size(), nullptr, nullptr)
                  : PEM_write_bio_PrivateKey(fp, k.k, EVP_aes_256_cbc(), (const unsigned char *)pw.data(), pw.size(), nullptr, nullptr);
    BIO_free(fp);
    if (!ok) { unlink(f.c_str()); c.discard(); return; }
    c.note("password of %zu characters, wrong one of %zu, %s", pw.size(), wrong.size(), trad ? "traditional" : "pkcs8");
    int before = nfds();
    for (int i = 0; i < 4; i++) {
        int how = c.u(3); bool api = c.coin();
        std::string *p = how == 0 ? nullptr : how == 1 ? &wrong : &pw;
        bool good = how >= 2; bool got = false; V priv;
        if (api) { SalticidaeCError e; auto q = pkey_new_privkey_from_pem_file(f.c_str(), p ? p->c_str() : nullptr, &e); got = q; if (q) { priv = vb(pkey_get_privkey_der(q)); pkey_free(q); PBT_CHECK(!e.code, "error code with a key"); } else PBT_CHECK(e.code, "no key and no error"); }
        else try { PKey q = PKey::create_privkey_from_pem_file(f, p); got = true; priv = q.get_privkey_der(); } catch (SalticidaeError &) {}
        PBT_CHECK(got == good, good ? "the right password is refused" : how ? "a wrong password is accepted" : "an encrypted key opens without a password");
        if (good) PBT_CHECK(priv == k.priv, "decrypted key differs");
    }
    PBT_CHECK(nfds() == before, "descriptors leaked by loading encrypted keys");
    unlink(f.c_str());
    c.nontrivial();
}
static void t_malformed(Ctx &c) {
    const K &k = pool[c.u(pool.size() - 1)];
    bool cert = c.coin(), pem = c.coin();
    V src; std::string f = fn(".bad");
    if (cert) { PKey p = dup(k); auto x = salticidae::X509::create_self_signed_from_pubkey(p); if (pem) { x.save_to_file(f); src = slurp(f); } else src = x.get_der(); }
    else { PKey p = dup(k); if (pem) { p.save_privkey_to_file(f); src = slurp(f); } else src = p.get_privkey_der(); }
    unlink(f.c_str());
    bool must_fail = true; V in = src; bool nofile = false, dir = false;
    int mode = c.u(6);
    switch (mode) {
        case 0: in.resize(c.u(src.size() - (pem ? 2 : 1))); break;
        case 1: { must_fail = false; for (unsigned n = 1 + c.u(3); n--;) in[c.u(in.size() - 1)] ^= 1 + c.u(254); break; }
        case 2: in = c.bytes(c.size(300)); if (!in.empty() && !pem) { in[0] = 0x04; } else if (pem) for (auto &b: in) if (b == '-') b = '+'; break;
        case 3: nofile = pem; in.clear(); break;
        case 4: { must_fail = false; size_t i = c.u(in.size() - 1), n = 1 + c.u(20); V ins = c.bytes(n); in.insert(in.begin() + i, ins.begin(), ins.end()); break; }
        case 5: { must_fail = false; size_t i = c.u(in.size() - 1), n = std::min<size_t>(1 + c.u(20), in.size() - i); in.erase(in.begin() + i, in.begin() + i + n); break; }
        default: if (pem) { dir = true; } else in = V(1 + c.u(3), 0x30); break;
    }
    c.note("%s %s of %zu bytes, mode %d, %zu bytes", cert ? "certificate" : "key", pem ? "PEM" : "DER", src.size(), mode, in.size());
    if (pem) { if (dir) mkdir(f.c_str(), 0700); else if (!nofile) spit(f, in); }
    int before = nfds();
    for (int api = 0; api < 2; api++) {
        bool got = false; V out;
        bytearray_t b(in.begin(), in.end());
        bool ctxload = pem && api == 0 && c.chance(1, 3);
        if (ctxload) { // the same file loaded by a TLS context
            TLSContext t; bool ok = false;
            try { if (cert) t.use_cert_file(f); else t.use_privkey_file(f); ok = true; } catch (SalticidaeError &) {}
            PBT_CHECK(!ok || !must_fail, "a TLS context accepts a malformed file");
        }
        if (api) {
            SalticidaeCError e; e.code = 0;
            if (cert) { x509_t *x = pem ? x509_new_from_pem_file(f.c_str(), nullptr, &e) : x509_new_from_der(&b, &e); got = x; if (x) { out = vb(x509_get_der(x)); x509_free(x); } }
            else { pkey_t *x = pem ? pkey_new_privkey_from_pem_file(f.c_str(), nullptr, &e) : pkey_new_privkey_from_der(&b, &e); got = x; if (x) pkey_free(x); }
            PBT_CHECK(got || e.code, "no result and no error");
        } else try {
            if (cert) { auto x = pem ? salticidae::X509::create_from_pem_file(f) : salticidae::X509::create_from_der(b); got = true; out = x.get_der(); try { x.get_pubkey().get_pubkey_der(); } catch (SalticidaeError &) {} }
            else { auto x = pem ? PKey::create_privkey_from_pem_file(f) : PKey::create_privkey_from_der(b); got = true; try { x.get_privkey_der(); x.get_pubkey_der(); } catch (SalticidaeError &) {} }
        } catch (SalticidaeError &e) { PBT_CHECK(e.get_code(), "error without a code"); }
        PBT_CHECK(!(got && must_fail), "malformed input (mode %d, %zu of %zu bytes) is accepted", mode, in.size(), src.size());
    }
    PBT_CHECK(nfds() == before, "descriptors leaked by a failed load");
    if (dir) rmdir(f.c_str()); else unlink(f.c_str());
    // saving where nothing can be written is an error, not a crash
    if (c.chance(1, 8)) {
        PKey p = dup(k); auto x = salticidae::X509::create_self_signed_from_pubkey(p);
        std::string bad = fn(".nodir") + "/x";
        int n = 0;
        try { p.save_privkey_to_file(bad); n = 1; } catch (SalticidaeError &) {}
        try { x.save_to_file(bad); n = 2; } catch (SalticidaeError &) {}
        PBT_CHECK(!n, "saving to an impossible place is reported as done");
        c.label("unwritable");
    }
    c.nontrivial();
}
typedef MsgNetwork<uint8_t> Net;
static void t_network(Ctx &c) {
    std::vector<int> big; for (size_t i = 0; i < pool.size(); i++) if (pool[i].bits >= 2048 || !pool[i].rsa) big.push_back(i);
    int ki = big[c.u(big.size() - 1)], ci = c.coin() ? ki : big[c.u(big.size() - 1)];
    bool kf = c.coin(), cf = c.coin(); int miss = c.chance(1, 8) ? 1 + c.u(1) : 0;
    std::string fk = fn(".nk"), fc = fn(".nc");
    PKey kc = dup(pool[ci]), kk = dup(pool[ki]);
    auto x = salticidae::X509::create_self_signed_from_pubkey(kc);
    x.save_to_file(fc); kk.save_privkey_to_file(fk);
    V der = x.get_der();
    if (miss == 1) { kf = true; unlink(fk.c_str()); } else if (miss == 2) { cf = true; unlink(fc.c_str()); }
    bool good = ki == ci && !miss, threw = false; int code = 0;
    c.note("key %d cert %d keyfile %d certfile %d missing %d", ki, ci, kf, cf, miss);
    {
        EventContext ec;
        try {
            Net::Config cfg; cfg.enable_tls(true);
            if (kf) cfg.tls_key_file(fk); else cfg.tls_key(new PKey(std::move(kk)));
            if (cf) cfg.tls_cert_file(fc); else cfg.tls_cert(new salticidae::X509(std::move(x)));
            Net net(ec, cfg);
            PBT_CHECK(net.get_cert() && V(net.get_cert()->get_der()) == der, "the network presents another certificate");
        } catch (SalticidaeError &e) { threw = true; code = e.get_code(); }
    }
    unlink(fk.c_str()); unlink(fc.c_str());
    PBT_CHECK(threw == !good, good ? "a network refuses its own certificate (%d)" : "a network accepts a certificate that does not belong to its key", code);
    TLSContext t; PKey k2 = dup(pool[ki]), c2 = dup(pool[ci]); auto x2 = salticidae::X509::create_self_signed_from_pubkey(c2);
    bool refused = false;
    try { if (c.coin()) { t.use_privkey(k2); t.use_cert(x2); } else { t.use_cert(x2); t.use_privkey(k2); } } catch (SalticidaeError &) { refused = true; }
    PBT_CHECK((!refused && t.check_privkey()) == (ki == ci), "check_privkey is wrong");
    c.nontrivial();
}
static void t_gen(Ctx &c) {
    static const int B[] = {512, 768, 1024};
    int bits = B[c.u(2)];
    PKey a = PKey::create_privkey_rsa(bits), b = PKey::create_privkey_rsa(bits);
    PBT_CHECK(V(a.get_privkey_der()) != V(b.get_privkey_der()), "two generated keys are the same");
    PBT_CHECK(V(PKey::create_privkey_from_der(a.get_privkey_der()).get_privkey_der()) == V(a.get_privkey_der()), "generated key does not survive");
    V d = a.get_privkey_der(); const unsigned char *q = d.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &q, d.size());
    PBT_CHECK(k && EVP_PKEY_get_bits(k) == bits && EVP_PKEY_get_base_id(k) == EVP_PKEY_RSA, "generated key is not RSA with %d bits", bits);
    EVP_PKEY_free(k);
    c.note("%d bits", bits); c.nontrivial();
}
int main(int argc, char **argv) {
    static const int B[] = {2048, 2048, 1024, 512};
    for (int b: B) { EVP_PKEY *k = EVP_RSA_gen(b); if (k) add(k, true, b); }
    for (const char *cv: {"P-256", "P-384"}) { EVP_PKEY *k = EVP_EC_gen(cv); if (k) add(k, false, atoi(cv + 2)); }
    Opts o; o.hang = 60;
    return main_(argc, argv, {{"key", t_key, 6}, {"cert", t_cert, 5}, {"password", t_passwd, 4}, {"malformed", t_malformed, 8}, {"network", t_network, 2}, {"generate", t_gen, 1}}, o);
}
