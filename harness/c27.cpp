// C27: the C interface, mirrored by the C++ interface and by plain models.
#include "netsim.h"
typedef MsgNetwork<uint8_t> Net; typedef Net::conn_t conn_t; typedef PeerNetwork<uint8_t> PNet27;
static bool same(const bytearray_t &a, const bytearray_t &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size())); }
static bytearray_t ba(const Bytes &b) { return bytearray_t(b.begin(), b.end()); }
struct St { datastream_t *c; DataStream m; };
struct Ba { bytearray_t *c; Bytes m; };
// --- byte arrays, streams, 256-bit values, addresses, messages: single calls on generated histories
static void t_values(Ctx &c) {
    std::vector<St> S; std::vector<Ba> B; unsigned fails = 0, gets = 0, puts = 0, msgs = 0;
    auto chk_s = [&](St &s) { PBT_CHECK(datastream_size(s.c) == s.m.size(), "a stream made through the C interface has %zu bytes instead of %zu", datastream_size(s.c), s.m.size()); if (s.m.size()) PBT_CHECK(!memcmp(datastream_data(s.c), s.m.data(), s.m.size()), "a stream has another content through the C interface"); };
    auto chk_b = [&](Ba &b) { PBT_CHECK(bytearray_size(b.c) == b.m.size(), "a byte array has %zu bytes instead of %zu", bytearray_size(b.c), b.m.size()); auto *p = bytearray_data(b.c); if (b.m.size()) PBT_CHECK(!memcmp(p, b.m.data(), b.m.size()), "a byte array has another content"); };
    auto rnd = [&]() { return c.bytes(c.chance(1, 8) ? c.u(3000) : c.u(40)); };
    int n = 3 + c.size(40);
    for (int k = 0; k < n; k++) {
        if (S.empty() || c.chance(1, 6)) { St s; switch (c.u(3)) {
            case 0: s.c = datastream_new(); break;
            case 1: { auto v = rnd(); s.c = datastream_new_from_bytes(v.data(), v.size()); s.m = DataStream(v.data(), v.data() + v.size()); break; }
            case 2: { auto v = rnd(); bytearray_t a = ba(v); s.c = datastream_new_from_bytearray(&a); s.m = DataStream(a); PBT_CHECK(same(a, ba(v)), "copying a byte array changes it"); break; }
            default: { auto v = rnd(); bytearray_t *a = bytearray_new_from_bytes(v.data(), v.size()); s.c = datastream_new_moved_from_bytearray(a); s.m = DataStream(ba(v)); bytearray_free(a); break; } }
            PBT_CHECK(s.c, "no stream is made"); S.push_back(std::move(s)); }
        size_t i = c.u(S.size() - 1); St &s = S[i]; uint64_t v = c.edge64();
#define PUT(T, N) { bool r = datastream_put_##N(s.c, (T)v); s.m << (T)v; puts++; PBT_CHECK(r, "datastream_put_" #N " reports a failure"); break; }
#define GET(T, N) { bool ok = c.coin(), want = true; T m = 0; T r = datastream_get_##N(s.c, &ok); try { s.m >> m; } catch (...) { want = false; m = 0; fails++; } gets++; PBT_CHECK(ok == want, "datastream_get_" #N " reports %s", ok ? "success without data" : "a failure although there is data"); PBT_CHECK(r == m, "datastream_get_" #N " returns another value"); break; }
        switch (c.u(33)) {
            case 0: PUT(uint8_t, u8) case 1: PUT(uint16_t, u16) case 2: PUT(uint32_t, u32) case 3: PUT(uint64_t, u64) case 4: PUT(int8_t, i8) case 5: PUT(int16_t, i16) case 6: PUT(int32_t, i32) case 7: PUT(int64_t, i64)
            case 8: GET(uint8_t, u8) case 9: GET(uint16_t, u16) case 10: GET(uint32_t, u32) case 11: GET(uint64_t, u64) case 12: GET(int8_t, i8) case 13: GET(int16_t, i16) case 14: GET(int32_t, i32) case 15: GET(int64_t, i64)
            case 16: case 17: { auto d = rnd(); PBT_CHECK(datastream_put_data(s.c, d.data(), d.size()), "datastream_put_data reports a failure"); if (d.size()) s.m.put_data(d.data(), d.data() + d.size()); puts++; break; }
            case 18: case 19: { size_t len = c.chance(1, 4) ? s.m.size() + c.u(3) : c.u(s.m.size() + 2); if (s.m.size() == 0 && len == 0) break; const uint8_t *m = nullptr; try { m = s.m.get_data_inplace(len); } catch (...) { fails++; } auto *r = datastream_get_data_inplace(s.c, len); gets++; PBT_CHECK(!r == !m, "datastream_get_data_inplace returns %s", r ? "data that is not there" : "nothing although there is data"); if (m && len) PBT_CHECK(!memcmp(m, r, len), "datastream_get_data_inplace returns other data"); break; }
            case 20: { auto *h = datastream_get_hash(s.c); auto m = s.m.get_hash(); PBT_CHECK(h && *h == m, "datastream_get_hash returns another hash"); PBT_CHECK(uint256_is_eq(h, &m), "uint256_is_eq is wrong"); uint256_free(h); break; }
            case 21: { char *h = datastream_get_hex(s.c); PBT_CHECK(h && s.m.get_hex() == h, "datastream_get_hex returns another text"); free(h); break; }
            case 22: if (c.chance(1, 3)) { datastream_clear(s.c); s.m.clear(); } break;
            case 23: { St t; t.c = datastream_copy(s.c); t.m = s.m; PBT_CHECK(t.c, "no copy"); chk_s(t); S.push_back(std::move(t)); break; }
            case 24: { Ba b; b.c = bytearray_new_copied_from_datastream(s.c); bytearray_t m = s.m; b.m.assign(m.begin(), m.end()); B.push_back(b); break; }
            case 25: { Ba b; b.c = bytearray_new_moved_from_datastream(s.c); bytearray_t m = std::move(s.m); b.m.assign(m.begin(), m.end()); B.push_back(b); datastream_free(s.c); S.erase(S.begin() + i); break; }
            case 26: { Ba b; b.m = rnd(); b.c = bytearray_new_from_bytes(b.m.data(), b.m.size()); B.push_back(b); break; }
            case 27: { auto d = rnd(); auto hex = get_hex(ba(d)); bool bad = c.chance(1, 4); if (bad) { if (hex.size() && c.coin()) hex[c.u(hex.size() - 1)] = "gG /:@`\n"[c.u(7)]; else hex += 'a'; } Ba b; b.c = bytearray_new_from_hex(hex.c_str());
                bytearray_t m; bool ok = true; try { m = from_hex(hex); } catch (...) { ok = false; fails++; } PBT_CHECK(!!b.c == ok, "bytearray_new_from_hex: %s", b.c ? "accepts malformed text" : "refuses valid text"); if (!ok) break; b.m.assign(m.begin(), m.end()); if (!bad) PBT_CHECK(b.m == d, "bytes do not survive hex"); B.push_back(b); break; }
            case 28: { Bytes d = c.bytes(32); if (c.chance(1, 4)) d.assign(32, 0); auto *u = c.coin() ? uint256_new_from_bytes(d.data()) : nullptr; bytearray_t a = ba(d); if (!u) u = uint256_new_from_bytearray(&a); uint256_t m(d.data()); PBT_CHECK(u && *u == m && uint256_is_null(u) == m.is_null(), "a 256-bit value differs");
                auto *z = uint256_new(); PBT_CHECK(uint256_is_null(z), "a new 256-bit value is not null"); PBT_CHECK(uint256_is_eq(u, z) == (m == uint256_t()), "uint256_is_eq is wrong");
                uint256_serialize(u, s.c); s.m << m; if (c.coin()) { auto *t = datastream_new(); uint256_serialize(u, t); uint256_unserialize(z, t); PBT_CHECK(uint256_is_eq(u, z) && !datastream_size(t), "a 256-bit value does not survive a stream"); datastream_free(t); } uint256_free(u); uint256_free(z); break; }
            case 29: { Bytes d = c.bytes(c.u(40)); if (d.size() == 32) d.pop_back(); bytearray_t a = ba(d); auto *u = uint256_new_from_bytearray(&a); bool ok = true; try { uint256_t m(a); } catch (...) { ok = false; fails++; } PBT_CHECK(!!u == ok, "uint256_new_from_bytearray of %zu bytes: %s", d.size(), u ? "accepted" : "refused"); if (u) uint256_free(u); break; }
            case 30: { // messages
                auto d = rnd(); bytearray_t *a = bytearray_new_from_bytes(d.data(), d.size()); uint8_t op = c.u(255); uint32_t mg = c.edge64(); msg_t *m = msg_new_moved_from_bytearray(op, a); bytearray_free(a); msgs++;
                PBT_CHECK(m && msg_get_opcode(m) == op, "the opcode of a message differs"); msg_set_magic(m, mg); PBT_CHECK(msg_get_magic(m) == mg && m->get_magic() == mg, "the magic number of a message differs");
                bytearray_t w = m->serialize(); PBT_CHECK(Bytes(w.begin(), w.end()) == enc(op, d, mg), "a message made through the C interface has another encoding"); PBT_CHECK(m->verify_checksum(), "a message made through the C interface has a wrong checksum");
                auto *p = msg_consume_payload(m); PBT_CHECK(p && datastream_size(p) == d.size() && (d.empty() || !memcmp(datastream_data(p), d.data(), d.size())), "the payload of a message differs"); datastream_free(p); msg_free(m); break; }
            case 31: { // addresses
                SalticidaeCError e; e.code = 77; e.oscode = 77; std::string t; switch (c.u(3)) { case 0: t = "10.1." + std::to_string(c.u(300)) + ".7:" + std::to_string(c.u(70000)); break; case 1: t = "127.0.0.1:" + std::to_string(c.u(65535)); break; case 2: t = "localhost:80"; break; default: { static const char *X[] = {"", ":", "1.2.3.4", "1.2.3.4:", "1.2.3.4:x", "a:b:c", "1.2.3.4:99999", "1.2.3.4:-1"}; t = X[c.u(7)]; } }
                if (t == "localhost:80") t = "127.0.0.1:80";
                auto *a = netaddr_new_from_sipport(t.c_str(), &e); int code = 0; NetAddr m; try { m = NetAddr(t); } catch (SalticidaeError &x) { code = x.get_code(); fails++; }
                PBT_CHECK(!a == !!code && e.code == code, "netaddr_new_from_sipport(\"%s\"): code %d instead of %d", t.c_str(), e.code, code); if (a) { PBT_CHECK(*a == m && netaddr_get_ip(a) == m.ip && netaddr_get_port(a) == m.port && netaddr_is_null(a) == m.is_null(), "netaddr_new_from_sipport: another address"); auto *b = netaddr_copy(a); PBT_CHECK(netaddr_is_eq(a, b), "a copied address differs"); 
                    auto *id = peerid_new_from_netaddr(a); PBT_CHECK(*id == PeerId(m) && uint256_is_eq(peerid_as_uint256(id), &static_cast<const uint256_t &>(PeerId(m))), "the peer id of an address differs"); auto *id2 = peerid_new_copied_from_uint256(peerid_as_uint256(id)); PBT_CHECK(*id2 == *id, "a copied peer id differs"); uint256_t raw(*id); auto *id3 = peerid_new_moved_from_uint256(&raw); PBT_CHECK(*id3 == *id, "a moved peer id differs");
                    const peerid_t *l[3] = {id, id2, id3}; auto *arr = peerid_array_new_from_peers(l, 3); PBT_CHECK(arr->size() == 3 && (*arr)[2] == *id, "a peer id array differs"); peerid_array_free(arr);
                    const netaddr_t *la[2] = {a, b}; auto *na = netaddr_array_new_from_addrs(la, 2); PBT_CHECK(na->size() == 2 && (*na)[0] == m && (*na)[1] == m, "an address array differs"); netaddr_array_free(na);
                    peerid_free(id); peerid_free(id2); peerid_free(id3); netaddr_free(b); netaddr_free(a); }
                break; }
            case 32: { SalticidaeCError e; e.code = 77; uint32_t ip = c.edge64(); uint16_t port = c.edge64(); auto *a = netaddr_new_from_ip_port(ip, port, &e); NetAddr m(ip, port); PBT_CHECK(a && !e.code && *a == m && netaddr_get_ip(a) == m.ip && netaddr_get_port(a) == m.port, "netaddr_new_from_ip_port: another address"); auto *z = netaddr_new(); PBT_CHECK(netaddr_is_null(z) && netaddr_is_eq(a, z) == (m == NetAddr()), "a new address is not null"); netaddr_free(z); netaddr_free(a);
                std::string t = c.coin() ? "8.8.4.4" : "8.8.4.400"; a = netaddr_new_from_sip_port(t.c_str(), port, &e); int code = 0; try { m = NetAddr(t, port); } catch (SalticidaeError &x) { code = x.get_code(); fails++; } PBT_CHECK(!a == !!code && e.code == code, "netaddr_new_from_sip_port: code %d instead of %d", e.code, code); if (a) { PBT_CHECK(*a == m, "netaddr_new_from_sip_port: another address"); netaddr_free(a); } break; }
            default: { int code = c.u(40) - 4; const char *t = salticidae_strerror(code); bool known = code >= 0 && code <= SALTI_ERROR_CONN_OVERSIZED_MSG; PBT_CHECK(t && (known ? std::string(SalticidaeError(code).what()) == t : std::string(t) == "invalid"), "salticidae_strerror(%d) is \"%s\"", code, t); break; }
        }
#undef PUT
#undef GET
        for (auto &x: S) chk_s(x); for (auto &x: B) chk_b(x);
        if (B.size() > 4) { bytearray_free(B[0].c); B.erase(B.begin()); }
        if (S.size() > 4) { datastream_free(S[0].c); S.erase(S.begin()); }
    }
    for (auto &x: S) datastream_free(x.c); for (auto &x: B) bytearray_free(x.c);
    if (gets + puts >= 4) c.nontrivial(); if (fails) c.label("failures"); if (msgs) c.label("messages"); if (gets) c.label("reads");
    c.note("%d operations, %u writes, %u reads, %u failures, %u messages", n, puts, gets, fails, msgs);
}
// --- keys and certificates
static void t_crypto(Ctx &c) {
    int id = c.u(2); SalticidaeCError e; e.code = 77; bytearray_t der = g_ids[id].cert, kd = g_ids[id].key; bool bad = c.coin();
    if (bad) for (int i = 0; i < 1 + (int)c.u(2); i++) { auto &d = c.coin() ? der : kd; if (d.empty()) continue; if (c.coin()) d[c.u(std::min<size_t>(d.size(), 40) - 1)] ^= 1 << c.u(7); else d.resize(c.u(d.size() - 1)); }
    int code = 0; bytearray_t md, pub; try { auto x = salticidae::X509::create_from_der(der); md = x.get_der(); } catch (SalticidaeError &x) { code = x.get_code(); }
    auto *x = x509_new_from_der(&der, &e); PBT_CHECK(!x == !!code && e.code == code, "x509_new_from_der: code %d instead of %d", e.code, code);
    if (x) { auto *d = x509_get_der(x); PBT_CHECK(same(*d, md), "x509_get_der differs"); bytearray_free(d); if (!bad) { auto *k = x509_get_pubkey(x); auto *p = pkey_get_pubkey_der(k); PBT_CHECK(same(*p, salticidae::X509::create_from_der(der).get_pubkey().get_pubkey_der()), "x509_get_pubkey differs"); pub = *p; bytearray_free(p); pkey_free(k); auto *pid = peerid_new_from_x509(x); PBT_CHECK(*pid == PeerId(*x), "peerid_new_from_x509 differs"); peerid_free(pid); } x509_free(x); }
    code = 0; try { auto k = PKey::create_privkey_from_der(kd); md = k.get_privkey_der(); } catch (SalticidaeError &x) { code = x.get_code(); }
    e.code = 77; auto *k = pkey_new_privkey_from_der(&kd, &e); PBT_CHECK(!k == !!code && e.code == code, "pkey_new_privkey_from_der: code %d instead of %d", e.code, code);
    if (k) { auto *d = pkey_get_privkey_der(k); PBT_CHECK(same(*d, md), "pkey_get_privkey_der differs"); bytearray_free(d); if (!bad) { d = pkey_get_pubkey_der(k); PBT_CHECK(same(*d, pub), "the public key of a private key differs from its certificate's"); bytearray_free(d); } pkey_free(k); }
    e.code = 77; auto *y = x509_new_from_pem_file("/nonexistent/x.pem", c.coin() ? "pw" : nullptr, &e); PBT_CHECK(!y && e.code, "a certificate is read from a file that does not exist"); 
    e.code = 77; auto *z = pkey_new_privkey_from_pem_file("/nonexistent/x.pem", c.coin() ? "pw" : nullptr, &e); PBT_CHECK(!z && e.code, "a key is read from a file that does not exist");
    ERR_clear_error(); c.nontrivial(); if (bad) c.label("malformed"); c.note("identity %d, %s", id, bad ? "malformed" : "valid");
}
// --- timers, queues and calls of an event loop
struct Tm { timerev_t *ev = nullptr; unsigned fired = 0, want = 0; double due = -1; int tag = 0, got = -1; };
struct LoopSt { unsigned calls = 0, bad = 0, next = 0; std::vector<uintptr_t> out; unsigned burst = 0; EventContext *ec = nullptr; int tid = -1; std::vector<Tm> tm; };
static LoopSt *L;
static void on_call(threadcall_handle_t *h, void *u) { if (!h || sched::self() != L->tid || (uintptr_t)u != L->calls) L->bad++; L->calls++; }
static bool on_queue(mpscqueue_t *q, void *u) { if (u != (void *)L) L->bad++; void *e; unsigned n = 0; while (mpscqueue_try_dequeue(q, &e)) { L->out.push_back((uintptr_t)e); if (++n == L->burst) return true; } return false; }
static void tick(timerev_t *ev, void *u, int tag) { Tm &t = *(Tm *)u; t.fired++; t.got = tag; if (ev != t.ev) L->bad++; if (t.due < 0 || sim::now() < t.due - 0.0015 || sim::now() > t.due + 0.02) L->bad++; if (t.tag != tag) L->bad++; t.want++; t.due = -1; }
static void on_timer0(timerev_t *ev, void *u) { tick(ev, u, 0); }
static void on_timer1(timerev_t *ev, void *u) { tick(ev, u, 1); }
static void on_stop(threadcall_handle_t *, void *u) { eventcontext_stop((eventcontext_t *)u); }
static void t_loop(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        LoopSt st; L = &st; auto *ec = eventcontext_new(); auto *tc = threadcall_new(ec); auto *q = mpscqueue_new(); size_t cap = c.coin() ? 0 : 1 + c.u(6); st.burst = 1 + c.u(3); bool reg = true;
        st.tm.resize(1 + c.u(2)); for (auto &t: st.tm) t.ev = timerev_new(ec, on_timer0, &t);
        PBT_CHECK(threadcall_get_ec(tc)->get() == ec->get() && timerev_get_ec(st.tm[0].ev)->get() == ec->get(), "an object belongs to another loop");
        mpscqueue_reg_handler(q, ec, on_queue, &st); if (cap) mpscqueue_set_capacity(q, cap);
        std::thread th([&]() { st.tid = sched::self(); eventcontext_dispatch(ec); });
        sim::settle(); uintptr_t calls = 0, in = 0; unsigned refused = 0; int n = c.size(30);
        auto onloop = [&](std::function<void()> f) { struct B { std::function<void()> f; bool done = false; } b; b.f = f; threadcall_async_call(tc, [](threadcall_handle_t *, void *u) { auto *b = (B *)u; b->f(); b->done = true; }, &b); PBT_CHECK(sim::await([&]() { return b.done; }, 1), "a cross-thread call is not executed"); };
        for (int k = 0; k < n; k++) {
            Tm &t = st.tm[c.u(st.tm.size() - 1)];
            switch (c.u(7)) {
                case 0: case 1: for (int m = c.u(5); m >= 0; m--) threadcall_async_call(tc, on_call, (void *)calls++); break;
                case 2: case 3: for (int m = c.u(8); m >= 0; m--) { bool unb = c.chance(1, 4); bool r = mpscqueue_enqueue(q, (void *)(in + 1), unb); if (r) in++; else { refused++; PBT_CHECK(!unb, "an element is refused although it needs no free space"); } } break;
                case 4: { double s = 0.001 * (1 + c.u(400)); onloop([&]() { timerev_add(t.ev, s); t.due = sim::now() + s; }); break; }
                case 5: onloop([&]() { if (c.coin()) timerev_del(t.ev); else { timerev_del(t.ev); t.tag = c.u(1); timerev_set_callback(t.ev, t.tag ? on_timer1 : on_timer0, &t); } t.due = -1; }); break;
                case 6: sim::advance(0.01 * c.u(60)); break;
                case 7: sim::settle(); if (c.chance(1, 4)) { onloop([&]() { if (reg) mpscqueue_unreg_handler(q); else mpscqueue_reg_handler(q, ec, on_queue, &st); }); reg = !reg; } break;
            }
        }
        if (!reg) { onloop([&]() { mpscqueue_reg_handler(q, ec, on_queue, &st); }); }
        sim::advance(1);
        PBT_CHECK(!st.bad, "%u callbacks with wrong arguments, at a wrong time or on a wrong thread", st.bad);
        PBT_CHECK(st.calls == calls, "%u of %zu cross-thread calls are executed", st.calls, (size_t)calls);
        PBT_CHECK(st.out.size() == in, "%zu of %zu queued elements are handed over", st.out.size(), (size_t)in); for (size_t i = 0; i < in; i++) PBT_CHECK(st.out[i] == i + 1, "queued elements are handed over in another order");
        for (auto &t: st.tm) PBT_CHECK(t.due < 0, "a timer does not fire");
        threadcall_async_call(tc, on_stop, ec); th.join();
        for (auto &t: st.tm) { if (c.coin()) timerev_clear(t.ev); timerev_free(t.ev); }
        mpscqueue_free(q); threadcall_free(tc); eventcontext_free(ec);
        unsigned f = 0; for (auto &t: st.tm) f += t.fired; if (calls + in >= 3) c.nontrivial(); if (f) c.label("timers fired"); if (refused) c.label("refused");
        c.note("%zu calls, %zu elements, %u refused, %u timer firings", (size_t)calls, (size_t)in, refused, f);
    });
}
// --- a network driven through the C interface against a C++ one
struct Rx { uint32_t magic; uint8_t op; Bytes d; };
struct Side { std::vector<Rx> got; unsigned up = 0, down = 0, wrong = 0; std::map<int32_t, std::vector<int>> errs; std::vector<int> other; msgnetwork_conn_t *conn = nullptr; msgnetwork_t *net = nullptr; std::vector<std::pair<std::string, bool>> unknown; unsigned pup = 0, pdown = 0; };
static Bytes payload_of(const msg_t *m) { auto *p = msg_consume_payload(m); Bytes d(datastream_data(p), datastream_data(p) + datastream_size(p)); datastream_free(p); return d; }
static void c_msg(const msg_t *m, const msgnetwork_conn_t *conn, void *u) { Side &s = *(Side *)u; Quiet q; if (msgnetwork_conn_get_net(conn) != s.net) s.wrong++; s.got.push_back(Rx{msg_get_magic(m), msg_get_opcode(m), payload_of(m)}); }
static bool c_conn(const msgnetwork_conn_t *conn, bool up, void *u) { Side &s = *(Side *)u; if (up) { s.up++; if (s.conn) msgnetwork_conn_free(s.conn); s.conn = msgnetwork_conn_copy(conn); } else s.down++; return true; }
static void c_err(const SalticidaeCError *e, bool fatal, int32_t id, void *u) { Side &s = *(Side *)u; if (fatal) s.wrong++; Quiet q; if (id >= 0) s.errs[id].push_back(e->code); else s.other.push_back(e->code); }
static void c_peer(const peernetwork_conn_t *conn, bool up, void *u) { Side &s = *(Side *)u; (void)conn; if (up) s.pup++; else s.pdown++; }
static void c_unknown(const netaddr_t *a, const x509_t *x, void *u) { Side &s = *(Side *)u; Quiet q; s.unknown.push_back({std::string(*a), !!x}); }
static msg_t *mk(uint8_t op, const Bytes &d, uint32_t magic) { auto *a = bytearray_new_from_bytes(d.data(), d.size()); auto *m = msg_new_moved_from_bytearray(op, a); bytearray_free(a); msg_set_magic(m, magic); return m; }
static void t_net(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; sim::set_prof(pr);
        int kind = c.u(2); size_t sb = c.coin() ? 0 : 1 + c.u(4), mq = 65536; SalticidaeCError e;       // 0 messages, 1 clients, 2 peers
        Loop la, lb; Side A; std::vector<Rx> gotB; conn_t connB; unsigned upB = 0; uint32_t nB = 0; unsigned refusals = 0;
        auto *pc = peernetwork_config_new(); auto *mc = peernetwork_config_as_msgnetwork_config(pc);
        msgnetwork_config_nworker(mc, 1 + c.u(1)); msgnetwork_config_max_msg_size(mc, 5000); msgnetwork_config_max_msg_queue_size(mc, mq); msgnetwork_config_conn_server_timeout(mc, 0.5); if (sb) msgnetwork_config_max_send_buff_size(mc, sb); if (c.coin()) msgnetwork_config_burst_size(mc, 1 + c.u(5)); if (c.coin()) msgnetwork_config_recv_chunk_size(mc, 64 + c.u(4000)); peernetwork_config_ping_period(pc, 0.7); peernetwork_config_conn_timeout(pc, 4); peernetwork_config_id_mode(pc, ID_MODE_ADDR_BASED);
        msgnetwork_t *a = nullptr; peernetwork_t *pa = nullptr; clientnetwork_t *ca = nullptr; e.code = 77;
        if (kind == 0) a = msgnetwork_new(&la.ec, mc, &e); else if (kind == 1) a = clientnetwork_as_msgnetwork(ca = clientnetwork_new(&la.ec, mc, &e)); else a = peernetwork_as_msgnetwork(pa = peernetwork_new(&la.ec, pc, &e));
        PBT_CHECK(a && !e.code, "no network is made (%d)", e.code); A.net = a;
        for (int op = 0; op < 4; op++) msgnetwork_reg_handler(a, op, c_msg, &A);
        if (kind < 2) msgnetwork_reg_conn_handler(a, c_conn, &A); msgnetwork_reg_error_handler(a, c_err, &A); if (pa) { peernetwork_reg_peer_handler(pa, c_peer, &A); peernetwork_reg_unknown_peer_handler(pa, c_unknown, &A); }
        Net::Config cb; cb.max_msg_size(5000); cb.conn_server_timeout(0.5); PNet27::Config pb(cb); pb.id_mode(PNet27::ADDR_BASED); pb.ping_period(0.7); pb.conn_timeout(4);
        std::unique_ptr<Net> b; PNet27 *bp = nullptr; if (pa) b.reset(bp = new PNet27(lb.ec, pb)); else b.reset(new Net(lb.ec, cb));
        for (int op = 0; op < 4; op++) b->set_handler(op, [&](const Net::Msg &m, const conn_t &conn) { Quiet q; auto p = m.get_payload(); gotB.push_back(Rx{m.get_magic(), m.get_opcode(), Bytes(p.data(), p.data() + p.size())}); (void)conn; });
        if (!bp) b->reg_conn_handler([&](const ConnPool::conn_t &conn, bool up) { if (up) { upB++; connB = static_pointer_cast<Net::Conn>(conn); } return true; });
        b->reg_error_handler([&](const std::exception_ptr, bool fatal, int32_t) { PBT_CHECK(!fatal, "fatal error"); });
        msgnetwork_start(a); b->start(); la.start(); lb.start();
        auto *na = netaddr_new_from_sip_port("127.0.0.1", 20000, &e), *nb = netaddr_new_from_sip_port("127.0.0.1", 20001, &e); PeerId ida(at(20000)), idb(at(20001)); auto *pid = peerid_new_from_netaddr(nb);
        e.code = 77; if (pa) peernetwork_listen(pa, na, &e); else msgnetwork_listen(a, na, &e); PBT_CHECK(!e.code, "listening fails (%d)", e.code); if (bp) bp->listen(at(20001)); else b->listen(at(20001));
        std::vector<std::pair<int32_t, int>> want; std::vector<Rx> sentA, sentB; msgnetwork_conn_t *cc = nullptr; NetAddr addrB; msgnetwork_conn_t *dead = nullptr;
        auto mkrx = [&]() { Rx r{(uint32_t)c.edge64(), (uint8_t)c.u(3), c.bytes(c.chance(1, 6) ? c.u(4000) : c.u(60))}; return r; };
        // errors before there is anything to talk to
        if (pa) {
            e.code = 77; auto *x = peernetwork_get_peer_conn(pa, pid, &e); PBT_CHECK(!x && e.code == SALTI_ERROR_PEER_NOT_EXIST, "peernetwork_get_peer_conn of an unknown peer: code %d", e.code);
            auto r = mkrx(); auto *m = mk(r.op, r.d, r.magic); PBT_CHECK(!peernetwork_send_msg(pa, m, pid), "a message to an unknown peer is reported as accepted"); want.push_back({peernetwork_send_msg_deferred_by_move(pa, m, pid), SALTI_ERROR_PEER_NOT_EXIST}); msg_free(m);
            want.push_back({peernetwork_conn_peer(pa, pid, -1, 0.3), SALTI_ERROR_PEER_NOT_EXIST}); want.push_back({peernetwork_del_peer(pa, pid), SALTI_ERROR_PEER_NOT_EXIST}); want.push_back({peernetwork_set_peer_addr(pa, pid, nb), SALTI_ERROR_PEER_NOT_EXIST});
            PBT_CHECK(!peernetwork_has_peer(pa, pid), "an unknown peer is known");
            want.push_back({peernetwork_add_peer(pa, pid), 0}); want.push_back({peernetwork_add_peer(pa, pid), SALTI_ERROR_PEER_ALREADY_EXISTS}); want.push_back({peernetwork_conn_peer(pa, pid, -1, 0.3), SALTI_ERROR_PEER_NOT_READY}); PBT_CHECK(peernetwork_has_peer(pa, pid), "an added peer is not known");
            e.code = 77; x = peernetwork_get_peer_conn(pa, pid, &e); PBT_CHECK(x && !e.code, "no connection object for a known peer (%d)", e.code); peernetwork_conn_free(x);
            // the queue of a peer that is not connected
            PNet27::Config pr2(pb); if (sb) pr2.max_send_buff_size(sb); std::unique_ptr<PNet27> ref(new PNet27(lb.ec, pr2)); ref->start(); ref->add_peer(idb); PBT_CHECK(ref->has_peer(idb), "an added peer is not known");      // the same through C++
            int n = c.u(12); for (int k = 0; k < n; k++) { auto r = mkrx(); auto *m = mk(r.op, r.d, r.magic); bool ok = peernetwork_send_msg(pa, m, pid), exp = ref->_send_msg(Net::Msg(r.op, ba(r.d)), idb); PBT_CHECK(exp || sb, "a message is refused although there is no limit"); if (!exp) refusals++; PBT_CHECK(ok == exp, "a message to a peer with %zu queued (limit %zu) is reported as %s", sentA.size(), sb, ok ? "accepted" : "refused"); if (exp) sentA.push_back(r); msg_free(m); }
            lb.run([&]() { ref->stop(); }); sim::settle(); ref.reset();
            if (c.chance(1, 4)) { bp->add_peer(ida); bp->set_peer_addr(ida, at(20000)); bp->conn_peer(ida, -1, 0.3); } else { bp->add_peer(ida); want.push_back({peernetwork_set_peer_addr(pa, pid, nb), 0}); want.push_back({peernetwork_conn_peer(pa, pid, -1, 0.3), 0}); }
            PBT_CHECK(bp->has_peer(ida), "an added peer is not known");
            PBT_CHECK(sim::await([&]() { return A.pup > 0; }, 60), "the peers are not connected"); sim::advance(1);
            { auto *x = peernetwork_get_peer_conn(pa, pid, &e); auto *i2 = peernetwork_conn_get_peer_id(x); PBT_CHECK(*i2 == idb, "the connection has another peer id"); peerid_free(i2); cc = msgnetwork_conn_new_from_peernetwork_conn(x); auto *y = peernetwork_conn_new_from_msgnetwork_conn_unsafe(cc); PBT_CHECK(y->get() == x->get(), "a connection object changes its identity"); auto *z = peernetwork_conn_copy(y); auto *pa2 = peernetwork_conn_get_peer_addr(z); PBT_CHECK(*pa2 == (*x)->get_peer_addr(), "the peer's address differs"); netaddr_free(pa2); peernetwork_conn_free(z); peernetwork_conn_free(y); peernetwork_conn_free(x); }
        } else {
            e.code = 77; auto *no = netaddr_new_from_sip_port("127.0.0.1", 20009, &e);
            if (kind == 1) { auto r = mkrx(); auto *m = mk(r.op, r.d, r.magic); PBT_CHECK(!clientnetwork_send_msg(ca, m, no), "a message to an unknown client is reported as accepted"); want.push_back({clientnetwork_send_msg_deferred_by_move(ca, m, no), SALTI_ERROR_CLIENT_NOT_EXIST}); msg_free(m); }
            netaddr_free(no);
            if (kind == 0 && c.coin()) { e.code = 77; cc = msgnetwork_connect_sync(a, nb, &e); PBT_CHECK(cc && !e.code, "connecting fails (%d)", e.code); PBT_CHECK(msgnetwork_conn_get_mode(cc) == CONN_MODE_ACTIVE && *msgnetwork_conn_get_addr(cc) == at(20001), "mode or address of a connection differ"); PBT_CHECK(sim::await([&]() { return upB > 0; }, 2), "not connected"); }
            else { b->connect(at(20000)); PBT_CHECK(sim::await([&]() { return A.conn && upB; }, 2), "not connected"); sim::settle(); cc = msgnetwork_conn_copy(A.conn); PBT_CHECK(msgnetwork_conn_get_mode(cc) == CONN_MODE_PASSIVE, "the mode of a connection differs"); }
            sim::settle(); PBT_CHECK(!msgnetwork_conn_is_terminated(cc) && !msgnetwork_conn_get_peer_cert(cc), "a live connection differs"); addrB = *msgnetwork_conn_get_addr(cc);
        }
        PBT_CHECK(msgnetwork_conn_get_net(cc) == a, "a connection belongs to another network");
        int n = c.size(14);
        for (int k = 0; k < n; k++) {
            auto r = mkrx();
            if (c.coin()) { // from the C side
                auto *m = mk(r.op, r.d, r.magic); bool ok = true; int w = c.u(3); auto *ad = &addrB;
                if (w == 0) ok = msgnetwork_send_msg(a, m, cc);
                else if (w == 1) want.push_back({msgnetwork_send_msg_deferred_by_move(a, m, cc), sb ? -1 : 0});
                else if (pa) { if (w == 2) ok = peernetwork_send_msg(pa, m, pid); else { const peerid_t *l[1] = {pid}; auto *arr = peerid_array_new_from_peers(l, 1); want.push_back({peernetwork_multicast_msg_by_move(pa, m, arr), sb ? -1 : 0}); peerid_array_free(arr); } }
                else if (ca) { if (w == 2) ok = clientnetwork_send_msg(ca, m, ad); else want.push_back({clientnetwork_send_msg_deferred_by_move(ca, m, ad), sb ? -1 : 0}); }
                else ok = msgnetwork_send_msg(a, m, cc);
                PBT_CHECK(ok || sb, "a message is refused although there is no limit"); msg_free(m);
                if (!ok) refusals++; else sentA.push_back(r);
                if (w == 1 || w == 3 || (sb && c.coin())) sim::settle();       // deferred messages are ordered by the dispatcher
            } else { Net::Msg m(r.op, ba(r.d)); m.set_magic(r.magic); bool ok = bp ? bp->_send_msg(m, ida) : b->_send_msg(m, connB); if (ok) sentB.push_back(r); else fail("a message is refused although there is no limit"); nB++; }
            if (c.coin()) sim::advance(0.01 * c.u(30));
        }
        // a send buffer that is full is reported by the interface it is used through
        if (sb && ca) { int fd = -1; (void)fd; unsigned ok = 0; sim::settle(); for (unsigned k = 0; k < sb + 2 && !refusals; k++) { auto r = mkrx(); r.d.resize(10); auto *m = mk(r.op, r.d, r.magic); bool x = clientnetwork_send_msg(ca, m, &addrB); msg_free(m); if (x) { ok++; sentA.push_back(r); } else refusals++; } }
        sim::advance(4);
        if (sb) { std::vector<Rx> f; size_t j = 0; for (auto &t: want) if (t.second < 0) { auto it = A.errs.find(t.first); if (it != A.errs.end()) PBT_CHECK(it->second.size() == 1 && it->second[0] == SALTI_ERROR_CONN_NOT_READY, "a refused deferred message is reported with code %d", it->second[0]); t.second = it == A.errs.end() ? 0 : SALTI_ERROR_CONN_NOT_READY; } (void)f; (void)j; }
        auto cmp = [&](std::vector<Rx> &s, std::vector<Rx> &g, const char *w, bool lossy) { size_t j = 0; for (auto &x: g) { while (j < s.size() && !(s[j].magic == x.magic && s[j].op == x.op && s[j].d == x.d)) { PBT_CHECK(lossy, "%s: a message arrives with another content (opcode %d, %zu bytes) or not at all", w, x.op, x.d.size()); j++; } PBT_CHECK(j < s.size(), "%s: a message arrives that was not sent, or in another order", w); j++; } PBT_CHECK(lossy || j == s.size(), "%s: %zu of %zu messages arrive", w, g.size(), s.size()); };
        size_t lost = 0; for (auto &t: want) if (t.second == SALTI_ERROR_CONN_NOT_READY) lost++;
        cmp(sentA, gotB, "from C to C++", lost > 0); PBT_CHECK(gotB.size() == sentA.size() - lost, "from C to C++: %zu of %zu accepted messages arrive", gotB.size(), sentA.size() - lost); cmp(sentB, A.got, "from C++ to C", false); PBT_CHECK(!A.wrong, "a callback has wrong arguments or a fatal error is reported");
        la.run([]() {}); { Quiet q; for (auto &t: want) { auto it = A.errs.find(t.first); size_t m = it == A.errs.end() ? 0 : it->second.size(); PBT_CHECK(t.second ? m == 1 && it->second[0] == t.second : m == 0, "%zu errors (%d) are reported for a call that should %s (%d)", m, m ? it->second[0] : 0, t.second ? "fail" : "succeed", t.second); } }
        if (pa && c.coin()) { auto *x = new PNet27(lb.ec, pb); x->start(); x->listen(at(20005)); x->add_peer(ida); x->set_peer_addr(ida, at(20000)); x->conn_peer(ida, 1, 1); sim::advance(1); PBT_CHECK(A.unknown.size() >= 1 && A.unknown[0].first == std::string(at(20005)) && !A.unknown[0].second, "an unknown peer is not reported"); lb.run([x]() { x->stop(); }); sim::settle(); delete x; }
        // ending
        if (!pa) { msgnetwork_terminate(a, cc); sim::settle(); sim::advance(0.1); PBT_CHECK(msgnetwork_conn_is_terminated(cc), "a terminated connection is not reported as such"); PBT_CHECK(A.up == A.down && A.up >= 1, "%u connections are reported as established, %u as ended", A.up, A.down); auto r = mkrx(); auto *m = mk(r.op, r.d, r.magic);
            if (ca) PBT_CHECK(!clientnetwork_send_msg(ca, m, &addrB), "a message to a client that left is reported as accepted"); msg_free(m); }
        else { want.clear(); peernetwork_del_peer(pa, pid); sim::settle(); sim::advance(0.2); PBT_CHECK(!peernetwork_has_peer(pa, pid), "a deleted peer is known"); auto r = mkrx(); auto *m = mk(r.op, r.d, r.magic); PBT_CHECK(!peernetwork_send_msg(pa, m, pid), "a message to a deleted peer is reported as accepted"); msg_free(m); }
        if (sentA.size() + sentB.size() >= 2) c.nontrivial(); c.label(kind == 0 ? "message network" : kind == 1 ? "client network" : "peer network"); if (refusals) c.label("full send buffer"); c.note("%s, %zu messages from C, %zu to C, %u refusals, %zu expected errors", kind == 0 ? "messages" : kind == 1 ? "clients" : "peers", sentA.size(), sentB.size(), refusals, want.size());
        msgnetwork_conn_free(cc); if (A.conn) msgnetwork_conn_free(A.conn); connB = nullptr; netaddr_free(na); netaddr_free(nb); peerid_free(pid); peernetwork_config_free(pc);
        la.stop(); lb.stop(); if (c.coin()) msgnetwork_stop(a); if (pa) peernetwork_free(pa); else if (ca) clientnetwork_free(ca); else msgnetwork_free(a); b.reset();
        PBT_CHECK(!sim::open_socks(), "sockets stay open");
    });
}
int main(int argc, char **argv) { make_idents(3); pbt::Opts o; o.batch = 32; return pbt::main_(argc, argv, {{"values", t_values, 4}, {"crypto", t_crypto, 1}, {"loop", t_loop, 2}, {"net", t_net, 3}}, o); }
