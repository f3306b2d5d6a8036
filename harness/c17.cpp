// C17: acceptance of TLS connections, against generated clients, decisions and broken remote ends.
#include "rawtls.h"
typedef MsgNetwork<uint8_t> Net;
typedef Net::conn_t conn_t;
typedef MsgT<1> M1;
static const int NID = 5;
static std::set<Bytes> g_trusted;     // for the verification callback
static int verify_cb(int, X509_STORE_CTX *st) {
    ::X509 *x = X509_STORE_CTX_get_current_cert(st); unsigned char *p = nullptr; int l = i2d_X509(x, &p);
    Bytes d(p, p + l); OPENSSL_free(p);
    bool ok = g_trusted.count(d); if (ok) X509_STORE_CTX_set_error(st, X509_V_OK);
    return ok;
}
struct Cli { int id; Loop *lp; Net *net; conn_t conn; unsigned up = 0, down = 0, sent = 0, greeted = 0; bool eager, refuse = false; };
static void t_accept(Ctx &c) {
    sim::g_tls = true;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 100; if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 100; sim::set_prof(pr);
        Net::Config cfg; cfg.nworker(c.coin() ? 1 : 2); use_tls(cfg, 0); cfg.max_msg_size(4096);
        int mode = c.u(3);      // 0, 1: no CA check (default); 2: CA check without callback; 3: with a callback
        g_trusted.clear(); std::set<int> trusted;
        if (mode >= 2) cfg.tls_skip_ca_check(false);
        if (mode == 3) { cfg.tls_verify_callback(verify_cb); for (int i = 1; i < NID; i++) if (c.coin()) { trusted.insert(i); g_trusted.insert(Bytes(g_ids[i].cert.begin(), g_ids[i].cert.end())); } }
        auto trust = [&](int id) { return mode < 2 || (mode == 3 && trusted.count(id)); };
        std::set<int> deny; for (int i = 1; i < NID; i++) if (c.chance(1, 3)) deny.insert(i);
        Loop la; Net R(la.ec, cfg); std::string err;
        std::set<void *> accepted, refused; std::map<void *, int> who; std::vector<conn_t> hold; std::map<int, unsigned> ups, downs; std::map<int, unsigned> got; unsigned anon = 0; bool slow = c.coin(), greet = c.coin(); size_t handled = 0; bool closing = false;
        std::map<int, unsigned> next;
        R.reg_conn_handler([&](const ConnPool::conn_t &conn, bool up) {
            if (up) {
                PBT_CHECK(conn->get_peer_cert(), "a connection is reported without a certificate");
                auto d = conn->get_peer_cert()->get_der(); int id = -1;
                for (int i = 0; i < NID; i++) if (g_ids[i].cert == d) id = i;
                PBT_CHECK(id >= 1, "the certificate shown belongs to nobody who connected (%d)", id);
                PBT_CHECK(trust(id), "a certificate that the verification rejects produces a connection");
                who[conn.get()] = id; hold.push_back(static_pointer_cast<Net::Conn>(conn)); ups[id]++;
                if (slow) sim::await([]() { return false; }, 0.02);
                bool ok = !deny.count(id);
                (ok ? accepted : refused).insert(conn.get());
                if (greet) R.send_msg(M1(0xffffff, 0, 30), static_pointer_cast<Net::Conn>(conn));
                return ok;
            }
            auto it = who.find(conn.get()); if (it != who.end()) downs[it->second]++; else anon++;
            return true;
        });
        R.reg_handler([&](M1 &&m, const conn_t &conn) {
            PBT_CHECK(who.count(conn.get()), "a message is handled on a connection that was never reported");
            PBT_CHECK(!refused.count(conn.get()), "a message is handled on a connection that was refused");
            PBT_CHECK(accepted.count(conn.get()), "a message is handled before its connection is accepted");
            PBT_CHECK((int)(m.src & 255) == who[conn.get()], "a message of client %u arrives on a connection with the certificate of %d", m.src & 255, who[conn.get()]);
            PBT_CHECK(m.good() && m.seq == next[m.src], "message %u of stream %x instead of %u", m.seq, m.src, next[m.src]);
            next[m.src]++; handled++;
            R.send_msg(M1(m.src, m.seq, 4), conn);
        });
        R.reg_error_handler([&](const std::exception_ptr e, bool fatal, int32_t) { try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); } PBT_CHECK(!fatal, "fatal error (%s)", err.c_str()); });
        R.start(); la.start(); R.listen(at(20000));
        std::vector<std::unique_ptr<Cli>> cl; unsigned replies = 0, nself = 0; std::map<uint32_t, unsigned> nback;
        auto mkcli = [&](int id) {
            auto x = new Cli(); x->id = id; x->lp = new Loop(); x->eager = c.coin(); x->refuse = c.chance(1, 4); if (x->refuse) { x->eager = false; nself++; } cl.emplace_back(x); int k = cl.size();
            Net::Config cc; use_tls(cc, id); x->net = new Net(x->lp->ec, cc);
            x->net->reg_conn_handler([&, x, k](const ConnPool::conn_t &conn, bool up) {
                if (up) { x->up++; PBT_CHECK(conn->get_peer_cert() && conn->get_peer_cert()->get_der() == g_ids[0].cert, "the client is shown a certificate that is not the server's"); 
                    auto mc = static_pointer_cast<Net::Conn>(conn);
                    if (x->eager) for (int i = 0; i < 3; i++) x->net->send_msg(M1(k << 8 | x->id, x->sent++, 40), mc);
                    if (x->refuse) { if (slow) sim::await([]() { return false; }, 0.02); return false; }
                    x->conn = mc; }
                else if (!closing) x->down++;
                return true;
            });
            x->net->reg_handler([&, x, k](M1 &&m, const conn_t &) { PBT_CHECK(!x->refuse, "a client handles a message on a connection that it refused"); if (m.src == 0xffffff) { PBT_CHECK(m.good() && greet && !x->greeted, "a wrong greeting"); x->greeted++; return; } PBT_CHECK(m.src == (uint32_t)(k << 8 | x->id) && m.good() && m.seq == nback[m.src], "a wrong reply"); nback[m.src]++; replies++; });
            x->net->reg_error_handler([&](const std::exception_ptr, bool fatal, int32_t) { PBT_CHECK(!fatal, "fatal error"); });
            x->net->start(); x->lp->start();
            if (c.coin()) x->net->connect(at(20000)); else { x->eager = false; auto cn = x->net->connect_sync(at(20000)); if (!x->refuse) x->conn = cn; if (!x->refuse && c.coin()) for (int i = 0; i < 2; i++) x->net->send_msg(M1(k << 8 | id, x->sent++, 40), x->conn); }
        };
        int n = 2 + c.size(6); unsigned broken = 0, ndeny = 0; std::vector<int> raws; std::map<int, unsigned> rawok, rawmay;
        unsigned raw_src = 100;
        for (int k = 0; k < n; k++) {
            switch (c.u(6)) {
                case 0: case 1: case 2: { if (cl.size() >= 4) break; int id = 1 + c.u(NID - 2); if (deny.count(id) || !trust(id)) ndeny++; mkcli(id); break; }
                case 3: { // plain text or garbage
                    int f = sim::raw_connect(20000, 51000 + k); broken++;
                    if (c.coin()) sim::raw_send_all(f, enc(1, body(1, 0, 20))); else { Bytes g = content(c.u(9999), 1 + c.u(600)); if (c.coin()) { g[0] = 22; if (g.size() > 4) { g[1] = 3; g[2] = 1; g[3] = 0; } } sim::raw_send_all(f, g); }
                    if (c.coin()) { sim::settle(); sim::raw_close(f); } else raws.push_back(f);
                    break; }
                case 4: { // own client, without certificate
                    int f = sim::raw_connect(20000, 51000 + k); broken++; RawTls t(f, -1, c.coin());
                    t.handshake(); if (t.done) t.send(enc(1, body(raw_src++ << 8 | 1, 0, 10)));
                    t.pump(); raws.push_back(f); break; }
                case 5: { // own client, cut in the middle of the handshake
                    int f = sim::raw_connect(20000, 51000 + k); broken++; int id = 1 + c.u(NID - 2); RawTls t(f, id, c.coin()); t.stop = c.u(1500); bool full = t.handshake() && t.sent < t.stop;
                    rawmay[id]++; (void)full;
                    if (c.coin()) sim::cut(f, (sim::Cut)c.u(1)); sim::raw_close(f); break; }
                case 6: { // own client, complete
                    int f = sim::raw_connect(20000, 51000 + k); int id = 1 + c.u(NID - 2); RawTls t(f, id, c.coin()); t.handshake(); rawmay[id]++;
                    uint32_t s = raw_src++ << 8 | id;
                    if (t.done) { unsigned m = 1 + c.u(3); for (unsigned i = 0; i < m; i++) t.send(enc(1, body(s, i, 10)));
                        t.pump(); sim::advance(0.5);
                        unsigned want = trust(id) && !deny.count(id) ? m : 0;
                        PBT_CHECK(next[s] == want, "%u messages of a client that is %s are handled instead of %u", next[s], want ? "accepted" : "refused", want); }
                    raws.push_back(f); break; }
            }
            for (auto &x: cl) if (x->conn && c.coin()) x->net->send_msg(M1((uint32_t)((&x - &cl[0] + 1) << 8 | x->id), x->sent++, c.u(200)), x->conn);
            if (c.coin()) sim::settle();
        }
        sim::advance(4);
        for (size_t k = 0; k < cl.size(); k++) {
            auto &x = *cl[k]; uint32_t s = (k + 1) << 8 | x.id;
            if (x.refuse) {
                PBT_CHECK(x.up <= 1 && x.down == 1, "a connection that its active side refuses is reported %u times as up and %u times as ended", x.up, x.down);
                PBT_CHECK(!nback[s], "a refused connection is used");
            } else if (trust(x.id) && !deny.count(x.id)) {
                PBT_CHECK(x.greeted == greet, "%u greetings arrive instead of %d", x.greeted, (int)greet);
                PBT_CHECK(x.up == 1 && x.down == 0, "an accepted client is not connected (up %u, down %u; %s)", x.up, x.down, err.c_str());
                PBT_CHECK(next[s] == x.sent && nback[s] == x.sent, "accepted client: %u of %u messages handled, %u replies", next[s], x.sent, nback[s]);
            } else {
                PBT_CHECK(next[s] == 0 && nback[s] == 0, "a refused client is served");
                PBT_CHECK(x.down == 1, "the connection of a refused client stays open");
            }
        }
        std::map<int, unsigned> exp; std::map<int, unsigned> opt; for (auto &x: cl) (x->refuse ? opt : exp)[x->id]++;
        for (int i = 1; i < NID; i++) {
            unsigned lo = trust(i) ? exp[i] : 0, hi = trust(i) ? exp[i] + opt[i] + rawmay[i] : 0;
            PBT_CHECK(ups[i] >= lo && ups[i] <= hi, "%u connections are reported for certificate %d; %u to %u clients presented it", ups[i], i, lo, hi);
            if (deny.count(i)) PBT_CHECK(downs[i] == ups[i], "%u of %u refused connections are closed", downs[i], ups[i]);
        }
        if (broken || ndeny || nself) c.nontrivial(); if (nself) c.label("refusing client");
        if (broken) c.label("broken remote end"); if (ndeny) c.label("refused client"); if (mode >= 2) c.label("CA check");
        c.note("%zu clients, %u refused, %u broken remote ends, %zu messages handled, mode %d", cl.size(), ndeny, broken, handled, mode);
        closing = true;
        for (auto &x: cl) x->lp->stop();
        la.stop(); hold.clear();
        for (auto &x: cl) { x->conn = nullptr; delete x->net; delete x->lp; }
        for (int f: raws) sim::raw_close(f);
    });
}
int main(int argc, char **argv) { make_idents(NID); pbt::Opts o; o.batch = 8; return pbt::main_(argc, argv, {{"accept", t_accept, 1}}, o); }
