// C16: life cycle of connections under generated histories of connects, ends, faults and destruction.
#include "netsim.h"
typedef MsgT<1> M1;
static int g_live;
struct Net: public MsgNetwork<uint8_t> {
    typedef MsgNetwork<uint8_t> Base;
    struct CConn: public Base::Conn { CConn() { g_live++; } ~CConn() { g_live--; } };
    ConnPool::Conn *create_conn() override { return new CConn(); }
    using Base::Base;
};
typedef Net::conn_t conn_t;
struct Info { conn_t conn; unsigned up = 0, down = 0, msgs = 0; int side; };
static void t_life(Ctx &c) {
    sim::g_tls = false; g_live = 0;
    static bool warm = false; if (!warm) { warm = true; EventContext e; }      // descriptors libuv opens once
    std::deque<Info> tr; unsigned fds0 = sim::open_fds(); std::string notes;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.recv_cap && pr.recv_cap < 7) pr.recv_cap = 7; if (pr.send_cap && pr.send_cap < 7) pr.send_cap = 7; sim::set_prof(pr);
        bool tls = c.chance(1, 4); double to = 0.2 + 0.1 * c.u(20);
        Net::Config cfg[2];
        for (int i = 0; i < 2; i++) { cfg[i].nworker(1 + c.u(2)); cfg[i].conn_server_timeout(to); if (tls) use_tls(cfg[i], i); }
        Loop lp0, lp1; Loop *lp[2] = {&lp0, &lp1};
        auto *n0 = new Net(lp0.ec, cfg[0]), *n1 = new Net(lp1.ec, cfg[1]); Net *net[2] = {n0, n1};
        unsigned errs = 0, reconn = 0, nmsg = 0, cbterm = c.u(3), cbre = c.u(2), nterm = 0; std::unordered_map<NetAddr, unsigned> downs; std::string err; bool closing = false;
        std::vector<unsigned> cbdec; for (int i = 0; i < 8; i++) cbdec.push_back(c.u(3));
        auto idx = [&](int side, const ConnPool::conn_t &conn) -> Info & {
            Quiet q;
            for (auto &t: tr) if (t.conn.get() == conn.get()) return t;
            Info t; t.conn = static_pointer_cast<Net::Base::Conn>(conn); t.side = side; tr.push_back(t); return tr.back();
        };
        for (int i = 0; i < 2; i++) {
            net[i]->reg_conn_handler([&, i](const ConnPool::conn_t &conn, bool up) {
                PBT_CHECK(sched::self() == lp[i]->tid, "a connection callback runs outside the user's loop");
                if (closing) return true;
                auto &t = idx(i, conn);
                if (up) {
                    PBT_CHECK(!t.down, "'connected' is reported after 'disconnected'");
                    PBT_CHECK(++t.up == 1, "'connected' is reported %u times", t.up);
                    if (cbterm && cbdec[tr.size() % 8] == 0) { cbterm--; net[i]->terminate(conn); nterm++; }
                } else {
                    PBT_CHECK(++t.down == 1, "'disconnected' is reported %u times", t.down);
                    if (!t.up) downs[conn->get_addr()]++;
                    if (i == 1 && cbre && cbdec[tr.size() % 8] == 1) { cbre--; reconn++; net[i]->connect(at(20000)); }
                }
                return true;
            });
            net[i]->reg_handler([&, i](M1 &&m, const conn_t &conn) {
                if (closing) return;
                auto &t = idx(i, conn); PBT_CHECK(t.up == 1, "a message is handled before 'connected' is reported"); PBT_CHECK(m.good(), "corrupted"); t.msgs++; nmsg++;
                if (m.seq == 77) net[i]->terminate(conn);
                if (m.seq == 78) throw std::runtime_error("handler failure");
            });
            net[i]->reg_error_handler([&](const std::exception_ptr e, bool fatal, int32_t) { errs++; try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); } PBT_CHECK(!fatal, "fatal error: %s", err.c_str()); });
        }
        sim::on_connect = [](uint16_t p) { return p == 23000 ? 1 : 2; };
        int rl = sim::raw_listen(21000); std::vector<int> raws;
        for (int i = 0; i < 2; i++) { net[i]->start(); lp[i]->start(); }
        n0->listen(at(20000));
        unsigned bad = 0, hang = 0, nconn = 0, cuts = 0; std::vector<conn_t> handles; std::vector<std::thread> th;
        int n = c.size(25); 
        auto pickc = [&](int &side) -> conn_t {
            if (tr.empty() && handles.empty()) return nullptr;
            size_t k = c.u(tr.size() + handles.size() - 1);
            if (k < tr.size()) { side = tr[k].side; return tr[k].conn; }
            side = 1; return handles[k - tr.size()];
        };
        for (int k = 0; k < n; k++) {
            int side = 0;
            switch (c.u(11)) {
                case 0: case 1: nconn++; if (c.coin()) handles.push_back(n1->connect_sync(at(20000))); else n1->connect(at(20000)); break;
                case 2: { uint16_t p = c.coin() ? 22000 : 23000; (p == 22000 ? bad : hang)++; if (c.coin()) handles.push_back(n1->connect_sync(at(p))); else n1->connect(at(p)); break; }
                case 3: nconn++; if (c.coin()) handles.push_back(n1->connect_sync(at(21000))); else n1->connect(at(21000)); break;
                case 4: { int f = sim::raw_connect(20000, 51000 + k); if (c.coin()) sim::raw_send_all(f, enc(1, body(1, c.pick(std::vector<uint32_t>{0, 77, 78, 5}), c.u(50)))); if (c.chance(1, 3)) sim::raw_close(f); else raws.push_back(f); break; }
                case 5: { int f; while ((f = sim::raw_accept(rl)) >= 0) { if (c.coin()) sim::raw_send_all(f, enc(1, body(1, 3, 9))); if (c.coin()) sim::raw_close(f); else raws.push_back(f); } break; }
                case 6: if (!raws.empty()) { size_t q = c.u(raws.size() - 1); if (c.coin()) sim::cut(raws[q], (sim::Cut)c.u(2)); sim::raw_close(raws[q]); raws.erase(raws.begin() + q); } break;
                case 7: case 8: { auto h = pickc(side); if (!h) break; int times = 1 + c.u(2); nterm++;
                    if (c.coin()) for (int j = 0; j < times; j++) net[side]->terminate(h);
                    else for (int j = 0; j < times; j++) th.push_back(std::thread([&, h, side]() { net[side]->terminate(h); }));
                    break; }
                case 9: { auto h = pickc(side); if (h) net[side]->send_msg(M1(1, c.pick(std::vector<uint32_t>{0, 1, 77, 78}), c.u(60)), h); break; }
                case 10: { auto e = sim::established(); if (!e.empty()) { sim::cut(e[c.u(e.size() - 1)], (sim::Cut)c.u(2), c.u(30)); cuts++; } break; }
                case 11: if (c.chance(1, 4)) n0->listen(at(20000)); break;
            }
            if (th.size() > 8) { for (auto &t: th) t.join(); th.clear(); }
            switch (c.u(3)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(50)); break; }
        }
        for (auto &t: th) t.join();
        bool abrupt = c.chance(1, 3);
        if (!abrupt) {
            bool closeall = c.coin(); std::set<void *> term;
            if (closeall) { sim::settle(); for (auto &t: tr) { net[t.side]->terminate(t.conn); term.insert(t.conn.get()); } for (auto &h: handles) n1->terminate(h); }
            sim::advance(to + 2);
            for (auto &h: handles) { auto a = h->get_addr(); if (a == at(22000) || a == at(23000)) PBT_CHECK(h->is_terminated(), "a connection attempt to an unreachable address is still pending after its timeout"); }
            PBT_CHECK(downs[at(22000)] <= bad && downs[at(23000)] <= hang, "more ends than attempts are reported for an unreachable address");
            PBT_CHECK(downs[at(22000)] + downs[at(23000)] + errs >= bad + hang, "%u attempts to unreachable addresses, but only %u reports", bad + hang, downs[at(22000)] + downs[at(23000)] + errs);
            if (closeall) {
                for (auto &t: tr) if (term.count(t.conn.get())) PBT_CHECK(t.down == 1, "a terminated connection is never reported as disconnected");
                sim::raw_unlisten(rl); rl = -1;
                for (int f: raws) sim::raw_close(f); raws.clear();
                sim::advance(to + 3);    // callbacks may have connected again
            }
            for (auto &t: tr) if (t.conn->is_terminated()) PBT_CHECK(t.down == 1, "an ended connection is not reported as disconnected"); 
            unsigned live = 0; for (auto &t: tr) if (!t.down) { live++; PBT_CHECK(t.up == 1, "a live connection was never reported as connected"); }
            unsigned socks = sim::open_socks();
            // (a TLS handshake that the remote end never continues stays open)
            if (!tls || closeall) PBT_CHECK(socks == live + 1, "%u sockets are open for %u live connections and one listener", socks, live);
        }
        if (n > 4 && (nterm + cuts + bad + hang) && nconn) c.nontrivial();
        if (tls) c.label("tls"); if (abrupt) c.label("destroyed in the middle"); if (cuts) c.label("cut"); if (hang) c.label("timeout"); if (bad) c.label("refused");
        c.note("%u connects, %u bad, %u hanging, %u terminations, %u cuts, %zu connections seen, %u messages%s", nconn, bad, hang, nterm, cuts, tr.size(), nmsg, tls ? ", tls" : "");
        int how = c.u(2); bool keep = c.chance(1, 3); if (how && !keep) closing = true;     // handles are dropped while the loops still run
        if (how == 0) { lp0.stop(); lp1.stop(); }
        if (!keep) { std::deque<Info> old; old.swap(tr); handles.clear(); }
        if (c.coin()) { n0->stop(); n1->stop(); if (c.coin()) n0->stop(); }
        delete n0; delete n1;
        unsigned socks = sim::open_socks(); PBT_CHECK(!socks, "%u sockets stay open after the networks are destroyed", socks);
        lp0.stop(); lp1.stop();
        handles.clear(); tr.clear();
        for (int f: raws) sim::raw_close(f); if (rl >= 0) sim::raw_unlisten(rl);
    });
    PBT_CHECK(!g_live, "%d connection objects are never released", g_live);
    unsigned fds1 = sim::open_fds(); PBT_CHECK(fds1 <= fds0, "%d descriptors are never closed", (int)fds1 - (int)fds0);
}
// connections start and end while the user's loop is busy: nothing is forgotten, nothing is invented, the order holds
static void t_busy(Ctx &c) {
    sim::g_tls = false; g_live = 0; static bool warm = false; if (!warm) { warm = true; EventContext e; } unsigned fds0 = sim::open_fds();
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 100; if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 100; sim::set_prof(pr);
        Net::Config cfg; cfg.nworker(1 + c.u(2)); cfg.conn_server_timeout(1); Loop lp; auto *net = new Net(lp.ec, cfg); bool closing = false;
        struct R { conn_t conn; unsigned up = 0, down = 0, msgs = 0; }; std::deque<R> rs; 
        auto rec = [&](const ConnPool::conn_t &x) -> R & { Quiet q; for (auto &r: rs) if (r.conn.get() == x.get()) return r; rs.push_back(R()); rs.back().conn = static_pointer_cast<Net::Base::Conn>(x); return rs.back(); };
        net->reg_conn_handler([&](const ConnPool::conn_t &x, bool up) { if (closing) return true; auto &r = rec(x); if (up) { PBT_CHECK(!r.down, "'connected' is reported after 'disconnected'"); PBT_CHECK(++r.up == 1, "'connected' is reported %u times", r.up); } else { PBT_CHECK(r.up == 1, "the end of an established connection is reported, but not its start"); PBT_CHECK(++r.down == 1, "'disconnected' is reported %u times", r.down); } return true; });
        net->reg_handler([&](M1 &&m, const conn_t &x) { if (closing) return; auto &r = rec(x); PBT_CHECK(r.up == 1, "a message is handled before 'connected' is reported"); PBT_CHECK(m.good(), "corrupted"); r.msgs++; });
        net->reg_error_handler([&](const std::exception_ptr, bool fatal, int32_t) { PBT_CHECK(!fatal, "fatal error"); });
        net->start(); lp.start(); net->listen(at(20000)); int rl = sim::raw_listen(21000);
        struct L { conn_t h; int fd; uint16_t port; bool ended = false; }; std::deque<L> ls; std::vector<int> dead; uint16_t np = 50000; bool hold = false, busy = false; unsigned nend = 0, nin = 0;
        for (int round = 1 + c.u(2); round > 0; round--) {
            hold = true; busy = false; lp.post([&]() { busy = true; sim::await([&]() { return !hold; }, 1e9); }); sim::await([&]() { return busy; }, 5);
            int n = 1 + c.size(10);
            for (int k = 0; k < n; k++) {
                switch (c.u(5)) {
                    case 0: case 1: { conn_t h = net->connect_sync(at(21000)); sim::advance(0.5); int fd = sim::raw_accept(rl); PBT_CHECK(fd >= 0, "a connection does not arrive"); Quiet q; ls.push_back(L()); ls.back().h = h; ls.back().fd = fd; ls.back().port = 21000; break; }
                    case 2: { int fd = sim::raw_connect(20000, ++np); PBT_CHECK(fd >= 0, "nobody listens"); sim::settle(); if (c.coin()) sim::raw_send_all(fd, enc(1, body(1, 3, 9))); Quiet q; ls.push_back(L()); ls.back().fd = fd; ls.back().port = np; nin++; break; }
                    case 3: case 4: { std::vector<L *> v; for (auto &l: ls) if (l.h && !l.ended) v.push_back(&l); if (v.empty()) break; auto *l = v[c.u(v.size() - 1)]; for (int z = 1 + c.u(1); z > 0; z--) net->terminate(l->h); l->ended = true; nend++; sim::settle(); break; }
                    case 5: { std::vector<L *> v; for (auto &l: ls) if (!l.ended) v.push_back(&l); if (v.empty()) break; auto *l = v[c.u(v.size() - 1)]; if (c.coin()) sim::cut(l->fd, sim::RST); sim::raw_close(l->fd); l->fd = -1; l->ended = true; nend++; break; }
                }
                if (c.coin()) sim::settle();
            }
            sim::settle(); hold = false; sim::advance(0.5);
            unsigned live = 0;
            for (auto &l: ls) {
                R *r = nullptr; { Quiet q; for (auto &x: rs) if (l.h ? x.conn.get() == l.h.get() : x.conn->get_mode() == ConnPool::Conn::PASSIVE && x.conn->get_addr() == at(l.port)) r = &x; }
                PBT_CHECK(r && r->up == 1, "an established connection (%s%s) is never reported as connected", l.h ? "outgoing" : "inbound", l.ended ? ", ended meanwhile" : "");
                PBT_CHECK(r->down == l.ended, "an %s connection is reported as disconnected %u times", l.ended ? "ended" : "established", r->down); live += !l.ended;
            }
            PBT_CHECK(sim::open_socks() == live + 1, "%u sockets are open for %u live connections and one listener", sim::open_socks(), live);
        }
        if (nend) c.nontrivial(); c.label("loop busy"); c.note("busy loop: %zu connections (%u inbound), %u ended", ls.size(), nin, nend);
        closing = true; lp.stop(); { Quiet q; for (auto &l: ls) { if (l.fd >= 0) dead.push_back(l.fd); } } ls.clear(); rs.clear(); delete net; PBT_CHECK(!sim::open_socks(), "sockets stay open"); for (int fd: dead) sim::raw_close(fd); sim::raw_unlisten(rl);
    });
    PBT_CHECK(!g_live, "%d connection objects are never released", g_live); unsigned fds1 = sim::open_fds(); PBT_CHECK(fds1 <= fds0, "%d descriptors are never closed", (int)fds1 - (int)fds0);
}
int main(int argc, char **argv) { make_idents(2); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"life", t_life, 3}, {"busy", t_busy, 1}}, o); }
