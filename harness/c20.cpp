// C20: the peer registry against a model: known peers, error codes and tickets, number of attempts.
#include "peersim.h"
static const uint16_t P0 = 20000;
enum Kind { REFUSE, HANG, SILENT, REAL };
struct Expect { int code; const char *op; };
static void t_registry(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; sim::set_prof(pr);
        double ct = 3 + c.u(3), st = 0.5 + 0.25 * c.u(4);
        int np = 1 + c.u(3); Kind kind[4]; bool known[4] = {}, addr[4] = {}; uint16_t port[4]; int lfd[4]; std::vector<int> held;
        std::map<int32_t, Expect> exp; unsigned nops = 0, nerr = 0, nsend = 0, relinks = 0, gives = 0;
        PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(st); cfg.conn_timeout(ct); cfg.ping_period(0.7);
        std::unique_ptr<Node> real; bool realknows = true;
        for (int i = 0; i < np; i++) { port[i] = 20001 + i; kind[i] = (Kind)c.u(2); lfd[i] = -1; }
        if (c.coin()) { kind[0] = REAL; realknows = !c.chance(1, 6); }
        sim::on_connect = [&](uint16_t p) { for (int i = 0; i < np; i++) if (p == port[i]) return kind[i] == REFUSE ? 0 : kind[i] == HANG ? 1 : 2; return 0; };
        if (kind[0] == REAL) { real.reset(new Node(1, port[0], 0, cfg)); if (realknows) real->net->add_peer(PeerId(at(P0))); }
        for (int i = 0; i < np; i++) if (kind[i] == SILENT) lfd[i] = sim::raw_listen(port[i]);
        Node nd(0, P0, 0, cfg); auto *N = nd.net;
        auto pid = [&](int i) { return PeerId(at(port[i])); };
        auto take = [&]() { Quiet q; for (int i = 0; i < np; i++) if (lfd[i] >= 0) for (int fd; (fd = sim::raw_accept(lfd[i])) >= 0;) held.push_back(fd); };
        auto want = [&](int32_t t, int code, const char *op) { Quiet q; nops++; if (code) nerr++; PBT_CHECK(t >= 0 && !exp.count(t), "%s returns a ticket (%d) that is not new", op, t); exp[t] = Expect{code, op}; };
        static const int NT[] = {0, 1, 2, 3, 7, -1};
        auto op = [&](int i, unsigned k, unsigned a, unsigned b) {
            switch (k) {
                case 0: case 1: want(N->add_peer(pid(i)), known[i] ? SALTI_ERROR_PEER_ALREADY_EXISTS : 0, "add_peer"); if (!known[i]) { known[i] = true; addr[i] = false; } break;
                case 2: want(N->del_peer(pid(i)), known[i] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "del_peer"); known[i] = addr[i] = false; break;
                case 3: case 4: { bool null = a == 0; want(N->set_peer_addr(pid(i), null ? NetAddr() : at(port[i])), known[i] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "set_peer_addr"); if (known[i]) addr[i] = !null; break; }
                case 5: case 6: want(N->conn_peer(pid(i), NT[a % 6], 0.2 + 0.2 * (b % 4)), known[i] ? addr[i] ? 0 : SALTI_ERROR_PEER_NOT_READY : SALTI_ERROR_PEER_NOT_EXIST, "conn_peer"); break;
                case 7: PBT_CHECK(N->has_peer(pid(i)) == known[i], "has_peer() is %d for a peer that is %sregistered", !known[i], known[i] ? "" : "not "); nops++; break;
                case 8: { bool h = N->has_peer(pid(i)); int code = 0; try { auto conn = N->get_peer_conn(pid(i)); PBT_CHECK(conn != nullptr, "no connection object"); } catch (PeerNetworkError &e) { code = e.get_code(); } PBT_CHECK(h ? !code : code == SALTI_ERROR_PEER_NOT_EXIST, "get_peer_conn() reports %d for a peer that is %sregistered", code, h ? "" : "not "); nops++; break; }
                case 9: { bool h = N->has_peer(pid(i)); int code = 0; nsend++; try { PBT_CHECK(N->send_msg(Tok(i, nsend, a), pid(i)), "a message is refused although the queue has no limit"); } catch (PeerNetworkError &e) { code = e.get_code(); } PBT_CHECK(h == known[i] && (h ? !code : code == SALTI_ERROR_PEER_NOT_EXIST), "sending to a peer that is %sregistered reports %d", h ? "" : "not ", code); nops++; break; }
                case 10: nsend++; want(N->send_msg_deferred(Tok(i, nsend, a), pid(i)), known[i] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "send_msg_deferred"); break;
                case 11: nsend++; want(N->multicast_msg(Tok(i, nsend, a), std::vector<PeerId>(1 + b % 2, pid(i))), known[i] ? 0 : SALTI_ERROR_PEER_NOT_EXIST, "multicast_msg"); break;
            }
        };
        int n = c.size(24);
        for (int k = 0; k < n; k++) {
            int i = c.u(np - 1); unsigned o = c.u(11), a = c.u(30), b = c.u(30);
            // peer 3 is managed by the user's loop, the others by this thread
            if (i == 3) { std::vector<std::array<unsigned, 3>> l{{o, a, b}}; for (int m = c.u(4); m > 0; m--) l.push_back({(unsigned)c.u(11), (unsigned)c.u(30), (unsigned)c.u(30)}); nd.lp.post([&, l]() { for (auto &x: l) op(3, x[0], x[1], x[2]); }); }
            else op(i, o, a, b);
            switch (c.u(5)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(100)); break; case 2: if (c.chance(1, 3)) sim::advance(0.1 * c.u(60)); break; }
            take();
            if (c.chance(1, 8)) { auto e = sim::established(); if (!e.empty()) sim::cut(e[c.u(e.size() - 1)], (sim::Cut)c.u(1)); }
        }
        nd.lp.run([]() {}); for (int i = 0; i < np; i++) op(i, 7, 0, 0);      // all operations are processed
        auto count = [&](int i) { return sim::attempts[port[i]]; };
        // give up: no further attempts; peers that are not known or have no address: none either
        std::vector<unsigned> c0(np);
        for (int i = 0; i < np; i++) if (known[i] && addr[i]) { op(i, 5, 0, 0); gives++; } else if (known[i]) { op(i, 3, 1, 0); op(i, 5, 0, 0); }
        for (int i = 0; i < np; i++) op(i, 7, 0, 0);
        sim::settle(); take();
        for (int i = 0; i < np; i++) c0[i] = count(i);
        sim::advance(5); take();
        for (int i = 0; i < np; i++) PBT_CHECK(count(i) == c0[i], "%u further attempts to reach a peer %s", count(i) - c0[i], known[i] ? "after giving up" : "that is not registered");
        PBT_CHECK(!nd.linked() || real, "a link is up");
        // requests with a limit
        std::vector<int> nt(np); double rd = 0.2 + 0.2 * c.u(3); bool twice = c.chance(1, 3);
        for (int i = 0; i < np; i++) {
            if (!known[i]) { op(i, 0, 0, 0); }
            op(i, 3, 1, 0);
            if (twice) { want(N->conn_peer(pid(i), NT[c.u(5)], rd), 0, "conn_peer"); if (c.coin()) sim::advance(0.05 * c.u(40)); want(N->conn_peer(pid(i), 0, rd), 0, "conn_peer"); op(i, 7, 0, 0); sim::settle(); take(); }
            nt[i] = NT[c.u(5)]; c0[i] = count(i);
            want(N->conn_peer(pid(i), nt[i], rd), 0, "conn_peer");
        }
        double T = 8 * (std::max(rd * 1.5, std::max(st, ct)) + 1) + 5; for (double t = 0; t < T; t += 0.5) { sim::advance(0.5); take(); }
        for (int i = 0; i < np; i++) {
            unsigned d = count(i) - c0[i]; bool linked = false; for (auto &r: nd.links) if (r.up && !r.down && !r.conn->is_terminated() && r.conn->get_addr() == at(port[i])) linked = true;
            if (kind[i] == REAL && realknows) { PBT_CHECK(linked == (nt[i] != 0), "a reachable peer is %sconnected after a request with limit %d", linked ? "" : "not ", nt[i]); if (nt[i] == 1) PBT_CHECK(d == 1, "%u attempts instead of one", d); }
            else {
                PBT_CHECK(!linked, "an unreachable peer is reported as connected");
                if (nt[i] >= 0) PBT_CHECK(d == (unsigned)nt[i], "%u attempts instead of %d (%s)", d, nt[i], kind[i] == REFUSE ? "refused" : kind[i] == HANG ? "no answer" : kind[i] == SILENT ? "silent" : "unknown there");
                else PBT_CHECK(d >= T / (1.5 * rd) / 2 && d <= T / rd + 2, "%u attempts in %.1f s with a delay of %.1f s", d, T, rd);
            }
        }
        // the loss of a link: tried again without limit, not after a single try
        if (kind[0] == REAL && realknows && nt[0] && c.coin()) {
            auto e = sim::established(); for (int fd: e) if (sim::T[fd]->rport == port[0]) { c0[0] = count(0); sim::cut(fd, sim::RST); relinks++; }
            sim::advance(5 * rd + ct); take();
            bool linked = false; for (auto &r: nd.links) if (r.up && !r.down && !r.conn->is_terminated() && r.conn->get_addr() == at(port[0])) linked = true;
            if (nt[0] < 0) PBT_CHECK(linked, "the link is not re-established"); if (nt[0] == 1) PBT_CHECK(!linked && count(0) == c0[0], "the link is tried again after a single try");
        }
        // deletion closes the link and ends the attempts
        bool del[4]; for (int i = 0; i < np; i++) if ((del[i] = c.coin())) op(i, 2, 0, 0);
        for (int i = 0; i < np; i++) op(i, 7, 0, 0);
        sim::settle(); take(); for (int i = 0; i < np; i++) c0[i] = count(i);
        // at once, not when they time out
        for (int i = 0; i < np; i++) if (del[i]) {
            unsigned m = sim::socks_to(port[i]); PBT_CHECK(!m, "%u connections or attempts to a deleted peer remain", m);
            if (kind[i] == REAL) PBT_CHECK(!real->linked(), "the link of a deleted peer stays up");
        }
        sim::advance(5 + ct); take();
        for (int i = 0; i < np; i++) if (del[i]) {
            PBT_CHECK(count(i) == c0[i], "%u further attempts to reach a deleted peer", count(i) - c0[i]);
            for (int fd: sim::established()) PBT_CHECK(sim::T[fd]->rport != port[i], "a connection to a deleted peer remains");
            if (kind[i] == REAL) PBT_CHECK(!real->linked(), "the link of a deleted peer stays up");
        }
        // connections that say nothing are counted as pending
        unsigned idle = c.u(3); std::vector<int> raw; for (unsigned k = 0; k < idle; k++) raw.push_back(sim::raw_connect(P0));
        sim::settle(); size_t p = N->get_npending(); PBT_CHECK(p == idle, "%zu connections are pending instead of %u", p, idle);
        sim::advance(ct + 1); p = N->get_npending(); PBT_CHECK(p == 0, "%zu connections are pending after their time", p);
        nd.lp.run([]() {});
        { Quiet q; for (auto &x: exp) { auto it = nd.errs.find(x.first); size_t m = it == nd.errs.end() ? 0 : it->second.size();
            PBT_CHECK(x.second.code ? m == 1 && it->second[0] == x.second.code : m == 0, "%s: %zu errors are reported with its ticket (%d), expected %s (%d)", x.second.op, m, m ? it->second[0] : 0, x.second.code ? "one" : "none", x.second.code); }
          for (auto &e: nd.errs) PBT_CHECK(exp.count(e.first), "an error is reported with a ticket nobody got"); }
        if (nops >= 4) c.nontrivial(); if (nerr) c.label("errors"); if (kind[0] == REAL) c.label("reachable peer"); if (relinks) c.label("link lost"); if (np == 4) c.label("two threads"); if (gives) c.label("given up");
        c.note("%u operations, %u expected errors, %d peers, %u sends, %u links cut", nops, nerr, np, nsend, relinks);
        for (int fd: held) sim::raw_close(fd); for (int fd: raw) sim::raw_close(fd); for (int i = 0; i < np; i++) if (lfd[i] >= 0) sim::raw_unlisten(lfd[i]);
    });
}
int main(int argc, char **argv) { pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"registry", t_registry, 1}}, o); }
