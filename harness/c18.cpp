// C18: two peers that know each other end up with exactly one working link, whatever happened before.
#include "peersim.h"
static const uint16_t P[3] = {20000, 20001, 20002};
static void t_link(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; sim::set_prof(pr);
        int mode = c.chance(1, 4) ? 1 + c.u(1) : 0; double ct = 3 + c.u(3), pp = 0.5 + 0.5 * c.u(2), st = 0.5 + 0.25 * c.u(4);
        int refuse = 0; sim::on_connect = [&](uint16_t) { return refuse == 1 ? 0 : refuse == 2 ? 1 : 2; };
        std::unique_ptr<Node> nd[2]; unsigned nw[2] = {(unsigned)c.u(1) + 1, (unsigned)c.u(1) + 1}; unsigned faults = 0, reqs = 0, manual = 0, restarts = 0, regs = 0;
        auto make = [&](int i) { PNet::Config cfg; cfg.nworker(nw[i]); cfg.conn_server_timeout(st); cfg.conn_timeout(ct); cfg.ping_period(pp); nd[i].reset(new Node(i, P[i], mode, cfg)); };
        auto pid = [&](int i) { return pid_of(i, P[i], mode); };
        bool deleted[2] = {false, false}, known[2] = {false, false}, addr[2] = {false, false};
        for (int i = 0; i < 2; i++) { make(i); if (!c.chance(1, 6)) { nd[i]->net->add_peer(pid(!i)); known[i] = true; if (!c.chance(1, 4)) { nd[i]->net->set_peer_addr(pid(!i), at(P[!i])); addr[i] = true; } } }
        static const int NT[] = {-1, -1, 1, 0, 2, 5};
        int n = c.size(16);
        for (int k = 0; k < n; k++) {
            int i = c.u(1); auto *N = nd[i]->net;
            switch (c.u(11)) {
                case 0: case 1: case 2: if (known[i]) { if (!addr[i]) { N->set_peer_addr(pid(!i), at(P[!i])); addr[i] = true; } N->conn_peer(pid(!i), NT[c.u(5)], 0.2 + 0.3 * c.u(4)); reqs++; } break;
                case 3: if (known[0] && known[1] && addr[0] && addr[1]) for (int s = 0; s < 2; s++) { nd[s]->net->conn_peer(pid(!s), -1, 0.2 + 0.3 * c.u(4)); reqs++; } break;
                case 4: { auto e = sim::established(); if (!e.empty()) { sim::cut(e[c.u(e.size() - 1)], (sim::Cut)c.u(3), c.u(60)); faults++; } break; }
                case 5: if (known[i]) { auto conn = N->get_peer_conn(pid(!i)); N->terminate(conn); faults++; } break;
                case 6: N->connect(at(P[!i])); manual++; break;
                case 7: if (known[i]) { N->del_peer(pid(!i)); known[i] = addr[i] = false; deleted[i] = true; regs++; } else { N->add_peer(pid(!i)); known[i] = true; regs++; } break;
                case 8: refuse = c.u(2); faults++; break;
                case 9: if (c.chance(1, 3)) { nd[i].reset(); if (c.coin()) sim::advance(0.1 * c.u(30)); make(i); known[i] = addr[i] = false; restarts++; nd[i]->net->add_peer(pid(!i)); known[i] = true; } break;
                case 10: if (known[i] && N->has_peer(pid(!i))) N->send_msg(Tok(i << 8, k, c.u(100)), pid(!i)); break;
                case 11: if (known[i] && c.chance(1, 3)) { N->set_peer_addr(pid(!i), at(P[2])); addr[i] = false; regs++; } break;
            }
            switch (c.u(4)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(100)); break; case 2: if (c.chance(1, 3)) sim::advance(0.1 * c.u(60)); break; }
        }
        // from now on nothing fails, both know each other and at least one keeps trying
        refuse = 0; int who = c.u(2); double d = 0.3 + 0.3 * c.u(3);
        for (int i = 0; i < 2; i++) { if (!known[i]) nd[i]->net->add_peer(pid(!i)); if (who == 2 || who == i || c.coin()) nd[i]->net->set_peer_addr(pid(!i), at(P[!i])); }
        for (int i = 0; i < 2; i++) if (who == 2 || who == i) { nd[i]->net->conn_peer(pid(!i), -1, d); if (c.coin()) sim::advance(0.01 * c.u(80)); }
        for (int i = 0; i < 2; i++) PBT_CHECK(nd[i]->net->has_peer(pid(!i)), "an added peer is not known");
        uint32_t round = 1000; double t0 = sim::now(); double conv = -1; unsigned unstable = 0;
        double budget = 40 * (ct + 2 * d + st);
        for (;;) {
            PBT_CHECK(sim::now() - t0 < budget, "no working link after %.0f s (%s keeps trying; links reported by node 0: %u up %u down, node 1: %u up %u down)", budget, who == 2 ? "both" : who ? "node 1" : "node 0", nd[0]->nup, nd[0]->ndown, nd[1]->nup, nd[1]->ndown);
            round++;
            for (int i = 0; i < 2; i++) nd[i]->net->send_msg(Tok(0x1000 + i, round, 10), pid(!i));
            auto arrived = [&](int i) { auto &v = nd[i]->got[0x1000 + !i]; return !v.empty() && v.back() == round; };
            sim::await([&]() { return arrived(0) && arrived(1); }, 2);
            if (!arrived(0) || !arrived(1)) continue;
            if (conv < 0) conv = sim::now() - t0;
            // it stays, and nothing superfluous remains
            unsigned u[2] = {nd[0]->nup + nd[0]->ndown, nd[1]->nup + nd[1]->ndown};
            sim::advance(2 * ct + 2 * pp + 2 * d + st + 1);
            if (u[0] != nd[0]->nup + nd[0]->ndown || u[1] != nd[1]->nup + nd[1]->ndown) { if (++unstable > 8) fail("the link keeps breaking although nothing fails"); continue; }
            break;
        }
        for (int i = 0; i < 2; i++) {
            auto conn = nd[i]->net->get_peer_conn(pid(!i)); PBT_CHECK(!conn->is_terminated(), "node %d: the peer's connection is not live although messages flow", i);
            PBT_CHECK(conn->get_peer_id() == pid(!i), "node %d: the connection does not belong to the peer", i);
            unsigned live = 0; for (auto &r: nd[i]->links) { if (r.up && !r.down && !(deleted[i] && r.conn->is_terminated())) {      // (the end of a deleted peer's link is not reported)
                live++; PBT_CHECK(r.conn.get() == conn.get(), "node %d: another connection than the peer's is reported as its link", i); } }
            PBT_CHECK(live == 1, "node %d: %u links are reported as established and not ended", i, live);
            size_t np = nd[i]->net->get_npending(); PBT_CHECK(np == 0, "node %d: %zu connections are pending", i, np);
        }
        auto e = sim::established(); unsigned socks = sim::open_socks() - (mode ? sim::silent_socks() : 0);     // (a TLS handshake that falls silent has no limit)
        PBT_CHECK(e.size() == 1 && socks == 4, "%zu connections (%u sockets) exist between the two peers", e.size(), socks);
        // messages flow both ways, in order
        for (int k = 0; k < 3; k++) { round++; for (int i = 0; i < 2; i++) nd[i]->net->send_msg(Tok(0x1000 + i, round, 10 * k), pid(!i)); }
        sim::advance(1);
        for (int i = 0; i < 2; i++) { auto &v = nd[i]->got[0x1000 + !i]; PBT_CHECK(v.size() >= 3 && v[v.size() - 1] == round && v[v.size() - 2] == round - 1 && v[v.size() - 3] == round - 2, "messages do not flow to node %d", i); }
        if (reqs + faults + manual + restarts + regs >= 2) c.nontrivial();
        if (who == 2) c.label("both keep trying"); if (faults) c.label("faults"); if (restarts) c.label("restart"); if (manual) c.label("manual connection"); if (regs) c.label("re-registered"); if (mode) c.label(mode == 1 ? "TLS, address identities" : "TLS, certificate identities"); if (unstable) c.label("settled after a further break");
        c.note("%d operations, %u requests, %u faults, %u restarts, %u manual, converged after %.2f s, %u unstable", n, reqs, faults, restarts, manual, conv, unstable);
        nd[0].reset(); nd[1].reset();
        PBT_CHECK(!sim::open_socks(), "sockets stay open");
    });
}
// a peer vanishes without a trace and comes back while the other one still believes in the old link: one attempt is enough
static void t_return(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); int mode = c.chance(1, 4) ? 1 + c.u(1) : 0; unsigned lo = mode ? 200 : 20; if (pr.send_cap && pr.send_cap < lo) pr.send_cap = lo; if (pr.recv_cap && pr.recv_cap < lo) pr.recv_cap = lo; sim::set_prof(pr);
        double ct = 4 + c.u(3), pp = 0.3 + 0.1 * c.u(3), d = 0.3 + 0.3 * c.u(2); std::unique_ptr<Node> nd[2];
        auto make = [&](int i) { PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(1); cfg.conn_timeout(ct); cfg.ping_period(pp); nd[i].reset(new Node(i, P[i], mode, cfg)); };
        auto pid = [&](int i) { return pid_of(i, P[i], mode); };
        make(0); make(1); int who = c.u(2), a0 = who != 1 || c.coin();
        for (int i = 0; i < 2; i++) { nd[i]->net->add_peer(pid(!i)); if (i ? who != 0 : a0) nd[i]->net->set_peer_addr(pid(!i), at(P[!i])); PBT_CHECK(nd[i]->net->has_peer(pid(!i)), "an added peer is not known"); }
        for (int i = 0; i < 2; i++) if (who == 2 || who == i) nd[i]->net->conn_peer(pid(!i), -1, d);
        auto settled = [&]() { for (int k = 0; k < 40; k++) { sim::await([&]() { return nd[0]->linked() && nd[1]->linked(); }, 20); unsigned u = nd[0]->nup + nd[0]->ndown + nd[1]->nup + nd[1]->ndown; sim::advance(ct + 2 * d + 2); if (u == nd[0]->nup + nd[0]->ndown + nd[1]->nup + nd[1]->ndown && nd[0]->linked() && nd[1]->linked()) return; } fail("two peers that know each other are not connected"); };
        settled();
        int times = 1 + c.u(2); unsigned traffic = 0; uint32_t seq = 0;
        for (int k = 0; k < times; k++) {
            for (int m = c.u(3); m > 0; m--) { nd[0]->net->send_msg(Tok(0x10, 1000 * k + m, c.u(60)), pid(1)); traffic++; }
            if (c.coin()) sim::advance(0.01 * c.u(100));
            for (int fd: sim::established()) sim::cut(fd, sim::HOLE);
            nd[1].reset(); if (c.coin()) sim::advance(0.01 * c.u(100));
            unsigned up = nd[0]->nup; PBT_CHECK(nd[0]->linked(), "the link is reported as lost before anything could be noticed");
            make(1); auto *N = nd[1]->net; N->add_peer(pid(0)); N->set_peer_addr(pid(0), at(P[0])); sim::attempts.clear();
            int nt = c.coin() ? 1 : c.coin() ? 2 : -1; N->conn_peer(pid(0), nt, d);
            PBT_CHECK(sim::await([&]() { return nd[1]->linked() && nd[0]->nup > up && nd[0]->linked(); }, 1), "a peer that has come back is not linked by its attempt (node 0: %u up, %u down; node 1: %u up, %u down)", nd[0]->nup, nd[0]->ndown, nd[1]->nup, nd[1]->ndown);
            PBT_CHECK(sim::attempts[P[0]] == 1 && !sim::attempts[P[1]], "the link of a peer that has come back takes %u + %u attempts", sim::attempts[P[0]], sim::attempts[P[1]]);
            sim::advance(ct + 2 * pp + 2 * d + 1);
            for (int i = 0; i < 2; i++) { unsigned live = 0; for (auto &r: nd[i]->links) if (r.up && !r.down) live++; PBT_CHECK(live == 1, "node %d: %u links are reported as established and not ended", i, live); size_t np = nd[i]->net->get_npending(); PBT_CHECK(!np, "node %d: %zu connections are pending", i, np); }
            PBT_CHECK(nd[0]->nup == up + 1, "the new link breaks although nothing fails");
            for (int i = 0; i < 2; i++) nd[i]->net->send_msg(Tok(0x20, ++seq, c.u(60)), pid(!i)); sim::advance(0.5);
            for (int i = 0; i < 2; i++) { auto &v = nd[i]->got[0x20]; PBT_CHECK(!v.empty() && v.back() == seq - i * 0 - (i ? 1 : 0), "messages do not flow to node %d over the new link", i); }
            if (nt == 1 && k + 1 < times) N->conn_peer(pid(0), -1, d), settled();
        }
        c.nontrivial(); if (mode) c.label(mode == 1 ? "TLS, address identities" : "TLS, certificate identities"); if (who == 2) c.label("both keep trying"); if (!a0) c.label("address not known");
        c.note("%d returns, %u messages", times, traffic);
        nd[0].reset(); nd[1].reset();
    });
}
int main(int argc, char **argv) { make_idents(3); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"link", t_link, 3}, {"return", t_return, 1}}, o); }
