// C29: idle links stay up, dead ones are noticed in time.
#include "peersim.h"
static const uint16_t P0 = 20000, P1 = 20001;
static sim::Prof prof(Ctx &c, bool tls) { auto pr = sim::gen_prof(c); size_t lo = tls ? 200 : 20; if (pr.send_cap && pr.send_cap < lo) pr.send_cap = lo; if (pr.recv_cap && pr.recv_cap < lo) pr.recv_cap = lo; return pr; }
static unsigned changes(Node &n) { return n.nup + n.ndown; }
// two real peers: idle and busy times, then silence
static void t_pair(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        int mode = c.chance(1, 4) ? 1 + c.u(1) : 0; sim::set_prof(prof(c, mode)); double pp[2], ct[2], d = 0.3 + 0.3 * c.u(2);
        bool slow = c.chance(1, 4); for (int i = 0; i < 2; i++) { pp[i] = slow ? 4.0 + c.u(28) : 0.2 * (1 + c.u(9)); ct[i] = 1.5 * pp[i] + 0.5 + (c.coin() ? 0.1 * c.u(10) : pp[i] * c.u(4)); }
        std::unique_ptr<Node> nd[2]; auto pid = [&](int i) { return pid_of(i, P0 + i, mode); };
        for (int i = 0; i < 2; i++) { PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(0.5); cfg.max_msg_size(4000); cfg.conn_timeout(ct[i]); cfg.ping_period(pp[i]); nd[i].reset(new Node(i, P0 + i, mode, cfg)); nd[i]->net->add_peer(pid(!i)); }
        int who = c.u(2); double lim = std::max(ct[0], ct[1]), big = std::max(lim, 1.5 * std::max(pp[0], pp[1]));
        for (int i = 0; i < 2; i++) { if (who == 2 || who == i || c.coin()) nd[i]->net->set_peer_addr(pid(!i), at(P0 + !i)); PBT_CHECK(nd[i]->net->has_peer(pid(!i)), "an added peer is not known"); }
        for (int i = 0; i < 2; i++) if (who == 2 || who == i) nd[i]->net->conn_peer(pid(!i), -1, d);
        uint32_t seq[2] = {0, 0}; unsigned kills = 0, phases = 0; double total = 0; size_t base[2] = {0, 0};
        auto stable = [&]() {       // until a link is up on both sides and the handshake's leftovers are gone
            double t0 = sim::now();
            for (int k = 0; k < 60; k++) {
                PBT_CHECK(sim::now() - t0 < 60 * (big + d + 2), "no link although both peers are healthy");
                sim::await([&]() { return nd[0]->linked() && nd[1]->linked(); }, 5);
                unsigned u = changes(*nd[0]) + changes(*nd[1]); sim::advance(lim + 2 * d + 2); if (u == changes(*nd[0]) + changes(*nd[1]) && nd[0]->linked() && nd[1]->linked()) return;
            }
            fail("the link keeps breaking although nothing fails");
        };
        stable();
        int n = 1 + c.u(2);
        for (int k = 0; k < n; k++) {
            unsigned u[2] = {changes(*nd[0]), changes(*nd[1])}; phases++;
            for (int i = 0; i < 2; i++) { seq[i]++; nd[i]->got[0x50 + !i].clear(); base[i] = seq[i]; }
            // healthy time
            int m = c.size(8); double pm = std::min(pp[0], pp[1]); double t0 = sim::now();
            for (int j = 0; j < m; j++) switch (c.u(4)) {
                case 0: sim::advance(0.1 * c.u(9)); break;
                case 1: sim::advance(std::min(big * c.u(40) / 10, 20 * pm)); break;
                case 2: { int i = c.u(1); for (int q = c.u(5); q >= 0; q--) nd[i]->net->send_msg(Tok(0x50 + i, seq[i]++, c.u(200)), pid(!i)); break; }
                case 3: { int i = c.u(1); double until = sim::now() + 0.3 * c.u(20); while (sim::now() < until) { nd[i]->net->send_msg(Tok(0x50 + i, seq[i]++, c.chance(1, 8) ? 1500 : 30), pid(!i)); sim::advance(0.05 + 0.05 * c.u(4)); } break; }
                default: sim::advance(std::min(big * (1 + c.u(6)), 50 * pm)); break;
            }
            sim::advance(1); total += sim::now() - t0;
            for (int i = 0; i < 2; i++) {
                PBT_CHECK(changes(*nd[i]) == u[i], "node %d: the link of healthy peers is disturbed (%u changes in %.1f s; ping periods %.1f/%.1f, timeouts %.1f/%.1f)", i, changes(*nd[i]) - u[i], sim::now() - t0, pp[0], pp[1], ct[0], ct[1]);
                auto &v = nd[i]->got[0x50 + !i]; PBT_CHECK(v.size() == seq[!i] - base[!i], "node %d: %zu of %zu messages arrived", i, v.size(), seq[!i] - base[!i]);
            }
            if (k == n - 1 && c.coin()) break;
            // the link falls silent
            auto e = sim::established(); PBT_CHECK(e.size() == 1, "%zu connections instead of one", e.size()); double tk = sim::now(), end[2] = {-1, -1}; unsigned dn[2]; pconn_t cn[2];
            for (int i = 0; i < 2; i++) { cn[i] = nd[i]->net->get_peer_conn(pid(!i)); dn[i] = 0; for (auto &r: nd[i]->links) if (r.conn.get() == cn[i].get()) dn[i] = r.down; }
            if (c.coin()) { int i = c.u(1); nd[i]->net->send_msg(Tok(0x60 + i, k, c.u(100)), pid(!i)); if (c.coin()) sim::settle(); }
            bool back = c.coin(); sim::on_connect = [&, back, tk](uint16_t) { return back || sim::now() > tk + 3 * big ? 2 : 1; };
            sim::cut(e[0], sim::HOLE, 0); kills++;
            double bound[2] = {1.5 * pp[0] + ct[0] + 0.7, 1.5 * pp[1] + ct[1] + 0.7}, lastb = std::max(bound[0], bound[1]);
            while (sim::now() < tk + lastb + 0.1) { sim::advance(lastb > 20 ? 0.3 : 0.1); for (int i = 0; i < 2; i++) if (end[i] < 0) { for (auto &r: nd[i]->links) if (r.conn.get() == cn[i].get() && r.down > dn[i]) end[i] = sim::now() - tk; } }
            for (int i = 0; i < 2; i++) PBT_CHECK(end[i] >= 0 && end[i] <= bound[i], "node %d: the end of a link that fell silent is %s (%.1f s after; ping period %.1f, timeout %.1f)", i, end[i] < 0 ? "not reported" : "reported late", end[i], pp[i], ct[i]);
            cn[0] = nullptr; cn[1] = nullptr;
            sim::advance(3 * big); sim::on_connect = nullptr; stable();
        }
        if (total > 4 * big || kills) c.nontrivial(); if (kills) c.label("silent link"); if (mode) c.label(mode == 1 ? "TLS, address identities" : "TLS, certificate identities"); if (seq[0] + seq[1] > 10) c.label("busy"); if (who == 2) c.label("both keep trying");
        c.note("ping %.1f/%.1f s, timeout %.1f/%.1f s, %.0f s healthy, %u silences, %u messages", pp[0], pp[1], ct[0], ct[1], total, kills, seq[0] + seq[1]);
        nd[0].reset(); nd[1].reset(); PBT_CHECK(!sim::open_socks(), "sockets stay open");
    });
}
// one real peer and a scripted one that answers heartbeats late, then not at all
static void t_late(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        sim::set_prof(prof(c, false)); double pp = c.chance(1, 4) ? 2.0 + c.u(30) : 0.1 * (1 + c.u(20)), ct = 1.5 * pp + 0.5 + (c.coin() ? 0.1 * c.u(10) : pp * c.u(6));
        PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(0.5); cfg.conn_timeout(ct); cfg.ping_period(pp); Node n(0, P0, 0, cfg); PeerId id(at(P1));
        n.net->add_peer(id); n.net->set_peer_addr(id, at(P1)); PBT_CHECK(n.net->has_peer(id), "an added peer is not known");
        bool act = c.coin(); int fd = -1, lfd = sim::raw_listen(P1); Bytes in; std::vector<double> ping; bool got_hs = false; unsigned toks = 0;
        auto hs = [&](uint8_t op, uint32_t nonce) { DataStream s; s << (uint8_t)1 << at(P1) << htole(nonce); return enc(op, Bytes(s.data(), s.data() + s.size())); };
        auto poll = [&]() { auto d = sim::raw_recv(fd); Quiet q; in.insert(in.end(), d.begin(), d.end()); for (auto &m: dec(in)) { PBT_CHECK(m.sum, "a corrupted message"); if (m.op == 1) toks++; else if (m.payload.size() > 1) got_hs = true; else if (m.op == 0xf0) ping.push_back(sim::now()); } };
        auto until = [&](const std::function<bool()> &f, double s) { double t = sim::now() + s; for (;;) { if (fd < 0) fd = sim::raw_accept(lfd); if (fd >= 0) poll(); if (f()) return true; if (sim::now() > t) return false; sim::advance(0.01); } };
        if (act) { n.net->conn_peer(id, 1, 1); PBT_CHECK(until([&]() { return fd >= 0; }, 3), "no connection attempt"); PBT_CHECK(until([&]() { return got_hs; }, 2), "no handshake"); sim::raw_send_all(fd, hs(0xf1, 0xffff)); }
        else { fd = sim::raw_connect(P0, 51000); sim::raw_send_all(fd, hs(0xf0, 1)); }
        PBT_CHECK(until([&]() { return n.linked() && ping.size() == 1; }, 2), "no link");
        int rounds = c.size(12); double late = 0, slack = 0.15; unsigned extra = 0;
        for (int k = 0; k < rounds; k++) {
            double p = ping.back(), dl = c.chance(1, 3) ? 0 : c.coin() ? (ct - slack) * c.u(100) / 100 : std::max(0.0, ct - slack - 0.01 * c.u(30)); late = std::max(late, dl / ct);
            if (c.chance(1, 4)) { sim::raw_send_all(fd, enc(0xf0, Bytes{0})); extra++; }
            if (c.chance(1, 4)) sim::raw_send_all(fd, enc(1, body(7, k, c.u(60))));
            while (sim::now() + 0.02 < p + dl) { sim::advance(std::min(0.25, p + dl - sim::now())); poll(); PBT_CHECK(ping.size() == (size_t)k + 1, "a heartbeat is sent although the last one is not answered"); }
            PBT_CHECK(!sim::raw_eof(fd), "the link is closed %.2f s after a heartbeat although the timeout is %.2f s", sim::now() - p, ct);
            sim::raw_send_all(fd, enc(0xf1, Bytes{0})); double at_ = sim::now();
            PBT_CHECK(until([&]() { return ping.size() > (size_t)k + 1; }, 1.5 * pp + 1), "no further heartbeat %.2f s after the answer (period %.2f s)", sim::now() - at_, pp);
            double g = ping.back() - p; PBT_CHECK(g >= pp - 0.02 && g <= std::max(1.5 * pp, at_ - p) + 0.3, "a heartbeat is sent %.2f s after the last one (period %.2f s, answered after %.2f s)", g, pp, at_ - p);
        }
        PBT_CHECK(n.nup == 1 && !n.ndown && n.linked() && !sim::raw_eof(fd), "the link of a peer that answers in time is disturbed (%u up, %u down)", n.nup, n.ndown);
        double p = ping.back(); bool open = until([&]() { return sim::raw_eof(fd); }, ct + 0.5); double g = sim::now() - p;
        PBT_CHECK(open && g <= ct + 0.3 && g >= ct - slack, "a silent peer's link is %s %.2f s after the last heartbeat (timeout %.2f s)", open ? "closed" : "still open", g, ct); PBT_CHECK(ping.size() == (size_t)rounds + 1, "a heartbeat is sent although the last one is not answered");
        sim::settle(); PBT_CHECK(n.nup == 1 && n.ndown == 1, "the end of a link is reported %u times", n.ndown);
        if (rounds) c.nontrivial(); if (late > 0.8) c.label("answered at the last moment"); if (act) c.label("outgoing"); if (extra) c.label("heartbeats from the remote");
        c.note("ping %.1f s, timeout %.1f s, %d rounds, slowest answer %.0f%% of the timeout", pp, ct, rounds, 100 * late); sim::raw_close(fd); sim::raw_unlisten(lfd);
    });
}
int main(int argc, char **argv) { make_idents(3); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"pair", t_pair, 2}, {"late", t_late, 1}}, o); }
