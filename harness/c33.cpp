// C33: what a peer network tells about its links (whose they are, where, which one is current) is true at every moment.
#include "peersim.h"
static void t_mesh(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        int mode = c.chance(1, 4) ? 1 + c.u(1) : 0; unsigned lo = mode ? 200 : 20;
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < lo) pr.send_cap = lo; if (pr.recv_cap && pr.recv_cap < lo) pr.recv_cap = lo; sim::set_prof(pr);
        int n = 2 + c.u(1); double ct = 3 + c.u(3), d = 0.3 + 0.2 * c.u(3);
        std::vector<std::unique_ptr<Node>> nd(n); auto P = [](int i) { return (uint16_t)(20000 + i); }; auto pid = [&](int i) { return i < 0 ? PeerId(at(29000)) : pid_of(i, P(i), mode); };
        std::vector<PeerId> ids; for (int i = 0; i < n; i++) ids.push_back(pid(i)); const PeerId none;
        // the model: what node i may say about peer j; both the old and the new values while a change is being processed
        struct St { std::set<bool> known{false}; std::set<std::pair<uint32_t, uint16_t>> addr{{0, 0}}; bool has = false; NetAddr a; bool tries = false; }; std::vector<std::vector<St>> st(n, std::vector<St>(n));
        auto key = [](const NetAddr &a) { return std::make_pair(a.ip, a.port); };
        unsigned nask = 0, nsure = 0, nnull = 0, nrep = 0, nback = 0, ncut = 0, ndel = 0, nmove = 0; std::map<std::pair<uint32_t, uint32_t>, int> expect;
        std::map<const void *, int> owner;      // of the links reported so far (they are kept)
        auto who = [&](const PeerId &x) { for (int k = 0; k < n; k++) if (ids[k] == x) return k; return -1; };
        // asks node i about a connection that belongs to peer j
        auto ask = [&](int i, int j, const pconn_t &conn, const char *where) {
            auto &s = st[i][j]; std::set<bool> k0; { Quiet q; k0 = s.known; }
            auto cur = [&]() { try { return nd[i]->net->get_peer_conn(ids[j]) == conn; } catch (SalticidaeError &) { return false; } }; bool c0 = cur();     // whether it is the current link
            PeerId x = conn->get_peer_id(); bool dead = !(c0 && cur()) || conn->is_terminated(); if (!dead) nsure++; { Quiet q; k0.insert(s.known.begin(), s.known.end()); }
            nask++;
            if (x == none) { nnull++; PBT_CHECK(dead || k0.count(false), "%s: node %d does not know whose the live link of registered node %d is", where, i, j); }
            else { PBT_CHECK(x == ids[j], "%s: node %d takes the link of node %d for one of node %d", where, i, j, who(x)); PBT_CHECK(k0.count(true), "%s: node %d takes a connection for the link of node %d, which is not registered", where, i, j); }
            std::set<std::pair<uint32_t, uint16_t>> a0; { Quiet q; a0 = s.addr; k0 = s.known; } NetAddr a = conn->get_peer_addr(); { Quiet q; a0.insert(s.addr.begin(), s.addr.end()); k0.insert(s.known.begin(), s.known.end()); dead = dead || conn->is_terminated(); } if (!dead) dead = !cur();
            if (a.is_null()) PBT_CHECK(dead || k0.count(false) || a0.count({0, 0}), "%s: node %d does not tell the address of node %d", where, i, j);
            else PBT_CHECK(a0.count(key(a)), "%s: node %d tells a wrong address of node %d (port %u)", where, i, j, ntohs(a.port));
            if (mode) { auto ce = conn->get_peer_cert(); PBT_CHECK(ce && ce->get_der() == g_ids[j].cert, "%s: node %d has a wrong certificate of node %d", where, i, j); }
        };
        for (int i = 0; i < n; i++) {
            PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_timeout(ct); cfg.ping_period(0.6); cfg.conn_server_timeout(0.5); nd[i].reset(new Node(i, P(i), mode, cfg));
            nd[i]->on_tok = [&, i](Tok &&m, const pconn_t &conn) {
                int kind = m.src >> 12, to = m.src >> 8 & 15, from = m.src >> 4 & 15; PBT_CHECK(to == i && from < n && from != i, "node %d receives a message from node %d to node %d", i, from, to);
                ask(i, from, conn, kind == 1 ? "request" : "reply");
                if (kind == 1) { nrep++; nd[i]->net->send_msg(Tok(0x2000 | from << 8 | i << 4, m.seq, 5), conn); } else nback++;
            };
            nd[i]->on_peer = [&, i](const pconn_t &conn, bool up) {
                if (!up) return; PeerId x = conn->get_peer_id(); if (x == none) { return; }
                int j = who(x); PBT_CHECK(j >= 0 && j != i, "node %d reports a link with an unknown identity", i); { Quiet q; owner[conn.get()] = j; } ask(i, j, conn, "established");
            };
            PBT_CHECK(nd[i]->net->get_peer_id() == ids[i], "node %d has a wrong identity of its own", i);
        }
        auto sync = [&](int i) { nd[i]->net->has_peer(pid(-1)); };
        auto add = [&](int i, int j) { auto &s = st[i][j]; if (s.has) return; { Quiet q; s.known = {false, true}; s.addr = {{0, 0}}; } nd[i]->net->add_peer(ids[j]); s.has = true; s.a = NetAddr(); s.tries = false; PBT_CHECK(nd[i]->net->has_peer(ids[j]), "an added peer is not known"); Quiet q; s.known = {true}; };
        auto del = [&](int i, int j) { auto &s = st[i][j]; if (!s.has) return; { Quiet q; s.known = {false, true}; s.addr.insert({0, 0}); } nd[i]->net->del_peer(ids[j]); s.has = false; s.tries = false; PBT_CHECK(!nd[i]->net->has_peer(ids[j]), "a deleted peer is known"); Quiet q; s.known = {false}; s.addr = {{0, 0}}; ndel++; };
        auto addr = [&](int i, int j, bool on) { auto &s = st[i][j]; if (!s.has) return; NetAddr a = on ? at(P(j)) : NetAddr(); { Quiet q; s.addr.insert(key(a)); } nd[i]->net->set_peer_addr(ids[j], a); sync(i); Quiet q; s.addr = {key(a)}; s.a = a; if (!on) s.tries = false; };
        auto conn = [&](int i, int j) { auto &s = st[i][j]; if (!s.has || s.a.is_null()) return; nd[i]->net->conn_peer(ids[j], -1, d); s.tries = true; };
        uint32_t seq = 0; auto say = [&](int i, int j, bool loop) { if (!st[i][j].has) return; uint32_t q = ++seq; auto fn = [&, i, j, q]() { try { nd[i]->net->send_msg(Tok(0x1000 | j << 8 | i << 4, q, 9), ids[j]); } catch (SalticidaeError &) {} }; if (loop) nd[i]->lp.post(fn); else fn(); };
        auto look = [&](int i, int j) {
            pconn_t x; try { x = nd[i]->net->get_peer_conn(ids[j]); } catch (SalticidaeError &e) { PBT_CHECK(e.get_code() == SALTI_ERROR_PEER_NOT_EXIST, "get_peer_conn fails with %s", e.what()); PBT_CHECK(!st[i][j].has, "get_peer_conn does not know a registered peer"); return; }
            PBT_CHECK(st[i][j].has, "get_peer_conn knows a peer that is not registered"); PBT_CHECK(x, "get_peer_conn gives nothing for a registered peer"); PeerId y = x->get_peer_id();
            PBT_CHECK(y == ids[j] || (y == none && x->is_terminated()), "node %d: get_peer_conn of node %d gives a connection of node %d", i, j, who(y));
        };
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && !c.chance(1, 8)) { add(i, j); if (!c.chance(1, 4)) addr(i, j, true); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && c.coin()) conn(i, j);
        if (c.coin()) sim::advance(0.1 * c.u(10));
        int steps = 2 + c.size(24); std::vector<int> raws;
        for (int k = 0; k < steps; k++) {
            int i = c.u(n - 1), j = c.u(n - 2); if (j >= i) j++;
            switch (c.u(14)) {
                case 0: case 1: case 2: for (int z = 1 + c.u(3); z > 0; z--) say(i, j, c.coin()); break;
                case 3: { auto e = sim::established(); if (!e.empty()) { sim::cut(e[c.u(e.size() - 1)], (sim::Cut)c.u(2)); ncut++; } break; }
                case 4: del(i, j); if (c.coin()) { add(i, j); addr(i, j, c.coin()); if (c.coin()) conn(i, j); } break;
                case 5: add(i, j); addr(i, j, true); conn(i, j); break;
                case 6: addr(i, j, c.coin()); nmove++; break;
                case 7: conn(i, j); break;
                case 8: case 9: look(i, j); break;
                case 10: if (st[i][j].has && c.coin()) nd[i]->net->connect(at(P(j))); break;
                case 12: case 13: { pconn_t x; int o = -1; { Quiet q; if (!nd[i]->links.empty()) { x = nd[i]->links[c.u(nd[i]->links.size() - 1)].conn; auto it = owner.find(x.get()); if (it != owner.end()) o = it->second; } } if (o >= 0) ask(i, o, x, "an earlier link"); break; }
                case 11: { int fd = sim::raw_connect(P(i), 50000 + k); if (fd >= 0) { Quiet q; raws.push_back(fd); } break; }
            }
            switch (c.u(3)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(60)); break; case 2: if (c.coin()) sim::advance(0.2 * c.u(10)); break; }
        }
        // quiet: everybody knows everybody, one side of each pair keeps trying
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { add(i, j); if (i < j || c.coin()) addr(i, j, true); if (i < j) conn(i, j); }
        for (int fd: raws) sim::raw_close(fd);
        auto current = [&](int i, int j) { pconn_t x = nd[i]->net->get_peer_conn(ids[j]); return x; };
        double t0 = sim::now(), stable = -1; uint32_t tok0 = seq;
        for (;;) {
            PBT_CHECK(sim::now() - t0 < 60 * (ct + 2 * d), "no stable links between nodes that know each other and try");
            double ch = 0; for (auto &x: nd) ch = std::max(ch, x->last_change); bool all = true;
            for (int i = 0; i < n; i++) { unsigned l = 0; for (auto &r: nd[i]->links) l += r.up && !r.down && !r.conn->is_terminated(); if ((int)l != n - 1) all = false; }
            if (all && sim::now() - ch > 2 * ct + 1) break; stable = ch; sim::advance(0.5);
        }
        (void)stable; (void)tok0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
            pconn_t x = current(i, j); PBT_CHECK(x && !x->is_terminated(), "node %d: the current connection of node %d is not alive", i, j);
            bool rep = false; { Quiet q; for (auto &r: nd[i]->links) if (r.conn.get() == x.get() && r.up && !r.down) rep = true; } PBT_CHECK(rep, "node %d: the current connection of node %d is not the link that was reported", i, j);
            PBT_CHECK(x->get_peer_id() == ids[j], "node %d: the link of node %d has a wrong identity", i, j); PBT_CHECK(key(x->get_peer_addr()) == key(st[i][j].a), "node %d: the link of node %d has a wrong address", i, j);
            if (mode) PBT_CHECK(x->get_peer_cert() && x->get_peer_cert()->get_der() == g_ids[j].cert, "node %d: the link of node %d has a wrong certificate", i, j);
            pconn_t y = current(j, i); bool ax = x->get_mode() == ConnPool::Conn::ACTIVE, ay = y->get_mode() == ConnPool::Conn::ACTIVE; PBT_CHECK(ax != ay, "both ends of a link are %s", ax ? "active" : "passive"); if (ax) PBT_CHECK(key(x->get_addr()) == key(at(P(j))), "an active link has a wrong remote address");
        }
        for (int i = 0; i < n; i++) PBT_CHECK(nd[i]->net->get_npending() == 0, "node %d: %zu inbound connections are pending although nobody else is connected", i, nd[i]->net->get_npending());
        // messages through the connections named reach exactly those peers, and replies return
        unsigned b0 = nback; int m = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { m++; PBT_CHECK(nd[i]->net->send_msg(Tok(0x1000 | j << 8 | i << 4, ++seq, 9), current(i, j)), "a message is refused on a live link"); }
        PBT_CHECK(sim::await([&]() { return nback >= b0 + m; }, 3 + ct), "%u of %d requests through the current links are answered", nback - b0, m);
        if (nsure >= 4 && (ncut || ndel || nmove)) c.nontrivial(); if (ncut) c.label("link cut"); if (ndel) c.label("peer deleted"); if (nmove) c.label("address changed"); if (mode) c.label(mode == 1 ? "TLS" : "TLS, certificates"); if (nnull) c.label("asked about a dead link");
        c.note("%d nodes, %u questions (%u about a current link, %u without an answer), %u requests, %u replies, %u cuts, %u deletions", n, nask, nsure, nnull, nrep, nback, ncut, ndel);
        for (auto &x: nd) { x->on_tok = nullptr; x->on_peer = nullptr; } for (auto &x: nd) x.reset(); PBT_CHECK(!sim::open_socks(), "sockets stay open");
    });
}
int main(int argc, char **argv) { make_idents(3); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"mesh", t_mesh, 1}}, o); }
