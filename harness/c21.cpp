// C21: whatever strangers say, only registered identities become peers, and the registered ones do not notice.
#include "rawtls.h"
#include "peersim.h"
static const uint16_t P0 = 20000, P1 = 20001, P2 = 20002, PS = 20003;
static NetAddr mkaddr(uint32_t ip, uint16_t port) { NetAddr a; a.ip = ip; a.port = port; return a; }
struct Str {       // a stranger's connection
    int fd = -1; std::unique_ptr<RawTls> t; Bytes in; unsigned toks = 0, pongs = 0, pings = 0; bool eof = false, active; double since = 0; bool said = false, bad = false; int must = -1; std::vector<NetAddr> may; int id;
    void poll() {
        Bytes d = t ? t->recv() : sim::raw_recv(fd); { Quiet q; in.insert(in.end(), d.begin(), d.end()); }
        Quiet q; for (auto &m: dec(in)) { PBT_CHECK(m.sum, "a stranger receives a corrupted message"); if (m.op == 0xf0) pings++; else if (m.op == 0xf1) pongs++; else toks++; }
        if (sim::raw_eof(fd)) eof = true;
    }
    void send(const Bytes &b) { if (t) t->send(b); else sim::raw_send_all(fd, b); }
    ~Str() { t.reset(); if (fd >= 0) sim::raw_close(fd); }
};
static unsigned ends(Node &n) { unsigned k = 0; for (auto &r: n.links) if (r.up && r.down) k++; return k; }     // (the end of a failed attempt is reported as well)
static void t_strangers(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; int mode = c.chance(1, 3) ? 1 + c.u(1) : 0; if (mode) { if (pr.send_cap && pr.send_cap < 200) pr.send_cap = 200; if (pr.recv_cap && pr.recv_cap < 200) pr.recv_cap = 200; } sim::set_prof(pr);
        double ct = 3 + c.u(3), st = 0.5 + 0.25 * c.u(4);
        bool imp = mode < 2 && c.chance(1, 4);      // strangers may claim registered addresses (which are not authenticated then)
        PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(st); cfg.conn_timeout(ct); cfg.ping_period(0.5 + 0.5 * c.u(2));
        auto pid = [&](int i) { return pid_of(i, P0 + i, mode); };
        std::set<PeerId> reg{pid(1), pid(2)}; bool rogue_ok = false; std::unique_ptr<Node> n2, ns; Node n0(0, P0, mode, cfg), n1(1, P1, mode, cfg); auto *N = n0.net;        // (what the callbacks use outlives the nodes)
        n0.on_peer = [&](const pconn_t &conn, bool up) { if (up) { auto id = conn->get_peer_id(); Quiet q; if (id == PeerId()) return;      // (replaced already)
            PBT_CHECK(reg.count(id), "an established link is reported for an identity that is not registered"); unsigned p = ntohs(conn->get_addr().port);
            if (!imp) PBT_CHECK(p < 51000, "a stranger's connection is reported as a peer's link"); if (!imp && !n2 && !rogue_ok) PBT_CHECK(p != P2, "a stranger at a peer's address is reported as the peer"); } };
        n0.on_tok = [&](Tok &&m, const pconn_t &conn) { (void)conn; (void)m; };
        N->add_peer(pid(1)); n1.net->add_peer(pid(0)); N->add_peer(pid(2)); N->set_peer_addr(pid(2), at(P2));
        N->set_peer_addr(pid(1), at(P1)); n1.net->set_peer_addr(pid(0), at(P0)); double d = 0.3 + 0.3 * c.u(2);
        PBT_CHECK(N->has_peer(pid(1)) && N->has_peer(pid(2)) && n1.net->has_peer(pid(0)), "an added peer is not known");
        bool first = c.chance(3, 4); int lfd = -1; int who = c.u(2);
        auto link1 = [&]() { if (who != 1) N->conn_peer(pid(1), -1, d); if (who != 0) n1.net->conn_peer(pid(0), -1, d); };
        if (first) { link1(); PBT_CHECK(sim::await([&]() { return n0.linked() && n1.linked(); }, 30 * (ct + d)), "two peers that know each other are not connected"); sim::advance(2 * ct + 2 * d); }
        unsigned up0 = n0.nup, down0 = ends(n0), up1 = n1.nup, down1 = ends(n1);
        uint32_t s01 = 0, s10 = 0, s02 = 0; uint32_t nto = 0;
        std::vector<std::unique_ptr<Str>> S; std::map<std::pair<int, std::string>, int> must, may; unsigned nframes = 0, claims = 0, rogue = 0, manual = 0, honest = 0;
        static const uint32_t NC[] = {0, 1, 2, 0x7fff, 0xfffe, 0xffff, 0x10000, 0xffffffffu};
        auto gaddr = [&](Str &) -> NetAddr {
            if (imp && c.coin()) return at(P1 + c.u(1));
            switch (c.u(6)) {
                case 0: return at(30001 + c.u(2)); case 1: return at(PS); case 2: return at(P0); case 3: return mkaddr(c.u(0xffffffffu), c.u(0xffff));
                case 4: return imp || mode == 2 ? at(P1 + c.u(1)) : at(30000); case 5: return imp || mode == 2 ? at(P1 + c.u(1)) : mkaddr(0x0100007f, 0); default: return mkaddr(0, htons(1 + c.u(9)));
            }
        };
        auto ping = [&](uint8_t op, uint8_t flag, NetAddr a, uint32_t nonce) { DataStream s; s << flag << a << htole(nonce); return enc(op, Bytes(s.data(), s.data() + s.size())); };
        auto frame = [&](Str &x) -> Bytes {
            nframes++; uint8_t op = c.chance(1, 4) ? 0xf1 : 0xf0; if (x.active) op = 0xf0 + c.u(1);
            switch (c.u(9)) {
                case 0: case 1: case 2: case 3: {
                    NetAddr a = gaddr(x); uint32_t n = NC[c.u(7)]; claims++;
                    if (!a.is_null()) { Quiet q; if (op == 0xf0 && !x.active) { if (!x.bad && x.must < 0 && sim::now() < x.since + ct - 0.01) { x.must = 0; x.may.push_back(a); } else x.may.push_back(a); } if (x.active && op == 0xf1 && mode < 2 && a == at(P2)) rogue_ok = true; }
                    return ping(op, c.chance(1, 8) ? 2 + c.u(253) : 1, a, n); }
                case 4: return enc(op, Bytes{0});
                case 5: { Bytes p(c.u(10), 1); if (p.size() > 4) p[1] = 127; x.bad = true; x.must = -1; return enc(op, p); }      // too short
                case 6: return ping(op, 1, NetAddr(), NC[c.u(7)]);
                case 7: { Bytes b = enc(op, Bytes{0}); b[9] ^= 1 + c.u(254); return b; }
                case 8: return enc(2 + c.u(200), content(c.u(99), c.u(60)));
                default: return enc(1, body(0xbad, c.u(9), c.u(60)));
            }
        };
        auto pump = [&]() { for (auto &x: S) x->poll(); };
        auto accept = [&]() {
            if (lfd < 0) return;
            for (int fd; (fd = sim::raw_accept(lfd)) >= 0;) {
                auto *x = new Str(); { Quiet q; S.emplace_back(x); } x->fd = fd; x->active = true; x->since = sim::now(); x->id = 3 + c.u(1); rogue++;
                if (mode) { x->t.reset(new RawTls(fd, x->id, false, true)); x->t->handshake(); }
            }
        };
        int n = 2 + c.size(20);
        for (int k = 0; k < n; k++) {
            switch (c.u(9)) {
                case 0: case 1: if (S.size() < 8) {
                    int fd = sim::raw_connect(P0, 51000 + k); if (fd < 0) break;
                    auto *x = new Str(); { Quiet q; S.emplace_back(x); } x->fd = fd; x->active = false; x->id = 3 + c.u(1);
                    if (mode) { x->t.reset(new RawTls(fd, x->id, c.coin())); if (!x->t->handshake()) fail("a TLS connection is not accepted"); } x->since = sim::now();
                } break;
                case 2: case 3: case 4: if (!S.empty()) {
                    auto &x = *S[c.u(S.size() - 1)]; x.poll(); if (x.eof) break; x.said = true;
                    Bytes b; for (int m = 1 + c.u(2); m > 0; m--) { auto f = frame(x); b.insert(b.end(), f.begin(), f.end()); }
                    size_t cut = c.coin() ? b.size() : c.u(b.size()); if (cut) x.send(Bytes(b.begin(), b.begin() + cut)); if (cut < b.size()) { sim::settle(); x.send(Bytes(b.begin() + cut, b.end())); }
                } break;
                case 5: if (lfd < 0 && !n2) { lfd = sim::raw_listen(P2); } N->conn_peer(pid(2), (int)c.u(3) - 1, d); break;
                case 6: N->connect(at(c.coin() ? P2 : PS)); manual++; break;
                case 7: if (!ns && !c.chance(2, 3)) { ns.reset(new Node(3, PS, mode, cfg)); ns->net->add_peer(pid(0)); ns->net->set_peer_addr(pid(0), at(P0)); ns->net->conn_peer(pid(0), -1, d); honest++; } break;
                case 8: if (first) { N->send_msg(Tok(0, s01++, c.u(60)), pid(1)); n1.net->send_msg(Tok(1, s10++, c.u(60)), pid(0)); } N->send_msg(Tok(2, s02++, c.u(60)), pid(2)); break;
                case 9: if (!first) { first = true; link1(); up0 = n0.nup; nto = 1; } break;
            }
            switch (c.u(4)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(100)); break; case 2: if (c.chance(1, 3)) sim::advance(0.1 * c.u(60)); break; }
            accept(); pump();
        }
        sim::settle(); accept(); pump(); sim::settle(); pump();
        if (!first) { first = true; nto = 1; link1(); }
        // who claimed an unregistered identity is out, the others leave in time
        auto expect = [&]() { for (auto &x: S) if (x->must >= 0) { x->poll(); PBT_CHECK(x->eof || imp, "a stranger that has identified itself stays connected"); } };
        for (int i = 0; i < 8; i++) { bool in = false; for (auto &x: S) if (x->must >= 0 && !x->eof) in = true; if (!in) break; sim::advance(0.25); accept(); pump(); }      // a TLS handshake may be completed late
        expect();
        double last = 0; for (auto &x: S) last = std::max(last, x->since);
        for (double t = sim::now(); sim::now() < t + ct + 4;) { sim::advance(0.25); accept(); pump(); }
        for (auto &x: S) if (sim::now() > x->since + ct + 4) PBT_CHECK(x->eof || imp, "a stranger is still connected %.1f s after it came (%s, mode %d, fd %d, %s, handshake %d)", sim::now() - x->since, x->active ? "listener" : "client", mode, x->fd, x->said ? "spoke" : "silent", x->t ? x->t->done : -1);
        // what has been reported about strangers
        if (!imp) {
            Quiet q; std::map<std::pair<bytearray_t, std::string>, int> rep; for (auto &u: n0.unknown) rep[{u.second, std::string(u.first)}]++;
            auto cert = [&](Str &x) { return mode ? g_ids[x.id].cert : bytearray_t(); };
            for (auto &x: S) if (x->must >= 0) { auto &r = rep[{cert(*x), std::string(x->may[0])}]; PBT_CHECK(r > 0, "a stranger that claimed %s is not reported", std::string(x->may[0]).c_str()); r--; }
            for (auto &x: S) for (size_t i = x->must >= 0; i < x->may.size(); i++) { auto &r = rep[{cert(*x), std::string(x->may[i])}]; if (r > 0) r--; }
            for (auto &r: rep) if (r.second > 0) { bool s = ns && r.first.second == std::string(at(PS)) && r.first.first == (mode ? g_ids[3].cert : bytearray_t()); PBT_CHECK(s, "a stranger claiming %s is reported %d times too often", r.first.second.c_str(), r.second); }
        }
        if (ns) { PBT_CHECK(!ns->nup && ns->got.empty(), "an unregistered node is connected as a peer"); }
        for (auto &x: S) if (!imp && !(x->active && rogue_ok)) { PBT_CHECK(!x->toks, "a stranger receives %u messages addressed to a peer", x->toks); if (!x->active) PBT_CHECK(!x->pings, "a stranger is pinged like a peer"); }
        unsigned rog = rogue; (void)rog;
        if (lfd >= 0) sim::raw_unlisten(lfd); lfd = -1; S.clear(); sim::settle();
        bool away = rogue_ok || imp;
        if (!away && !nto) {
            PBT_CHECK(n0.nup == up0 && ends(n0) == down0 && n1.nup == up1 && ends(n1) == down1, "the link of the registered peers is disturbed (%u/%u, %u/%u more changes)", n0.nup - up0, ends(n0) - down0, n1.nup - up1, ends(n1) - down1);
            auto seq = [&](std::vector<uint32_t> &v, uint32_t m, const char *w) { PBT_CHECK(v.size() == m, "%s: %zu of %u messages arrived", w, v.size(), m); for (uint32_t i = 0; i < m; i++) PBT_CHECK(v[i] == i, "%s: wrong order", w); };
            seq(n1.got[0], s01, "registered peer"); seq(n0.got[1], s10, "from the registered peer");
        }
        // the registered ones work as if nothing had been
        n2.reset(new Node(2, P2, mode, cfg)); n2->net->add_peer(pid(0)); N->conn_peer(pid(2), -1, d);
        PBT_CHECK(n2->net->has_peer(pid(0)) && N->has_peer(pid(2)), "a registered peer is not known");
        for (int i = 1; i < 3; i++) { Node &o = i == 1 ? n1 : *n2; uint32_t r = 0; double t0 = sim::now();
            for (;;) { PBT_CHECK(sim::now() - t0 < 40 * (ct + 2 * d + st), "no working link with registered peer %d after the strangers left (%u up, %u down)", i, n0.nup, n0.ndown);
                r++; N->send_msg(Tok(0x10 + i, r, 9), pid(i)); o.net->send_msg(Tok(0x20 + i, r, 9), pid(0));
                auto ok = [&](Node &x, uint32_t s) { auto &v = x.got[s]; return !v.empty() && v.back() == r; };
                sim::await([&]() { return ok(o, 0x10 + i) && ok(n0, 0x20 + i); }, 2); if (ok(o, 0x10 + i) && ok(n0, 0x20 + i)) break; } }
        if (!away) { auto &v = n2->got[2]; PBT_CHECK(v.size() == s02, "%zu of %u messages queued for a peer arrived", v.size(), s02); for (uint32_t i = 0; i < s02; i++) PBT_CHECK(v[i] == i, "messages queued for a peer arrive in another order"); }
        bool joined = ns && c.coin();
        if (joined) { { Quiet q; reg.insert(pid(3)); } N->add_peer(pid(3)); PBT_CHECK(sim::await([&]() { return ns->linked(); }, 20 * (ct + 2 * d + st)), "a node is not connected after it has been registered"); }
        sim::advance(2 * ct + 1);
        { unsigned live = 0; for (auto &r: n0.links) if (r.up && !r.down) { live++; PBT_CHECK(!r.conn->is_terminated(), "a link is gone but its end is not reported"); } PBT_CHECK(live == 2u + joined, "%u links are reported instead of %u", live, 2 + joined);
          ns.reset(); sim::settle(); size_t np = N->get_npending(); PBT_CHECK(!np, "%zu connections are pending", np); }
        bool met = c.chance(1, 3);
        if (met) {      // a node introduces itself by a connection of its own, is reported, and may be registered then
            Node nv(4, P0 + 4, mode, cfg); size_t k0 = n0.unknown.size(), up = n0.nup; nv.net->connect(at(P0));
            auto cert = mode ? g_ids[4].cert : bytearray_t(); auto rep = [&]() { unsigned k = 0; for (size_t i = k0; i < n0.unknown.size(); i++) if (n0.unknown[i].first == at(P0 + 4) && n0.unknown[i].second == cert) k++; return k; };
            sim::await([&]() { return rep() > 0; }, 2); PBT_CHECK(rep() == 1, "a node that connects on its own is reported %u times", rep());
            sim::settle(); PBT_CHECK(n0.nup == up && !nv.nup && !N->has_peer(pid(4)), "a node that introduced itself is taken as a peer");
            if (c.coin()) { { Quiet q; reg.insert(pid(4)); } N->add_peer(pid(4)); N->set_peer_addr(pid(4), at(P0 + 4)); nv.net->add_peer(pid(0)); N->conn_peer(pid(4), -1, d);
                PBT_CHECK(sim::await([&]() { return nv.linked(); }, 20 * (ct + 2 * d + st)), "a node that introduced itself cannot be connected after both have registered each other"); }
        }
        if (met) c.label("introduction");
        if (nframes >= 2) c.nontrivial(); if (imp) c.label("claims registered addresses"); if (mode) c.label(mode == 1 ? "TLS, address identities" : "TLS, certificate identities"); if (rogue) c.label("stranger at a peer's address"); if (honest) c.label("unregistered node"); if (joined) c.label("registered later"); if (manual) c.label("manual connection"); if (claims) c.label("claims an identity");
        c.note("%u frames, %u claims, %u accepted by a rogue, %u strangers reported", nframes, claims, rogue, (unsigned)n0.unknown.size());
    });
}
int main(int argc, char **argv) { make_idents(5); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"strangers", t_strangers, 1}}, o); }
