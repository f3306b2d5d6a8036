// C30: a multicast is a send to each listed peer, in order with the caller's other deferred sends; failures are reported once.
#include "peersim.h"
typedef std::pair<uint32_t, uint32_t> K;
struct Op { std::vector<int> to; int32_t ticket; bool unknown; size_t upto, len; bool direct, ok; };     // to: node numbers as listed, upto: index of the first unknown one
static void t_mesh(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; sim::set_prof(pr);
        int mode = c.chance(1, 5) ? 1 + c.u(1) : 0, n = 2 + c.u(2); double ct = 60, pp = 10 + 5 * c.u(2), d = 1 + 0.5 * c.u(2);
        bool bounded = c.chance(1, 4); size_t cap = 1u << (1 + c.u(3));
        std::vector<std::unique_ptr<Node>> nd(n); std::map<uint32_t, std::deque<Op>> sent; std::vector<std::map<uint32_t, std::vector<uint32_t>>> got(n);
        auto P = [](int i) { return (uint16_t)(20000 + i); };
        auto pid = [&](int i) { return i < 0 ? PeerId(at(29000 - i)) : pid_of(i, P(i), mode); };
        std::vector<std::vector<char>> known(n, std::vector<char>(n, 1)), lossy(n, std::vector<char>(n, 0)), sure(n, std::vector<char>(n, 0)); unsigned nmulti = 0, wide = 0, nunk = 0, ndel = 0, nref = 0, early = 0;
        for (int i = 0; i < n; i++) {
            PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.max_msg_size(4000); cfg.conn_timeout(ct); cfg.ping_period(pp); if (bounded) cfg.max_send_buff_size(cap); if (c.chance(1, 6)) cfg.burst_size(1 + c.u(2));
            nd[i].reset(new Node(i, P(i), mode, cfg));
            nd[i]->on_tok = [&, i](Tok &&m, const pconn_t &conn) {
                Quiet q; int s = m.src >> 8 & 15;
                auto it = sent.find(m.src); PBT_CHECK(it != sent.end() && m.seq < it->second.size(), "node %d receives a message nobody sent (%x/%u)", i, m.src, m.seq);
                auto &o = it->second[m.seq]; auto k = std::count(o.to.begin(), o.to.end(), i);
                PBT_CHECK(k, "node %d receives message %x/%u of node %d, which is not addressed to it", i, m.src, m.seq, s);
                PBT_CHECK(m.data.size() == o.len, "node %d receives %zu bytes instead of %zu", i, m.data.size(), o.len);
                auto &v = got[i][m.src]; PBT_CHECK(v.empty() || v.back() <= m.seq, "node %d receives message %x/%u after %u", i, m.src, m.seq, v.back());
                v.push_back(m.seq); PBT_CHECK(std::count(v.begin(), v.end(), m.seq) <= k, "node %d receives message %x/%u more often (%ld) than it is listed", i, m.src, m.seq, (long)std::count(v.begin(), v.end(), m.seq));
            };
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { nd[i]->net->add_peer(pid(j)); nd[i]->net->set_peer_addr(pid(j), at(P(j))); PBT_CHECK(nd[i]->net->has_peer(pid(j)), "not known"); }
        // which 0: deferred and multicast by the controller, 1: the same by the user's loop, 2: direct sends by the controller
        auto issue = [&](int i, int which, int kind, std::vector<int> to, size_t len) {
            uint32_t src = 0x1000 | i << 8 | which, q; Op *o;
            {
                Quiet _; auto &v = sent[src]; q = v.size(); v.push_back(Op{to, -1, false, to.size(), len, which == 2, true}); o = &v.back();
                for (size_t k = 0; k < to.size(); k++) if (to[k] < 0 || to[k] == i || !known[i][to[k]]) { o->unknown = true; o->upto = k; break; }
            }
            if (kind == 2) {
                try { o->ok = nd[i]->net->send_msg(Tok(src, q, len), pid(to[0])); PBT_CHECK(!o->unknown || (to[0] >= 0 && to[0] != i && !sure[i][to[0]]), "a message to an unknown peer is accepted"); PBT_CHECK(o->ok || bounded, "a message is refused although the queue has no limit"); }
                catch (SalticidaeError &e) { PBT_CHECK(o->unknown && e.get_code() == SALTI_ERROR_PEER_NOT_EXIST, "send fails with %s", e.what()); o->ok = false; }
            } else if (kind == 1) o->ticket = nd[i]->net->send_msg_deferred(Tok(src, q, len), pid(to[0]));
            else { std::vector<PeerId> l; { Quiet _; for (int x: to) l.push_back(pid(x)); } o->ticket = nd[i]->net->multicast_msg(Tok(src, q, len), l); }
        };
        auto burst = [&](int i) {
            int which = c.chance(1, 6) ? 2 : c.u(1), m = 1 + c.size(8); 
            struct A { int kind; std::vector<int> to; size_t len; }; std::vector<A> as;
            for (int k = 0; k < m; k++) {
                A a; a.kind = which == 2 ? 2 : c.chance(1, 4); a.len = c.chance(1, 8) ? c.u(2000) : c.u(80); int w = a.kind ? 1 : c.chance(1, 8) ? c.u(8) : 1 + c.u(n);
                for (int x = 0; x < w; x++) { int j = c.chance(1, 14) ? -1 - (int)c.u(1) : (int)c.u(n - 1); if (j == i && !c.chance(1, 20)) j = (i + 1) % n; a.to.push_back(j); }
                Quiet _; if (!a.kind) nmulti++; std::set<int> s(a.to.begin(), a.to.end()); if (s.size() >= 2) wide++; as.push_back(a);
            }
            if (which == 1) nd[i]->lp.post([&, i, as]() { for (auto &a: as) issue(i, 1, a.kind, a.to, a.len); });
            else for (auto &a: as) issue(i, which, a.kind, a.to, a.len);
        };
        std::vector<std::pair<int, int>> todo; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) todo.push_back(c.coin() ? std::make_pair(i, j) : std::make_pair(j, i));
        auto connect_one = [&]() { size_t k = c.u(todo.size() - 1); auto p = todo[k]; todo.erase(todo.begin() + k); if (known[p.first][p.second]) nd[p.first]->net->conn_peer(pid(p.second), -1, d); };
        if (c.coin()) { while (!todo.empty()) connect_one(); sim::advance(0.3); }
        int steps = 1 + c.size(16);
        for (int k = 0; k < steps; k++) {
            int i = c.u(n - 1);
            switch (c.u(9)) {
                case 0: case 1: case 2: case 3: case 4: case 5: burst(i); early += !todo.empty(); break;
                case 6: if (!todo.empty()) connect_one(); break;
                case 7: if (c.chance(1, 4)) {
                    int j = c.u(n - 1); if (j == i || !known[i][j]) break;
                    nd[i]->lp.run([]() {});                                     // what the user's loop was asked to send has been posted
                    nd[i]->net->del_peer(pid(j)); known[i][j] = 0; lossy[i][j] = lossy[j][i] = 1; ndel++;
                    if (c.coin()) { PBT_CHECK(!nd[i]->net->has_peer(pid(j)), "still known"); sure[i][j] = 1; }
                } break;
                case 8: for (int s = 0; s < n; s++) burst(s); break;
                case 9: sim::advance(0.01 * c.u(50)); break;
            }
            switch (c.u(5)) { case 0: sim::settle(); break; case 1: sim::advance(0.001 * c.u(20)); break; case 2: sim::advance(0.0002 * c.u(40)); break; }
        }
        while (!todo.empty()) connect_one();
        for (int i = 0; i < n; i++) nd[i]->lp.run([]() {});
        // how often node j should have it (exactly if it is certain)
        auto must = [&](uint32_t src, uint32_t q, int j, bool &exact) -> long {
            int i = src >> 8 & 15; auto &o = sent[src][q]; exact = true;
            if (o.direct) { exact = !lossy[i][j]; return o.ok ? std::count(o.to.begin(), o.to.end(), j) : 0; }
            long b = std::count(o.to.begin(), o.to.begin() + o.upto, j), a = std::count(o.to.begin(), o.to.end(), j);
            if (lossy[i][j]) exact = false;
            if (bounded && nd[i]->errs.count(o.ticket)) exact = false;
            if (a != b) { exact = false; }
            return exact ? a : b;
        };
        auto cnt = [&](int j, uint32_t src, uint32_t q) { auto it = got[j].find(src); return it == got[j].end() ? 0L : (long)std::count(it->second.begin(), it->second.end(), q); };
        auto done = [&]() { for (auto &v: sent) for (uint32_t q = 0; q < v.second.size(); q++) for (int j = 0; j < n; j++) { int i = v.first >> 8 & 15; if (i == j) continue; bool ex; long m = must(v.first, q, j, ex); if ((ex || (!lossy[i][j] && !bounded)) && cnt(j, v.first, q) < m) return false; } return true; };
        bool all = sim::await([&]() { Quiet q; return done(); }, 30);
        sim::advance(0.5);
        for (auto &v: sent) for (uint32_t q = 0; q < v.second.size(); q++) {
            int i = v.first >> 8 & 15; auto &o = v.second[q];
            bool anylossy = false; long miss = 0, listed = 0;
            for (int j = 0; j < n; j++) {
                if (j == i) continue;
                bool ex; long m = must(v.first, q, j, ex), g = cnt(j, v.first, q), a = std::count(o.to.begin(), o.to.end(), j);
                if (a && lossy[i][j]) anylossy = true;
                if (ex || (!lossy[i][j] && !bounded)) PBT_CHECK(g >= m, "node %d gets message %x/%u of node %d %ld times, it is listed %ld times%s", j, v.first, q, i, g, m, ex ? "" : " before the first unknown peer");
                listed += a; miss += a - g;
            }
            if (o.direct) continue;
            auto it = nd[i]->errs.find(o.ticket); size_t ne = it == nd[i]->errs.end() ? 0 : it->second.size();
            if (o.unknown) { PBT_CHECK(ne == 1 && it->second[0] == SALTI_ERROR_PEER_NOT_EXIST, "message %x/%u names an unknown peer: %zu errors (first %d)", v.first, q, ne, ne ? it->second[0] : -1); nunk++; }
            else if (ne) {
                PBT_CHECK(bounded && ne == 1 && it->second[0] == SALTI_ERROR_CONN_NOT_READY, "message %x/%u: %zu errors (first %d)", v.first, q, ne, it->second[0]); nref++;
                PBT_CHECK(anylossy || miss > 0, "message %x/%u is reported to have failed but every listed peer got it", v.first, q);
            } else PBT_CHECK(anylossy || !miss, "message %x/%u: %ld of %ld deliveries are missing and no error is reported", v.first, q, miss, listed);
        }
        (void)all;
        size_t tk = 0; for (auto &v: sent) for (auto &o: v.second) if (!o.direct) tk++;
        for (int i = 0; i < n; i++) for (auto &e: nd[i]->errs) { bool ours = false; for (auto &v: sent) if ((int)(v.first >> 8 & 15) == i) for (auto &o: v.second) if (!o.direct && o.ticket == e.first) ours = true; PBT_CHECK(ours, "node %d: an error (%d) is reported with the ticket of a call that succeeded", i, e.second[0]); }
        if (n > 2 && wide >= 2) c.nontrivial();
        if (nunk) c.label("unknown peer named"); if (nref) c.label("full buffer"); if (ndel) c.label("peer deleted"); if (early) c.label("before the links"); if (mode) c.label("TLS");
        c.note("%d nodes, %u multicasts (%u to two or more), %u unknown, %u refused, %u deletions", n, nmulti, wide, nunk, nref, ndel);
        for (auto &x: nd) x.reset();
    });
}
int main(int argc, char **argv) { make_idents(4); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"mesh", t_mesh, 1}}, o); }
