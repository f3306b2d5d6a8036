// C19: messages queued for a peer survive reconnection; the wire of every link is a sequence of whole messages.
#include "peersim.h"
static const uint16_t P[2] = {20000, 20001};
typedef std::pair<uint32_t, uint32_t> K;
struct Snt { uint32_t seq; size_t len; bool ok; int32_t ticket; };
static void t_queue(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 20) pr.send_cap = 20; if (pr.recv_cap && pr.recv_cap < 20) pr.recv_cap = 20; sim::set_prof(pr);
        int mode = c.chance(1, 5) ? 1 + c.u(1) : 0; double ct = 3 + c.u(3), pp = 0.5 + 0.5 * c.u(2), st = 0.5 + 0.25 * c.u(4), d = 0.2 + 0.3 * c.u(3);
        sim::rec_wire = !mode;
        bool refuse = false; sim::on_connect = [&](uint16_t) { return refuse ? 0 : 2; };
        int who = c.u(2); bool bounded = c.chance(1, 4); size_t cap = 1u << (1 + c.u(3)); unsigned faults = 0, nsend = 0, refused = 0, before = 0;
        std::unique_ptr<Node> nd[2]; std::map<uint32_t, std::deque<Snt>> sent; std::map<std::pair<const void *, uint32_t>, uint32_t> last; std::map<std::pair<uint32_t, uint32_t>, unsigned> seen;
        auto pid = [&](int i) { return pid_of(i, P[i], mode); };
        for (int i = 0; i < 2; i++) {
            PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.max_msg_size(4000); cfg.conn_server_timeout(st); cfg.conn_timeout(ct); cfg.ping_period(pp); if (bounded) cfg.max_send_buff_size(cap); if (c.chance(1, 6)) cfg.max_recv_buff_size(1 + c.u(3)); else if (c.chance(1, 6)) cfg.recv_chunk_size(16 + c.u(100)); if (c.chance(1, 6)) cfg.burst_size(1 + c.u(2));
            nd[i].reset(new Node(i, P[i], mode, cfg));
            nd[i]->on_tok = [&, i](Tok &&m, const pconn_t &conn) {
                Quiet q;
                PBT_CHECK((int)(m.src >> 8 & 1) == !i, "node %d receives a message for the other node", i);
                auto it = sent.find(m.src); PBT_CHECK(it != sent.end() && m.seq < it->second.size(), "node %d receives a message nobody sent (%x/%u)", i, m.src, m.seq);
                PBT_CHECK(m.data.size() == it->second[m.seq].len, "node %d receives %zu bytes instead of %zu", i, m.data.size(), it->second[m.seq].len);
                PBT_CHECK(++seen[K(m.src, m.seq)] == 1, "message %x/%u is received twice", m.src, m.seq);
                auto k = std::make_pair((const void *)conn.get(), m.src); auto l = last.find(k);
                if (l != last.end()) PBT_CHECK(l->second < m.seq, "message %x/%u is received after %u on the same link", m.src, m.seq, l->second);
                last[k] = m.seq;
            };
        }
        for (int i = 0; i < 2; i++) { nd[i]->net->add_peer(pid(!i)); if (who == 2 || who == i || c.coin()) nd[i]->net->set_peer_addr(pid(!i), at(P[!i])); PBT_CHECK(nd[i]->net->has_peer(pid(!i)), "not known"); }
        // kind 0: direct by the controller, 1: direct by the user's loop, 2: deferred by the controller, 3: multicast by the user's loop
        auto dosend = [&](int i, int kind, size_t len) {
            uint32_t src = 0x1000 | i << 8 | kind; Snt *s; uint32_t q;
            { Quiet _; auto &v = sent[src]; q = v.size(); v.push_back(Snt{q, len, true, -1}); s = &v.back(); nsend++; }
            if (kind < 2) { s->ok = nd[i]->net->send_msg(Tok(src, q, len), pid(!i)); if (!s->ok) { PBT_CHECK(bounded, "a message is refused although the queue has no limit"); refused++; } }
            else if (kind == 2) s->ticket = nd[i]->net->send_msg_deferred(Tok(src, q, len), pid(!i));
            else s->ticket = nd[i]->net->multicast_msg(Tok(src, q, len), std::vector<PeerId>{pid(!i)});
        };
        auto burst = [&](int i) {
            int kind = c.u(3), m = 1 + c.size(12); size_t len = c.chance(1, 8) ? c.u(2000) : c.u(80);
            if (kind & 1) nd[i]->lp.post([&, i, kind, m, len]() { for (int k = 0; k < m; k++) dosend(i, kind, len + k % 3); });
            else for (int k = 0; k < m; k++) dosend(i, kind, len + k % 3);
        };
        if (c.coin()) for (int k = c.u(3); k >= 0; k--) { burst(c.u(1)); before++; }
        for (int i = 0; i < 2; i++) if (who == 2 || who == i) nd[i]->net->conn_peer(pid(!i), -1, d);
        int n = c.size(16);
        for (int k = 0; k < n; k++) {
            int i = c.u(1);
            switch (c.u(9)) {
                case 0: case 1: case 2: case 3: burst(i); break;
                case 4: case 5: { auto e = sim::established(); if (!e.empty()) { sim::cut(e[c.u(e.size() - 1)], (sim::Cut)c.u(3), c.u(200)); faults++; } break; }
                case 6: { auto conn = nd[i]->net->get_peer_conn(pid(!i)); nd[i]->net->terminate(conn); faults++; break; }
                case 7: if (c.chance(1, 3) && (who == 2 || who == i)) { nd[i]->net->conn_peer(pid(!i), -1, d); faults++; } break;
                case 8: refuse = c.coin(); faults += refuse; break;
                case 9: for (int s = 0; s < 2; s++) burst(s); { auto e = sim::established(); if (!e.empty()) { sim::advance(0.0001 * c.u(20)); sim::cut(e[0], (sim::Cut)c.u(3), c.u(200)); faults++; } } break;
            }
            switch (c.u(5)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(100)); break; case 2: sim::advance(0.0002 * c.u(40)); break; case 3: if (c.chance(1, 3)) sim::advance(0.1 * c.u(60)); break; }
        }
        refuse = false;
        // a stable link again, everything moved
        double t0 = sim::now(), budget = 40 * (ct + 2 * d + st);
        for (int good = 0; good < 2;) {
            PBT_CHECK(sim::now() - t0 < budget, "no working link after %.0f s", budget);
            unsigned u = nd[0]->nup + nd[0]->ndown + nd[1]->nup + nd[1]->ndown; uint32_t q[2];
            for (int i = 0; i < 2; i++) { dosend(i, 0, 5); q[i] = sent[0x1000 | i << 8].size() - 1; }
            sim::await([&]() { return seen.count(K(0x1000, q[0])) && seen.count(K(0x1100, q[1])); }, 2);
            if (!seen.count(K(0x1000, q[0])) || !seen.count(K(0x1100, q[1]))) { good = 0; continue; }
            if (good) sim::advance(2 * ct + 2 * pp + d);
            if (u != nd[0]->nup + nd[0]->ndown + nd[1]->nup + nd[1]->ndown) { good = 0; continue; }
            good++;
        }
        sim::advance(0.5);
        for (auto &v: sent) for (auto &s: v.second) if (s.ticket >= 0) { auto &e = nd[v.first >> 8 & 1]->errs; auto it = e.find(s.ticket); if (it != e.end()) { PBT_CHECK(bounded && it->second.size() == 1 && it->second[0] == SALTI_ERROR_CONN_NOT_READY, "a deferred send is reported to fail (%zu times, code %d)", it->second.size(), it->second[0]); s.ok = false; refused++; } }
        unsigned lost = 0, tails = 0, links = 0;
        for (auto &v: sent) for (auto &s: v.second) { bool a = seen.count(K(v.first, s.seq)); if (!s.ok) PBT_CHECK(!a, "message %x/%u, which was refused, is delivered", v.first, s.seq); else if (!a) lost++; }
        if (!faults && who != 2) PBT_CHECK(!lost, "%u messages are lost although no link ever failed", lost);
        if (!mode) {
            // what was handed to the operating system on each link
            auto fin = sim::established(); PBT_CHECK(fin.size() == 1, "%zu links", fin.size()); uint64_t flink = sim::T[fin[0]]->link;
            std::map<std::pair<uint32_t, uint32_t>, uint64_t> on; std::map<uint32_t, std::map<uint64_t, std::pair<uint32_t, uint32_t>>> rg; std::vector<std::pair<int, Bytes>> tl;
            std::map<uint64_t, int> act;
            for (auto &w: sim::wire) if (w.first.second) { Bytes b = w.second; auto ms = dec(b); if (!ms.empty()) { PBT_CHECK(ms[0].op == 0xf0 && ms[0].sum && ms[0].payload.size() == 11, "a link does not begin with a Ping"); act[w.first.first] = (ms[0].payload[5] << 8 | ms[0].payload[6]) == P[1]; } }
            for (auto &w: sim::wire) {
                uint64_t l = w.first.first; if (!act.count(l)) { Bytes b = w.second; PBT_CHECK(b.size() < 24, "link %lu: %zu bytes before the handshake", (unsigned long)l, b.size()); continue; }
                links++; int i = w.first.second ? act[l] : !act[l]; Bytes b = w.second; uint32_t pos = 0;
                for (auto &m: dec(b)) {
                    PBT_CHECK(m.sum && m.magic == 0 && (m.op == 1 || m.op == 0xf0 || m.op == 0xf1), "link %lu, from node %d: what is sent is not a sequence of messages (opcode %02x at message %u)", (unsigned long)l, i, m.op, pos);
                    pos++; if (m.op != 1) continue;
                    Tok t(DataStream(m.payload)); PBT_CHECK(t.good() && (int)(t.src >> 8 & 1) == i && sent.count(t.src) && t.seq < sent[t.src].size(), "link %lu: node %d sends a message nobody asked for", (unsigned long)l, i);
                    PBT_CHECK(!on.count(K(t.src, t.seq)), "message %x/%u is sent on two links", t.src, t.seq); on[{t.src, t.seq}] = l;
                    auto &r = rg[t.src]; auto it = r.find(l);
                    if (it == r.end()) r[l] = {t.seq, t.seq}; else { PBT_CHECK(it->second.second < t.seq, "link %lu: message %x/%u follows %u", (unsigned long)l, t.src, t.seq, it->second.second); it->second.second = t.seq; }
                    if (l == flink) PBT_CHECK(seen.count(K(t.src, t.seq)), "message %x/%u was sent on the link that is up but did not arrive", t.src, t.seq);
                }
                if (!b.empty()) { tails++; PBT_CHECK(l != flink, "a message is half sent on an idle link"); tl.push_back({i, b}); }
            }
            for (auto &r: rg) for (auto &a: r.second) for (auto &b: r.second) if (a.first < b.first) PBT_CHECK(a.second.second < b.second.first || b.second.second < a.second.first, "sender %x: messages %u..%u on one link, %u..%u on another", r.first, a.second.first, a.second.second, b.second.first, b.second.second);
            // accepted messages not on any wire must be ones that were being sent when a link broke
            std::sort(tl.begin(), tl.end(), [](const std::pair<int, Bytes> &a, const std::pair<int, Bytes> &b) { return a.second.size() > b.second.size(); });
            for (auto &v: sent) for (auto &s: v.second) {
                bool w = on.count(K(v.first, s.seq)); int i = v.first >> 8 & 1;
                if (!s.ok) { PBT_CHECK(!w, "message %x/%u, which was refused, is sent", v.first, s.seq); continue; }
                if (w) continue;
                Bytes e = enc(1, body(v.first, s.seq, s.len)); bool cutoff = false;
                for (size_t k = 0; k < tl.size(); k++) if (tl[k].first == i && tl[k].second.size() < e.size() && std::equal(tl[k].second.begin(), tl[k].second.end(), e.begin())) { tl.erase(tl.begin() + k); cutoff = true; break; }
                PBT_CHECK(cutoff, "message %x/%u was accepted but never sent", v.first, s.seq);
            }
        }
        if (nsend >= 5 && (faults || before)) c.nontrivial();
        if (lost) c.label("messages in flight lost"); if (tails) c.label("cut within a message"); if (before) c.label("queued before the first link"); if (refused) c.label("full queue"); if (who == 2) c.label("both initiate"); if (mode) c.label("TLS");
        c.note("%u messages, %u lost in flight, %u refused, %u faults, %u half-links, %u cut within a message", nsend, lost, refused, faults, links, tails);
        nd[0].reset(); nd[1].reset();
    });
}
int main(int argc, char **argv) { make_idents(2); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"queue", t_queue, 1}}, o); }
