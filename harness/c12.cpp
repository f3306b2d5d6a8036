// C12 (plain) and C13 (TLS): two message networks in the simulation, generated I/O splitting.
#include "netsim.h"
typedef MsgNetwork<uint8_t> Net;
typedef MsgT<1> M1;
#ifdef WITH_TLS
static const bool TLS_ON = true;
#else
static const bool TLS_ON = false;
#endif
struct Side { std::vector<std::vector<uint32_t>> got; };   // per stream: sequence numbers handled
static void t_flow(Ctx &c) {
    sim::g_tls = false;
    unsigned bad = 0; std::string why;
    sim::run(c, [&]() {
        sim::set_prof(sim::gen_prof(c));
        static const size_t CH[] = {4096, 1, 2, 7, 64, 1000, 16384, 40000};
        static const size_t MM[] = {64, 300, 1024, 20000};
        size_t maxmsg = MM[c.u(3)];
        Net::Config cfg[2];
        // the volume of a case is bounded by how finely the transport splits it
        size_t budget = 300000;
        for (size_t k: {sim::prof.send_cap, sim::prof.recv_cap}) if (k) budget = std::min<size_t>(budget, 2500 * k);
        for (int i = 0; i < 2; i++) {
            size_t ch = CH[c.u(7)]; budget = std::min<size_t>(budget, 6000 * ch);
            // the receive buffer must be able to hold one whole message
            size_t need = std::max<size_t>(1, (maxmsg + 13 + ch - 1) / ch);
            static const size_t EX[] = {0, 1, 5, 4000};
            cfg[i].recv_chunk_size(ch); cfg[i].max_recv_buff_size(need + EX[c.u(3)]);
            cfg[i].max_msg_size(maxmsg);
            cfg[i].nworker(1 + c.u(2));
            static const size_t Q[] = {65536, 4, 16}; cfg[i].max_msg_queue_size(Q[c.u(2)]);
            static const size_t B[] = {1000, 1, 3}; cfg[i].burst_size(B[c.u(2)]);
            if (c.chance(1, 3)) cfg[i].max_send_buff_size(4 * (1 + c.u(5)));
            if (TLS_ON) use_tls(cfg[i], i);
        }
        if (TLS_ON) sim::rec_wire = true;
        Loop la, lb;
        Net A(la.ec, cfg[0]), B(lb.ec, cfg[1]);
        int nc = 1 + c.u(2);
        Net *net[2] = {&A, &B}; Loop *lp[2] = {&la, &lb};
        // stream id = 2 * connection + direction (0: B -> A)
        std::vector<std::vector<uint32_t>> got(2 * nc), sent(2 * nc); std::vector<std::vector<size_t>> lens(2 * nc);
        std::vector<Net::conn_t> ca, cb; unsigned ended = 0, errs = 0; std::string err; bool closing = false;
        for (int i = 0; i < 2; i++) {
            net[i]->reg_handler([&, i](M1 &&m, const Net::conn_t &) {
                if (m.src >= got.size()) fail("a message with a source that was never sent (%u) is handled", m.src);
                PBT_CHECK((int)(m.src & 1) == i, "a message handled on the wrong side");
                auto &g = got[m.src]; uint32_t k = g.size();
                PBT_CHECK(k < sent[m.src].size() + 1 && m.seq == k, "stream %u: message %u handled where %u was expected (%zu sent)", m.src, m.seq, k, sent[m.src].size());
                PBT_CHECK(m.good(), "stream %u: content of message %u (%zu bytes) is corrupted", m.src, m.seq, m.data.size());
                PBT_CHECK(m.data.size() == lens[m.src][k], "stream %u: message %u has %zu bytes instead of %zu", m.src, k, m.data.size(), lens[m.src][k]);
                g.push_back(m.seq);
            });
            net[i]->reg_conn_handler([&, i](const ConnPool::conn_t &conn, bool up) {
                auto mc = static_pointer_cast<Net::Conn>(conn);
                auto &l = i ? cb : ca; if (up) l.push_back(mc); else if (!closing && std::find(l.begin(), l.end(), mc) != l.end()) ended++;
                return true;
            });
            net[i]->reg_error_handler([&](const std::exception_ptr e, bool, int32_t) { errs++; try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); } });
            net[i]->start(); lp[i]->start();
        }
        A.listen(at(20000));
        for (int k = 0; k < nc; k++) {
            if (c.coin()) B.connect_sync(at(20000)); else B.connect(at(20000));
            sim::advance(1.5);
            PBT_CHECK(ca.size() == (size_t)k + 1 && cb.size() == (size_t)k + 1, "connection %d is not established (%zu/%zu, error %s)", k, ca.size(), cb.size(), err.c_str());
        }
        c.note("%d connections, cap %u/%u again %u/%u sndbuf %d", nc, sim::prof.send_cap, sim::prof.recv_cap, sim::prof.send_again, sim::prof.recv_again, sim::prof.sndbuf);
        int rounds = 1 + c.u(2); size_t total = 0, refused = 0, used = 0; int atk = 0; std::vector<int> raws;
        for (int r = 0; r < rounds; r++) {
            std::vector<std::thread> th;
            for (int s = 0; s < 2 * nc; s++) {
                int n = c.chance(1, 4) ? 0 : c.chance(1, 4) ? c.u(60) : c.u(8);
                std::vector<size_t> ls;
                for (int k = 0; k < n; k++) {
                    size_t l = c.chance(1, 3) ? maxmsg - 8 - c.u(2) : c.u(std::min<size_t>(maxmsg - 8, 200));
                    if (total && used + l + 21 > budget) break;
                    used += l + 21; ls.push_back(l); total++;
                }
                n = ls.size();
                if (!n) continue;
                auto conn = s & 1 ? ca[s / 2] : cb[s / 2];
                auto np = s & 1 ? &A : &B; (void)np;
                th.push_back(std::thread([&, s, ls, conn]() {
                    Net *np = s & 1 ? &A : &B;
                    for (size_t l: ls) {
                        // announce first: the other side may handle it before send_msg returns
                        sent[s].push_back(sent[s].size()); lens[s].push_back(l);
                        while (!np->send_msg(M1(s, sent[s].size() - 1, l), conn)) { refused++; sim::await([]() { return false; }, 0.01); if (ended) return; }
                    }
                }));
            }
            int natk = TLS_ON && c.chance(1, 2) ? 1 + c.u(3) : 0;      // others who connect to A and talk nonsense meanwhile
            if (natk) { atk += natk; std::vector<std::pair<double, Bytes>> pl; for (int k = 0; k < natk; k++) { Bytes g = content(c.u(999), 1 + c.u(100)); if (c.coin()) { g[0] = 22; if (g.size() > 4) { g[1] = 3; g[2] = 1; g[3] = 0; } } else g[0] = 'G'; pl.push_back({0.0005 * c.u(20), g}); }
                int base = 52000 + 10 * r; th.push_back(std::thread([&raws, pl, base]() { int k = base; for (auto &x: pl) { sim::await([]() { return false; }, x.first); int f = sim::raw_connect(20000, k++); if (f < 0) continue; sim::raw_send_all(f, x.second); raws.push_back(f); } })); }
            for (auto &t: th) t.join();
            sim::advance(2);
            PBT_CHECK(!ended, "a connection between two healthy ends is closed (%s)", err.c_str());
            for (int s = 0; s < 2 * nc; s++) PBT_CHECK(got[s].size() == sent[s].size(), "stream %d stalls: %zu of %zu messages handled and nothing left to do", s, got[s].size(), sent[s].size());
        }
        if (TLS_ON) {   // no application bytes in clear on the wire
            for (auto &w: sim::wire) for (int s = 0; s < 2 * nc; s++) for (size_t k = 0; k < sent[s].size(); k++) if (lens[s][k] >= 32) {
                auto ct = content(((uint64_t)s << 32) | k, 24);
                PBT_CHECK(std::search(w.second.begin(), w.second.end(), ct.begin(), ct.end()) == w.second.end(), "message %zu of stream %d is readable on the wire", k, s);
            }
        }
        closing = true; for (int f: raws) sim::raw_close(f); if (atk) c.label("strangers");
        if (total > 3 && (sim::prof.send_cap || sim::prof.recv_cap || sim::prof.send_again || sim::prof.recv_again || sim::prof.sndbuf)) c.nontrivial();
        if (refused) c.label("send buffer full"); if (sim::prof.sndbuf == 1) c.label("tiny kernel buffer"); if (total > 40) c.label("many messages");
        c.note("%zu messages", total);
        la.stop(); lb.stop();
        ca.clear(); cb.clear();
    });
}
int main(int argc, char **argv) { if (TLS_ON) make_idents(2); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"flow", t_flow, 1}}, o); }
