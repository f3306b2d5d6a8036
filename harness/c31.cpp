// C31: back-pressure: what a network takes from its senders while its user does not handle messages is bounded by its limits.
#include "netsim.h"
typedef MsgNetwork<uint8_t> Net;
typedef MsgT<1> M1;
typedef MsgT<2> M2;
static const size_t BLK = SALTICIDAE_VERIF_MPMCQ_SIZE;
// bytes that the transport itself holds between two ends
static size_t kernel_room() {
    int l = sim::raw_listen(30000), f = sim::raw_connect(30000, 49999); sim::settle(); int a = sim::raw_accept(l); PBT_CHECK(f >= 0 && a >= 0, "the raw pair does not connect");
    size_t n = 0; Bytes b(4096, 1); for (size_t r; (r = sim::raw_send(f, b.data(), b.size())); ) n += r; for (size_t r; (r = sim::raw_send(f, b.data(), 1)); ) n += r;
    sim::raw_close(f); sim::raw_close(a); sim::raw_unlisten(l); return n;
}
struct Raw { int fd; Net::conn_t conn; uint32_t bseq = 0; Bytes bexp; size_t brd = 0; uint32_t src; Bytes buf; size_t off = 0, sent = 0; uint32_t seq = 0; std::vector<size_t> lens; };
static void t_stall(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 100; if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 100; sim::set_prof(pr);
        bool tls = c.chance(1, 3);
        size_t maxmsg = c.coin() ? 60 + c.u(200) : 1000 + c.u(3000), chunk; static const size_t CH[] = {4096, 64, 200, 1000}; chunk = CH[c.u(3)];
        size_t R = (maxmsg + 13 + chunk - 1) / chunk + c.u(20), Q = BLK * (1 + c.size(30));
        Net::Config cfg; cfg.nworker(1 + c.u(2)); cfg.max_msg_size(maxmsg); cfg.recv_chunk_size(chunk); cfg.max_recv_buff_size(R); cfg.max_msg_queue_size(Q); if (c.coin()) cfg.burst_size(1 + c.u(3)); if (tls) use_tls(cfg, 0);
        // messages that are as long as the chunks: the buffer may be full when there is nothing more to read
        bool exact = c.chance(1, tls ? 2 : 6); if (exact) { chunk = c.coin() ? 64 : 30; if (maxmsg < 60) maxmsg = 60; R = (maxmsg + 13 + chunk - 1) / chunk + c.u(4); Q = BLK; cfg.max_msg_size(maxmsg); cfg.recv_chunk_size(chunk); cfg.max_recv_buff_size(R); cfg.max_msg_queue_size(Q); }
        size_t SQ = BLK * (2 + c.u(8)); bool sbound = !exact && c.chance(3, 4);
        Net::Config cs; cs.nworker(1 + c.u(1)); cs.max_msg_size(maxmsg); if (sbound) cs.max_send_buff_size(SQ); if (tls) use_tls(cs, 1);
        Loop la, lb; Net A(la.ec, cfg), B(lb.ec, cs);
        std::map<uint32_t, uint32_t> next; std::map<uint32_t, std::vector<size_t>> lens; std::string err; unsigned downs = 0; bool closing = false, hold = false; std::vector<Net::conn_t> cb, ca; unsigned handled = 0;
        A.reg_handler([&](M1 &&m, const Net::conn_t &) {
            auto &n = next[m.src]; PBT_CHECK(m.seq == n && m.good(), "message %x/%u is handled where %u was expected", m.src, m.seq, n);
            PBT_CHECK(m.seq < lens[m.src].size() && lens[m.src][m.seq] == m.data.size(), "message %x/%u has %zu bytes", m.src, m.seq, m.data.size()); n++; handled++;
        });
        std::vector<uint32_t> bseq, bnext;      // the other way
        B.reg_handler([&](M2 &&m, const Net::conn_t &) { PBT_CHECK(m.src < bnext.size() && m.seq == bnext[m.src] && m.good(), "message %u/%u of the stalled end is handled where %u was expected", m.src, m.seq, m.src < bnext.size() ? bnext[m.src] : 0); bnext[m.src]++; });
        A.reg_conn_handler([&](const ConnPool::conn_t &x, bool up) { if (up) ca.push_back(static_pointer_cast<Net::Conn>(x)); else if (!closing) downs++; return true; });
        B.reg_conn_handler([&](const ConnPool::conn_t &x, bool up) { if (up) cb.push_back(static_pointer_cast<Net::Conn>(x)); else if (!closing) downs++; return true; });
        for (Net *n: {&A, &B}) n->reg_error_handler([&](const std::exception_ptr e, bool, int32_t) { try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); } });
        A.start(); B.start(); la.start(); lb.start(); bool rev = c.coin(); A.listen(at(20000)); if (rev) B.listen(at(20001));
        int nraw = tls ? 0 : c.u(2), nnet = nraw ? c.u(2) : 1 + c.u(1);
        std::vector<Raw> raws; for (int k = 0; k < nraw; k++) { Raw r; r.fd = sim::raw_connect(20000, 50000 + k); r.src = 100 + k; raws.push_back(r); }
        for (int k = 0; k < nnet; k++) { if (rev) A.connect_sync(at(20001)); else B.connect_sync(at(20000)); }
        sim::advance(1); PBT_CHECK((int)ca.size() == nraw + nnet && (int)cb.size() == nnet, "connections are not established (%s)", err.c_str());
        size_t room = kernel_room();
        std::vector<Net::conn_t> an; for (auto &x: ca) { unsigned p = ntohs(x->get_addr().port); if (p < 50000 || p >= 50000u + nraw) an.push_back(x); else raws[p - 50000].conn = x; }
        PBT_CHECK((int)an.size() == nnet, "%zu of %d connections have the address of a network", an.size(), nnet); bseq.assign(nnet, 0); bnext.assign(nnet, 0);
        auto back = [&](const char *when) {     // the stalled end sends; its peer is not stalled
            if (!nnet) return; size_t tot = 0, want = c.coin() ? room + 20000 : c.u(400);
            do { size_t l = c.u(std::min<size_t>(maxmsg - 8, 2000)); int k = c.u(nnet - 1); PBT_CHECK(A.send_msg(M2(k, bseq[k], l), an[k]), "a message is refused although the send buffer has no limit"); bseq[k]++; tot += l + 21; } while (tot < want);
            // (the stalled workers poll their queue without end: no virtual time passes)
            auto done = [&]() { return bnext == bseq; }; uint64_t was = 0; int idle = 0;
            while (!done() && idle < 300) { for (int i = 0; i < 6; i++) sim::yield(); uint64_t v = 0; for (auto x: bnext) v += x; if (v != was) idle = 0, was = v; else idle++; }
            for (int k = 0; k < nnet; k++) PBT_CHECK(bnext[k] == bseq[k], "%s %u of %u messages of the receiving end are handled by the other one", when, bnext[k], bseq[k]);
        };
        bool both = c.coin();
        bool small = c.coin(); size_t fix = c.u(std::min<size_t>(maxmsg - 8, 60));     // fixed small messages or mixed ones
        auto mlen = [&]() { return small ? fix : c.chance(1, 3) ? c.u(maxmsg - 8) : c.u(std::min<size_t>(maxmsg - 8, 60)); };
        if (exact) { small = true; fix = chunk - 21; }
        size_t maxwire = small ? 21 + fix : maxmsg + 13;
        // the receiving end holds no more than this
        size_t inq = (Q + 3 * BLK) * maxwire, inb = (R + 1) * chunk + maxwire, per = room + 8192 + maxwire + inb + (tls ? 70000 : 0);
        int rounds = 1 + c.u(1); size_t stalled = 0, nrefused = 0; std::vector<uint32_t> nseq(nnet, 0);
        for (int r = 0; r < rounds; r++) {
            std::vector<uint32_t> start = nseq; for (auto &x: raws) x.sent = 0;
            hold = true; bool busy = false; la.post([&]() { busy = true; sim::await([&]() { return !hold; }, 1e9); });
            sim::await([&]() { return busy; }, 5); PBT_CHECK(busy, "the posted call does not run"); unsigned h0 = handled;
            std::vector<size_t> bytes(nnet, 0); std::vector<char> full(nraw + nnet, 0); std::vector<size_t> firstref(nnet, SIZE_MAX); 
            size_t limit = inq + (nraw + nnet) * per, cap = 2 * limit + 2000 * (SQ + 3 * BLK), total = 0; unsigned quiet = 0; size_t unb = exact ? 1 + c.u(Q + 3 * BLK + R) : 60 + c.u(200);
            bool backlog = c.coin();    // messages to the raw senders, which do not read for now
            if (backlog) for (auto &x: raws) for (size_t t = 0, w = c.coin() ? room + 20000 : c.u(400); t < w; ) {
                size_t l = c.u(std::min<size_t>(maxmsg - 8, 2000)); auto e = enc(2, body(x.src, x.bseq, l)); PBT_CHECK(A.send_msg(M2(x.src, x.bseq, l), x.conn), "a message is refused although the send buffer has no limit");
                x.bseq++; x.bexp.insert(x.bexp.end(), e.begin(), e.end()); t += e.size();
            }
            while (quiet < 60 && total < cap) {
                bool prog = false;
                for (auto &x: raws) {
                    for (int i = 0; i < 30; i++) {
                        if (x.off == x.buf.size()) { size_t l = mlen(); x.buf = enc(1, body(x.src, x.seq++, l)); x.off = 0; lens[x.src].push_back(l); }
                        size_t n = sim::raw_send(x.fd, x.buf.data() + x.off, x.buf.size() - x.off); x.off += n; x.sent += n; total += n; if (n) prog = true; else break;
                    }
                }
                for (int k = 0; k < nnet; k++) for (int i = 0; i < 10; i++) {
                    if (!sbound && nseq[k] - start[k] >= unb) break;
                    size_t l = mlen(); lens[k].push_back(l); bool ok = B.send_msg(M1(k, nseq[k], l), cb[k]);
                    if (ok) { nseq[k]++; bytes[k] += 21 + l; total += 21 + l; prog = true; }
                    else { lens[k].pop_back(); nrefused++; PBT_CHECK(sbound, "a message is refused although the send buffer has no limit"); if (firstref[k] == SIZE_MAX) firstref[k] = nseq[k] - start[k]; break; }
                }
                for (int i = 0; i < 6; i++) sim::yield();
                if (prog) quiet = 0; else quiet++;
            }
            size_t raw_total = 0; for (auto &x: raws) raw_total += x.sent;
            PBT_CHECK(raw_total <= inq + nraw * per, "while nothing is handled, %zu bytes are taken from %d senders: more than the %zu of the queue (%zu messages), the receive buffers (%zu bytes each) and the transport (%zu each)", raw_total, nraw, inq + nraw * per, Q, R * chunk, room);
            if (sbound) for (int k = 0; k < nnet; k++) {
                size_t lim = inq + per + (SQ + 4 * BLK) * maxwire;
                PBT_CHECK(bytes[k] <= lim, "while nothing is handled, %zu bytes (%u messages) are accepted for sending: more than the %zu that the send buffer (%zu messages), the transport and the receiving end hold", bytes[k], nseq[k] - start[k], lim, SQ);
                if (firstref[k] != SIZE_MAX && r == 0) PBT_CHECK(firstref[k] + 2 * BLK >= SQ, "the first refusal comes after %zu messages with a send buffer of %zu", firstref[k], SQ);
            }
            PBT_CHECK(handled == h0, "messages are handled while the user's loop is busy");
            PBT_CHECK(!downs, "a slow receiver ends a connection (%s)", err.c_str());
            stalled += quiet >= 60 && (nraw || sbound);
            if (backlog) for (auto &x: raws) {      // now they read
                int idle = 0; while (idle < 300 && x.brd < x.bexp.size()) {
                    Bytes b = sim::raw_recv(x.fd); if (b.empty()) { idle++; for (int i = 0; i < 6; i++) sim::yield(); continue; } idle = 0;
                    PBT_CHECK(x.brd + b.size() <= x.bexp.size() && !memcmp(b.data(), x.bexp.data() + x.brd, b.size()), "what the stalled end sends differs from its messages at byte %zu", x.brd); x.brd += b.size();
                }
                PBT_CHECK(x.brd == x.bexp.size(), "while the receiving end is stalled only %zu of the %zu bytes that it sends come out", x.brd, x.bexp.size());
            }
            if (both && c.coin()) { back("while the receiving end is stalled"); PBT_CHECK(handled == h0 && !downs, "messages are handled while the user's loop is busy, or a connection ends (%s)", err.c_str()); }
            hold = false;
            // everything that was accepted arrives; the incomplete messages are completed
            for (auto &x: raws) { Bytes rest(x.buf.begin() + x.off, x.buf.end()); x.off = x.buf.size(); PBT_CHECK(sim::raw_send_all(x.fd, rest), "a receiver that handles messages again does not read on"); }
            sim::advance(3);
            for (auto &x: raws) PBT_CHECK(next[x.src] == x.seq, "after the stall %u of %u messages of a sender are handled", next[x.src], x.seq);
            for (int k = 0; k < nnet; k++) {
                PBT_CHECK(next[k] == nseq[k], "after the stall %u of %u accepted messages are handled", next[k], nseq[k]);
            }
            if (both && c.coin()) back("after the stall");
            for (int k = 0; k < nnet; k++) {
                lens[k].push_back(5); PBT_CHECK(B.send_msg(M1(k, nseq[k], 5), cb[k]), "a message is refused although everything sent has been handled"); nseq[k]++;
            }
            sim::advance(1); for (int k = 0; k < nnet; k++) PBT_CHECK(next[k] == nseq[k], "a message sent after the stall is not handled");
            PBT_CHECK(!downs, "a connection ends (%s)", err.c_str());
        }
        if (stalled && handled > 20) c.nontrivial();
        if (nrefused) c.label("refused"); if (tls) c.label("TLS"); if (nnet && both) c.label("both ways"); if (nraw) c.label("raw senders"); if (!sbound) c.label("unlimited send buffer");
        c.note("%d raw and %d library senders, queue %zu, receive buffer %zu x %zu, send buffer %zu, %u messages, %zu stalls", nraw, nnet, Q, R, chunk, sbound ? SQ : 0, handled, stalled);
        closing = true; la.stop(); lb.stop(); ca.clear(); cb.clear(); an.clear(); for (auto &x: raws) x.conn = nullptr; for (auto &x: raws) sim::raw_close(x.fd);
    });
}
int main(int argc, char **argv) { make_idents(2); pbt::Opts o; o.batch = 8; return pbt::main_(argc, argv, {{"stall", t_stall, 1}}, o); }
