// C32: listening, re-listening and connecting under failures of the system's calls: reported, contained, and over when the cause is.
#include "peersim.h"
typedef MsgNetwork<uint8_t> Net; typedef Net::conn_t conn_t; typedef MsgT<1> M1;
struct Cl { int fd; uint16_t port; uint32_t id; bool ok = false, doomed = false; Bytes in; uint32_t sent = 0, got = 0; };
static void t_service(Ctx &c) {
    sim::g_tls = false; static bool warm = false; if (!warm) { warm = true; EventContext e; }
    unsigned fds0 = sim::open_fds();
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 100; if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 100; sim::set_prof(pr);
        sim::on_connect = [](uint16_t p) { return p == 21001 ? 0 : p == 21002 ? 1 : 2; };
        Net::Config cfg; cfg.nworker(1 + c.u(2)); cfg.conn_server_timeout(1);
        Loop lp; auto *net = new Net(lp.ec, cfg);
        std::map<int32_t, std::vector<int>> errs; std::map<void *, int> up; unsigned nup = 0, ndown = 0; std::vector<conn_t> outs; bool closing = false; std::string etext;
        net->reg_conn_handler([&](const ConnPool::conn_t &conn, bool u) { if (closing) return true; Quiet q; if (u) { nup++; PBT_CHECK(++up[conn.get()] == 1, "a connection is reported twice"); } else ndown++; return true; });
        net->reg_handler([&](M1 &&m, const conn_t &conn) { if (closing) return; PBT_CHECK(m.good(), "a corrupted message"); net->send_msg(M1(m.src, m.seq, m.data.size()), conn); });
        net->reg_error_handler([&](const std::exception_ptr e, bool fatal, int32_t id) {
            int code = -1; try { std::rethrow_exception(e); } catch (SalticidaeError &x) { code = x.get_code(); etext = x.what(); } catch (std::exception &x) { etext = x.what(); }
            PBT_CHECK(!fatal, "a failure of a single call is fatal for the network (%s)", etext.c_str()); Quiet q; errs[id].push_back(code); });
        net->start(); lp.start();
        static const uint16_t PT[3] = {20000, 20001, 20002}; int busy[3] = {-1, -1, -1}; int rl = sim::raw_listen(21000); std::vector<int> held;
        uint16_t cur = 0; std::deque<Cl> cl; uint32_t ncl = 0; unsigned nlisten = 0, nbad = 0, nacc = 0, nlost = 0, nout = 0, noutbad = 0, shortages = 0, moved = 0, maybe = 0; double acc_until = 0; size_t flood = 0;
        auto acc_errs = [&]() { unsigned n = 0; Quiet q; for (int e: errs[-1]) if (e == SALTI_ERROR_ACCEPT) n++; return n; };
        auto isours = [&](uint16_t p) { return sim::listeners.count(p) && !sim::T[sim::listeners[p]]->raw; };
        auto pump = [&](Cl &x) { { Quiet q; auto d = sim::raw_recv(x.fd); x.in.insert(x.in.end(), d.begin(), d.end()); }
            for (auto &w: dec(x.in)) { PBT_CHECK(w.sum, "a client receives a corrupted message"); M1 m(DataStream(w.payload)); PBT_CHECK(m.good() && m.src == x.id && m.seq == x.got, "a client receives a wrong reply"); x.got++; } };
        auto ask = [&](Cl &x) { sim::raw_send_all(x.fd, enc(1, body(x.id, x.sent++, c.u(60)))); };
        auto served = [&](Cl &x) { pump(x); return x.got == x.sent; };
        // every client that has been served before still is, and the others get their turn
        auto check = [&](double wait) {
            for (double t = sim::now();;) { sim::settle(); bool all = true; for (auto &x: cl) if (!x.doomed && !served(x)) all = false; if (all || sim::now() > t + wait) break; sim::advance(0.1); }
            for (auto &x: cl) { if (x.doomed) continue; bool s = served(x); PBT_CHECK(s, "a client (%s) is not served %.1f s after the last failure (listening at %u, client came to %u; %u accept errors)", x.ok ? "connected before" : "waiting", wait, cur, x.port, acc_errs()); x.ok = true; }
        };
        auto drop = [&](size_t i) { sim::raw_close(cl[i].fd); cl.erase(cl.begin() + i); };
        auto listen_now = [&](uint16_t p, bool viauser) -> int {
            int code = 0; auto fn = [&]() { try { net->listen(at(p)); } catch (SalticidaeError &e) { code = e.get_code(); } };
            if (viauser) lp.run(fn); else fn(); return code;
        };
        int n = 3 + c.size(24);
        for (int k = 0; k < n; k++) {
            switch (c.u(9)) {
                case 0: case 1: case 2: {   // clients come, possibly while connections cannot be accepted
                    if (!cur) break; int m = 1 + c.u(2), f = c.u(9);
                    if (f == 1 && sim::now() > acc_until) { static const int E[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; double dur = 0.1 * c.u(20); auto &F = sim::faults[sim::C_ACCEPT]; F.err = E[c.u(3)]; F.until = sim::g_ns + (uint64_t)(dur * 1e9); acc_until = sim::now() + dur; shortages++; }
                    for (int j = 0; j < m; j++) {
                        static const int E1[] = {ECONNABORTED, EPROTO};
                        bool abort = f == 2 && j == 0 && sim::now() > acc_until; if (f == 2 || f == 3 || f == 4) { bool idle = true; for (auto &x: cl) if (!x.ok && !x.doomed) idle = false; if (!idle) check(5); }
                        if (abort) { sim::settle(); sim::faults[sim::C_ACCEPT].next.push_back(E1[c.u(1)]); nlost++; }
                        if (f == 3 && j == 0 && sim::now() > acc_until) { sim::settle(); sim::faults[sim::C_ACCEPT].next.push_back(c.coin() ? EMFILE : EINTR); nacc++; }
                        bool so = f == 4 && j == 0 && sim::now() > acc_until; if (so) { sim::settle(); for (int z = c.u(1); z > 0; z--) sim::faults[sim::C_SETSOCKOPT].next.push_back(0); sim::faults[sim::C_SETSOCKOPT].next.push_back(EINVAL); nlost++; }
                        int fd = sim::raw_connect(cur, 50000 + ++ncl); PBT_CHECK(fd >= 0, "nobody listens at port %u, where the network was told to listen", cur);
                        { Quiet q; cl.push_back(Cl()); } auto &x = cl.back(); x.fd = fd; x.port = cur; x.id = ncl; x.doomed = abort || so; if (!x.doomed) ask(x);
                        if (abort || so || f == 3) sim::settle();
                        if (x.doomed) { unsigned h = sim::faults[sim::C_ACCEPT].next.size() + sim::faults[sim::C_SETSOCKOPT].next.size(); if (h) { sim::advance(3); } PBT_CHECK(sim::raw_eof(fd), "a connection that could not be set up stays open"); drop(cl.size() - 1); }
                    }
                    break; }
                case 3: case 4: {   // listen, possibly at a port that is taken or while it fails
                    int p = c.u(2), f = c.u(7), want = busy[p] >= 0 ? SALTI_ERROR_LISTEN : 0; bool wait = c.coin();
                    if (wait) check(6); else for (auto &x: cl) if (!x.ok) { x.doomed = true; maybe++; }
                    static const int FE[] = {EMFILE, EACCES, EADDRINUSE, EINVAL}; static const sim::Call FC[] = {sim::C_SOCKET, sim::C_BIND, sim::C_LISTEN, sim::C_SETSOCKOPT};
                    bool inj = f >= 1 && f <= 4; if (inj) { sim::settle(); sim::faults[FC[f - 1]].next.push_back(FE[f - 1]); want = SALTI_ERROR_LISTEN; }
                    uint16_t old = cur; int code = listen_now(PT[p], c.chance(1, 3)); nlisten++; if (inj) for (auto &F: sim::faults) F.next.clear();
                    if (want) nbad++;
                    PBT_CHECK(code == want, "listen() at a port that is %s reports %d instead of %d", want ? inj ? "not available" : "taken" : "free", code, want);
                    if (!code) { cur = PT[p]; if (old && old != cur) { moved++; PBT_CHECK(!isours(old), "the old port is still open after listening at another one"); } }
                    else cur = isours(old) ? old : 0;
                    if (cur) PBT_CHECK(isours(cur), "nobody listens at the port after listen()");
                    if (!wait) { sim::settle(); for (size_t i = 0; i < cl.size();) { auto &x = cl[i]; if (!x.doomed) { i++; continue; } sim::advance(0.2); if (served(x)) { x.doomed = false; x.ok = true; i++; } else { drop(i); } } }
                    break; }
                case 5: { int p = c.u(2); if (busy[p] >= 0) { sim::raw_unlisten(busy[p]); busy[p] = -1; } else if (!sim::listeners.count(PT[p])) busy[p] = sim::raw_listen(PT[p]); break; }
                case 6: case 7: {   // connect
                    if (c.chance(1, 3)) {   // to somebody who refuses or does not answer
                        bool hang = c.coin(), sync = c.coin(); uint16_t p = hang ? 21002 : 21001; conn_t h; int32_t t = -1; size_t e0, s0 = sim::socks_to(p); { Quiet q; e0 = std::count(errs[-1].begin(), errs[-1].end(), SALTI_ERROR_CONNECT); }
                        nout++; noutbad++; if (sync) { try { h = net->connect_sync(at(p)); } catch (SalticidaeError &e) { h = nullptr; } } else t = net->connect(at(p));
                        unsigned u0 = nup; if (hang && c.coin()) { sim::advance(0.8); if (h) PBT_CHECK(!h->is_terminated(), "an attempt is given up before its time"); PBT_CHECK(sim::socks_to(p) == s0 + 1, "an attempt is given up before its time"); sim::advance(0.5); } else sim::advance(1.4);
                        PBT_CHECK(sim::socks_to(p) == 0, "an attempt that %s is never given up", hang ? "is not answered" : "is refused"); if (h) PBT_CHECK(h->is_terminated(), "the connection of an attempt that %s is never terminated", hang ? "is not answered" : "is refused");
                        if (!cl.size()) PBT_CHECK(nup == u0, "an attempt that failed is reported as connected");
                        { Quiet q; size_t e1 = std::count(errs[-1].begin(), errs[-1].end(), SALTI_ERROR_CONNECT) + (errs.count(t) && t >= 0 ? errs[t].size() : 0); if (hang) PBT_CHECK(e1 == e0 + 1, "an attempt that is not answered is reported %zd times", e1 - e0); PBT_CHECK(e1 <= e0 + 1, "a failed attempt is reported %zd times", e1 - e0); }
                        if (h) outs.push_back(h); break; }
                    int f = c.u(5); sim::Call K[] = {sim::C_SOCKET, sim::C_SETSOCKOPT, sim::C_CONNECT}; static const int E[] = {EMFILE, EINVAL, ENETUNREACH}; nout++;
                    if (f < 3) { sim::settle(); if (f == 1 && c.coin()) sim::faults[sim::C_SETSOCKOPT].next.push_back(0); sim::faults[K[f]].next.push_back(f == 2 ? c.pick(std::vector<int>{ENETUNREACH, EADDRNOTAVAIL, ECONNREFUSED, EPERM}) : E[f]); noutbad++; }
                    bool sync = c.coin(); int code = 0; int32_t t = -1; conn_t h; unsigned u0 = nup;
                    if (sync) { try { h = net->connect_sync(at(21000)); } catch (SalticidaeError &e) { code = e.get_code(); } } else { t = net->connect(at(21000)); lp.run([]() {}); sim::settle(); auto it = errs.find(t); if (it != errs.end()) { PBT_CHECK(it->second.size() == 1, "a failed attempt is reported %zu times", it->second.size()); code = it->second[0]; } }
                    int want = f < 2 ? SALTI_ERROR_CONNECT : 0; PBT_CHECK(code == want, "an attempt to connect %s reports %d instead of %d", f < 2 ? "that fails at once" : "to a listening port", code, want);
                    sim::settle(); sim::advance(0.3); for (auto &F: sim::faults) F.next.clear();
                    int got = 0; for (int fd; (fd = sim::raw_accept(rl)) >= 0;) { held.push_back(fd); got++; }
                    PBT_CHECK(got == (f >= 3), "an attempt %s arrives %d times at the remote end", f < 3 ? "that fails" : "to connect", got);
                    if (f >= 3) PBT_CHECK(nup == u0 + 1 || cl.size(), "an attempt to connect is not reported as connected"); if (f == 2 && h) PBT_CHECK(h->is_terminated(), "a failed attempt is not over");
                    if (h) outs.push_back(h); break; }
                case 8: if (!cl.empty()) { size_t i = c.u(cl.size() - 1); if (cl[i].ok) { ask(cl[i]); if (c.coin()) drop(i); } } break;
                case 9: if (!held.empty()) { size_t i = c.u(held.size() - 1); sim::raw_close(held[i]); held.erase(held.begin() + i); } break;
            }
            switch (c.u(4)) { case 0: sim::settle(); break; case 1: sim::advance(0.01 * c.u(100)); break; case 2: if (c.chance(1, 4)) check(std::max(0., acc_until - sim::now()) + 5); break; }
            flood = acc_errs(); PBT_CHECK(flood <= nlost + nacc + 100 * (shortages + 1), "%zu errors are reported about %u shortages", flood, shortages);
        }
        sim::faults[sim::C_ACCEPT].until = 0;
        check(5);
        // the last word: listening works, and everybody is served
        for (int p = 0; p < 3; p++) if (busy[p] >= 0) { sim::raw_unlisten(busy[p]); busy[p] = -1; }
        if (c.coin() || !cur) { uint16_t p = PT[c.u(2)]; PBT_CHECK(listen_now(p, c.coin()) == 0, "listen() fails at a free port"); cur = p; }
        for (int j = 0; j < 2; j++) { int fd = sim::raw_connect(cur, 50000 + ++ncl); PBT_CHECK(fd >= 0, "nobody listens at port %u, where the network was told to listen", cur); Quiet q; cl.push_back(Cl()); auto &x = cl.back(); x.fd = fd; x.port = cur; x.id = ncl; }
        for (auto &x: cl) ask(x);
        check(3);
        { unsigned e = acc_errs(); if (nlost) PBT_CHECK(e >= nlost, "%u of %u connections that could not be accepted are reported", e, nlost); if (!nlost && !nacc && !shortages) PBT_CHECK(!e, "%u errors are reported about accepting although nothing failed", e); }
        if (nbad + nlost + nacc + shortages + noutbad) c.nontrivial();
        if (shortages) c.label("shortage of descriptors"); if (nlost) c.label("connection lost while accepted"); if (nbad) c.label("listen fails"); if (moved) c.label("moved to another port"); if (noutbad) c.label("connect fails");
        c.note("%u clients, %u listens (%u failed, %u moved), %u lost, %u single failures, %u shortages, %u connects (%u failed), %u errors", ncl, nlisten, nbad, moved, nlost, nacc, shortages, nout, noutbad, acc_errs());
        closing = true; if (c.coin()) { lp.stop(); } outs.clear();
        delete net; lp.stop(); PBT_CHECK(!sim::open_socks(), "%u sockets stay open after the network is destroyed", sim::open_socks());
        for (auto &x: cl) sim::raw_close(x.fd); for (int fd: held) sim::raw_close(fd); sim::raw_unlisten(rl);
    });
    unsigned fds1 = sim::open_fds(); PBT_CHECK(fds1 <= fds0, "%d descriptors are never closed", (int)fds1 - (int)fds0);
}
// two peers that keep trying while the system's calls fail for a time
static void t_peers(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); int mode = c.chance(1, 5) ? 1 + c.u(1) : 0; unsigned lo = mode ? 200 : 20; if (pr.send_cap && pr.send_cap < lo) pr.send_cap = lo; if (pr.recv_cap && pr.recv_cap < lo) pr.recv_cap = lo; sim::set_prof(pr);
        static const uint16_t P0 = 20000; double ct = 3 + c.u(3), d = 0.2 + 0.2 * c.u(3);
        auto mk = [&](int i) { PNet::Config cfg; cfg.nworker(1 + c.u(1)); cfg.conn_server_timeout(0.5); cfg.conn_timeout(ct); cfg.ping_period(0.7); return new Node(i, P0 + i, mode, cfg); };
        std::unique_ptr<Node> nd[2]; for (int i = 0; i < 2; i++) nd[i].reset(mk(i));
        auto pid = [&](int i) { return pid_of(i, P0 + i, mode); }; int who = c.u(2); bool linked0 = c.coin();
        for (int i = 0; i < 2; i++) { nd[i]->net->add_peer(pid(!i)); if (who == 2 || who == i) nd[i]->net->set_peer_addr(pid(!i), at(P0 + !i)); PBT_CHECK(nd[i]->net->has_peer(pid(!i)), "an added peer is not known"); }
        unsigned nf = 0, cuts = 0; auto go = [&]() { for (int i = 0; i < 2; i++) if (who == 2 || who == i) nd[i]->net->conn_peer(pid(!i), -1, d); };
        if (linked0) { go(); PBT_CHECK(sim::await([&]() { return nd[0]->linked() && nd[1]->linked(); }, 40 * (ct + 2 * d)), "two peers that know each other are not connected"); }
        int n = 1 + c.u(5); bool gone = linked0;
        for (int k = 0; k < n; k++) {
            static const sim::Call K[] = {sim::C_SOCKET, sim::C_ACCEPT, sim::C_CONNECT, sim::C_SETSOCKOPT}; static const int E[] = {EMFILE, EMFILE, ENETUNREACH, EINVAL};
            int f = c.u(3); auto &F = sim::faults[K[f]]; F.err = E[f]; nf++;
            if (c.coin()) F.until = sim::g_ns + (uint64_t)(0.1 * c.u(30) * 1e9); else for (int z = 1 + c.u(4); z > 0; z--) F.next.push_back(c.coin() ? E[f] : 0);
            if (!gone) { go(); gone = true; }
            auto e = sim::established(); if (!e.empty() && c.coin()) { sim::cut(e[0], (sim::Cut)c.u(2)); cuts++; }
            sim::advance(0.1 * c.u(30));
        }
        for (auto &F: sim::faults) { F.next.clear(); F.until = 0; }
        uint32_t round = 0; double t0 = sim::now(), budget = 40 * (ct + 2 * d + 1);
        for (;;) { PBT_CHECK(sim::now() - t0 < budget, "no working link %.0f s after the last failure (%s keeps trying; node 0: %u up %u down, node 1: %u up %u down)", budget, who == 2 ? "both" : who ? "node 1" : "node 0", nd[0]->nup, nd[0]->ndown, nd[1]->nup, nd[1]->ndown);
            round++; for (int i = 0; i < 2; i++) nd[i]->net->send_msg(Tok(0x10 + i, round, 9), pid(!i));
            auto ok = [&](int i) { auto &v = nd[i]->got[0x10 + !i]; return !v.empty() && v.back() == round; };
            sim::await([&]() { return ok(0) && ok(1); }, 2); if (ok(0) && ok(1)) break; }
        if (nf) c.nontrivial(); if (cuts) c.label("link cut"); if (mode) c.label("TLS"); c.label(linked0 ? "connected before" : "not connected before");
        unsigned hits = 0; for (auto &F: sim::faults) hits += F.hits; if (hits) c.label("calls failed"); c.note("%u kinds of failures, %u calls failed, %u cuts", nf, hits, cuts);
        nd[0].reset(); nd[1].reset(); PBT_CHECK(!sim::open_socks(), "sockets stay open");
    });
}
int main(int argc, char **argv) { make_idents(2); pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"service", t_service, 2}, {"peers", t_peers, 1}}, o); }
