// C22: the client network routes by client address, against a model of the live clients.
#include "netsim.h"
typedef MsgT<1> Req; typedef MsgT<2> Rep; typedef ClientNetwork<uint8_t> Net; typedef Net::conn_t conn_t;
struct Cli { int fd; uint16_t port; bool live, reading; Bytes in; uint64_t born; std::vector<uint32_t> got; };
struct Sent { uint16_t port; int th; bool deferred, ok, settled; int32_t ticket; int target; size_t len; unsigned seen; bool refused; };
static void t_route(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 40; if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 40; sim::set_prof(pr);
        Net::Config cfg; cfg.nworker(1 + c.u(2)); bool bounded = c.chance(1, 3); if (bounded) cfg.max_send_buff_size(4 * (1 + c.u(2)));
        Loop lp; Net net(lp.ec, cfg);
        std::map<int32_t, unsigned> failed; std::string err; std::deque<Sent> sent; std::deque<Cli> cli; unsigned nreq = 0, nrep = 0, nrefused = 0, nnone = 0, swaps = 0; bool deferred_reply = c.coin();
        std::map<std::pair<uint16_t, uint32_t>, unsigned> handled;
        net.reg_error_handler([&](const std::exception_ptr e, bool fatal, int32_t id) {
            try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); }
            PBT_CHECK(!fatal, "fatal error (%s)", err.c_str());
            if (id >= 0) PBT_CHECK(++failed[id] == 1, "the failure of one deferred send is reported twice");
        });
        auto record = [&](uint16_t port, int th, bool def, int target, bool settled, size_t len) -> uint32_t { Quiet q; sent.push_back(Sent{port, th, def, true, settled, -1, target, len, 0, false}); return sent.size() - 1; };
        // 1: accepted, 0: refused (full), -1: no such client
        auto dosend = [&](uint32_t s) -> int {
            auto &r = sent[s]; NetAddr a = at(r.port);
            if (r.deferred) { r.ticket = net.send_msg_deferred(Rep(r.port, s, r.len), a); PBT_CHECK(r.ticket >= 0, "a deferred send has no ticket"); return 1; }
            try { bool ok = net.send_msg(Rep(r.port, s, r.len), a); r.ok = ok; if (!ok) { nrefused++; PBT_CHECK(bounded, "a send is refused although the send buffer has no limit"); } return ok; }
            catch (ClientNetworkError &e) { r.ok = false; r.refused = true; nnone++; return -1; }
        };
        net.reg_handler([&](Req &&m, const conn_t &conn) {
            PBT_CHECK(m.good(), "corrupted request");
            PBT_CHECK(conn->get_addr() == at(m.src), "a request of client %u is handed over with address %s", m.src, std::string(conn->get_addr()).c_str());
            nreq++;
            // reply to the address it came from
            uint32_t s = record(m.src, 99, deferred_reply, m.seq, false, m.data.size());
            dosend(s); nrep++;
        });
        net.start(); lp.start();
        net.listen(at(20000));
        std::vector<uint16_t> ports; int np = 1 + c.u(3); for (int i = 0; i < np; i++) ports.push_back(40000 + i);
        auto liveof = [&](uint16_t p) -> int { for (int i = (int)cli.size() - 1; i >= 0; i--) if (cli[i].port == p && cli[i].live) return i; return -1; };
        bool moved = false;
        auto drain = [&](int i, bool force = false) {
            auto &k = cli[i]; if (!k.reading && !force) return;
            auto d = sim::raw_recv(k.fd); moved |= !d.empty(); k.in.insert(k.in.end(), d.begin(), d.end());
            for (auto &w: dec(k.in)) {
                PBT_CHECK(w.sum && w.op == 2, "a client receives a corrupted message");
                Rep m(DataStream(w.payload)); PBT_CHECK(m.good() && m.seq < sent.size(), "a client receives a message nobody sent");
                auto &r = sent[m.seq];
                PBT_CHECK(r.port == k.port && m.src == k.port, "a message for client %u reaches client %u", r.port, k.port);
                PBT_CHECK(r.ok, "a refused message is delivered");
                PBT_CHECK(++r.seen == 1, "a message is delivered twice");
                if (r.settled) PBT_CHECK(r.target == i, "a message for the connection %d of client %u reaches its connection %d", r.target, k.port, i);
                k.got.push_back(m.seq);
            }
        };
        auto settle = [&]() { do { sim::settle(); moved = false; for (size_t i = 0; i < cli.size(); i++) if (cli[i].live) drain(i); } while (moved); };
        auto close = [&](int i, bool rst) { auto &k = cli[i]; if (!k.live) return; if (k.reading) drain(i); k.live = false; if (rst) sim::cut(k.fd, sim::RST); sim::raw_close(k.fd); };
        std::vector<std::thread> th; bool quiet = true;      // nothing has happened since the last settling
        int n = c.size(30);
        for (int k = 0; k < n; k++) {
            uint16_t p = c.pick(ports); int i = liveof(p);
            switch (c.u(9)) {
                case 0: case 1: if (i >= 0) { close(i, true); swaps++; }     // returns on the same address before the server noticed
                    { int f = sim::raw_connect(20000, p); PBT_CHECK(f >= 0, "cannot connect"); cli.push_back(Cli{f, p, true, true, {}, 0, {}}); quiet = false; } break;
                case 2: if (i >= 0) { close(i, c.coin()); quiet = false; } break;
                case 3: if (i >= 0 && bounded) { cli[i].reading = !cli[i].reading; if (cli[i].reading) drain(i); } break;
                case 4: case 5: case 6: {   // a send in a known state
                    settle(); i = liveof(p); if (i >= 0 && !cli[i].reading) { cli[i].reading = true; settle(); }
                    bool def = c.chance(1, 3); uint32_t s = record(p, 0, def, i, true, c.u(200));
                    int r; if (c.coin()) r = dosend(s); else { r = 1; lp.run([&]() { r = dosend(s); }); }
                    settle();
                    if (i < 0) PBT_CHECK(def ? failed.count(sent[s].ticket) : r == -1, "a %ssend to client %u, which has no live connection, is not refused", def ? "deferred " : "", p);
                    else {
                        PBT_CHECK(r == 1 && !(def && failed.count(sent[s].ticket)), "a send to client %u, which is connected and idle, is refused", p);
                        PBT_CHECK(sent[s].seen == 1, "a message for client %u is accepted but never arrives", p);
                    }
                    break; }
                case 7: {   // sends while clients come and go
                    std::vector<uint32_t> v; int m = 1 + c.u(6); bool def = c.coin(), burst = bounded && c.coin(); if (burst) m = 10 + c.u(25);
                    for (int j = 0; j < m; j++) v.push_back(record(burst ? p : c.pick(ports), 100 + k, def, -1, false, c.chance(1, 4) ? c.u(3000) : c.u(40)));
                    auto fn = [&, v]() { for (auto s: v) dosend(s); };
                    if (c.coin()) th.push_back(std::thread(fn)); else lp.post(fn);
                    break; }
                case 8: case 9: if (i >= 0) { sim::raw_send_all(cli[i].fd, enc(1, body(p, i, c.u(60)))); } break;
            }
            if (c.chance(2, 5)) settle(); else if (c.chance(1, 4)) sim::advance(0.01);
        }
        for (auto &t: th) t.join();
        for (auto &k: cli) k.reading = true;
        for (int r = 0; r < 3; r++) { settle(); sim::advance(0.5); }
        settle();
        // everything sent to a client that stayed is accounted for
        unsigned nreplaced = 0;
        for (size_t s = 0; s < sent.size(); s++) {
            auto &r = sent[s]; 
            if (r.deferred) PBT_CHECK(!(r.seen && failed.count(r.ticket)), "a deferred message is delivered and reported as failed");
            bool stable = true; unsigned insts = 0; for (auto &k: cli) if (k.port == r.port) { insts++; stable &= k.live; }
            if (insts == 1 && stable) {
                if (r.deferred) PBT_CHECK(r.seen || failed.count(r.ticket), "a deferred message for client %u is neither delivered nor reported", r.port);
                else if (r.ok) PBT_CHECK(r.seen, "a message accepted for client %u never arrives", r.port);
            }
            // a reply goes to the connection that the request came from, if it is still there, even if an older one has not been given up yet
            if (r.th == 99 && cli[r.target].live) {
                bool last = true; for (size_t i = r.target + 1; i < cli.size(); i++) if (cli[i].port == r.port) last = false;
                if (last) { if (r.target && insts > 1) nreplaced++;
                    PBT_CHECK(!r.refused && !(r.deferred && !bounded && failed.count(r.ticket)), "the reply to a request of client %u, which is connected, is refused", r.port);
                    if (r.ok && !(r.deferred && failed.count(r.ticket))) PBT_CHECK(r.seen, "the reply to a request of client %u, which is connected, never arrives", r.port); }
            }
            if (r.refused || !r.ok) PBT_CHECK(!r.seen, "a refused message is delivered");
        }
        for (auto &k: cli) {    // one thread's direct (or deferred) messages keep their order
            std::map<std::pair<int, bool>, uint32_t> last;
            for (auto s: k.got) { auto key = std::make_pair(sent[s].th, sent[s].deferred); if (sent[s].th != 99) { auto it = last.find(key); PBT_CHECK(it == last.end() || it->second < s, "messages of one sender reach client %u in another order", k.port); last[key] = s; } }
        }
        if (sent.size() > 3 && (swaps || nnone || nrefused || failed.size()) ) c.nontrivial();
        if (swaps) c.label("client replaced on its address"); if (nnone || failed.size()) c.label("send to absent client"); if (nrefused) c.label("full send buffer"); if (nreq) c.label("request and reply"); if (nreplaced) c.label("reply to a returned client");
        c.note("%zu client connections on %d addresses, %u replaced, %zu sends, %u to nobody, %zu deferred failures, %u requests", cli.size(), np, swaps, sent.size(), nnone, failed.size(), nreq);
        lp.stop();
        for (auto &k: cli) if (k.live) sim::raw_close(k.fd);
    });
}
int main(int argc, char **argv) { pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"route", t_route, 1}}, o); }
