// Shared by the peer network harnesses.
#ifndef PEERSIM_H
#define PEERSIM_H
#include "netsim.h"
typedef PeerNetwork<uint8_t> PNet; typedef PNet::conn_t pconn_t; typedef MsgT<1> Tok;
struct PRec { pconn_t conn; unsigned up = 0, down = 0; };
struct Node {
    Loop lp; PNet *net = nullptr; int i; uint16_t port; int mode; std::deque<PRec> links; std::map<uint32_t, std::vector<uint32_t>> got; std::vector<std::pair<NetAddr, bytearray_t>> unknown;
    std::map<int32_t, std::vector<int>> errs; std::vector<int> errs_other; std::string err; unsigned nup = 0, ndown = 0; bool closing = false; double last_change = 0;
    std::function<void(Tok &&, const pconn_t &)> on_tok; std::function<void(const pconn_t &, bool)> on_peer;
    PRec &rec(const pconn_t &c) { Quiet q; for (auto &r: links) if (r.conn.get() == c.get()) return r; links.push_back(PRec()); links.back().conn = c; return links.back(); }
    bool linked() { for (auto &r: links) if (r.up && !r.down) return true; return false; }
    // mode 0: plain, 1: TLS with address identities, 2: TLS with certificate identities
    Node(int i, uint16_t port, int mode, PNet::Config cfg): i(i), port(port), mode(mode) {
        if (mode) use_tls(cfg, i);
        cfg.id_mode(mode == 2 ? PNet::CERT_BASED : PNet::ADDR_BASED);
        net = new PNet(lp.ec, cfg);
        net->reg_peer_handler([this](const pconn_t &conn, bool up) {
            PBT_CHECK(sched::self() == lp.tid, "the peer callback runs outside the user's loop");
            if (closing) return;
            auto &r = rec(conn);
            if (up) { PBT_CHECK(++r.up == 1 && !r.down, "node %d: a link is reported as established %u times, ended %u times", this->i, r.up, r.down); nup++; }
            else { PBT_CHECK(++r.down == 1, "node %d: the end of a link is reported %u times", this->i, r.down); ndown++; }
            last_change = sim::now();
            if (on_peer) on_peer(conn, up);
        });
        net->reg_handler([this](Tok &&m, const pconn_t &conn) {
            if (closing) return;
            PBT_CHECK(m.good(), "node %d receives a corrupted message (%x/%u, %zu bytes)", this->i, m.src, m.seq, m.data.size());
            { Quiet q; got[m.src].push_back(m.seq); }
            if (on_tok) on_tok(std::move(m), conn);
        });
        net->reg_unknown_peer_handler([this](const NetAddr &a, const salticidae::X509 *x) { Quiet q; unknown.push_back({a, x ? x->get_der() : bytearray_t()}); });
        net->reg_error_handler([this](const std::exception_ptr e, bool fatal, int32_t id) {
            int code = -1;
            try { std::rethrow_exception(e); } catch (SalticidaeError &x) { err = x.what(); code = x.get_code(); } catch (std::exception &x) { err = x.what(); }
            PBT_CHECK(!fatal, "node %d: fatal error (%s)", this->i, err.c_str());
            Quiet q; if (id >= 0) errs[id].push_back(code); else errs_other.push_back(code);
        });
        net->start(); lp.start();
        net->listen(at(port));
    }
    ~Node() { closing = true; lp.stop(); { std::deque<PRec> d; d.swap(links); } delete net; }
};
static PeerId pid_of(int i, uint16_t port, int mode) { return mode == 2 ? PeerId(salticidae::X509::create_from_der(g_ids[i].cert)) : PeerId(at(port)); }
#endif
