// C14: dispatching of messages to handlers, in the simulation.
#include "netsim.h"
template<typename O, unsigned OP> struct MsgO {     // src, seq, kind, content
    static const O opcode = (O)OP;
    DataStream serialized; uint32_t src = 0, seq = 0; bytearray_t data;
    MsgO(uint32_t src, uint32_t seq, size_t len): src(src), seq(seq) { serialized << htole(src) << htole(seq); auto c = content(((uint64_t)src << 32) | seq, len); if (len) serialized.put_data(c.data(), c.data() + len); }
    MsgO(DataStream &&s) { s >> src >> seq; src = letoh(src); seq = letoh(seq); data = bytearray_t(s.data(), s.data() + s.size()); }
};
template<typename O, unsigned OP> const O MsgO<O, OP>::opcode;
template<typename O> struct Poison {                // its parser fails
    static const O opcode = (O)4; DataStream serialized; int how = 0;
    Poison(int how) { serialized << (uint8_t)how; }
    Poison(DataStream &&s) { uint8_t h; s >> h; if (h == 0) { uint64_t x; s >> x; } if (h == 1) throw std::runtime_error("malformed"); how = h; }
};
template<typename O> const O Poison<O>::opcode;
struct Rec { int kind; size_t len; bool accepted, certain; int32_t ticket; };
// stream: direction, connection, thread, deferred or not
static uint32_t sid(int dir, int conn, int th, bool def) { return dir << 24 | conn << 16 | th << 8 | def; }

template<typename O> static void t_dispatch(Ctx &c) {
    typedef MsgNetwork<O> Net; typedef typename Net::conn_t conn_t; typedef typename Net::Msg Msg;
    typedef MsgO<O, 1> K1; typedef MsgO<O, (sizeof(O) > 1 ? 0x1ff : 0xff)> K2; typedef MsgO<O, 3> K3; typedef MsgO<O, 5> K5;
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c);
        if (pr.send_cap && pr.send_cap < 100) pr.send_cap = 40; if (pr.recv_cap && pr.recv_cap < 100) pr.recv_cap = 40;
        sim::set_prof(pr);
        typename Net::Config cfg[2]; uint32_t magic[2]; int nth[2]; bool bounded[2]; bool smallq = false;
        for (int i = 0; i < 2; i++) {
            cfg[i].nworker(1 + c.u(2));
            static const size_t Q[] = {65536, 4, 8, 64}; size_t q = Q[c.u(3)]; cfg[i].max_msg_queue_size(q); smallq |= q < 10;
            static const size_t B[] = {1000, 1, 2, 5}; cfg[i].burst_size(B[c.u(3)]);
            bounded[i] = c.chance(1, 3); if (bounded[i]) cfg[i].max_send_buff_size(4 * (1 + c.u(3)));
            magic[i] = c.coin() ? c.edge64() : 0; if (magic[i]) cfg[i].msg_magic(magic[i]).max_msg_size(4096); else cfg[i].max_msg_size(4096);
            nth[i] = 1 + c.u(2);
        }
        Loop lp0, lp1; Loop *lp[2] = {&lp0, &lp1};
        int nc = 1 + c.u(3); int victim = nc > 1 && c.chance(1, 3) ? (int)c.u(nc - 1) : -1, vdir = c.u(1); bool reply = c.coin();
        std::map<uint32_t, std::vector<Rec>> sent; std::map<uint32_t, size_t> pos; std::set<int32_t> failed[2];
        std::vector<conn_t> cn[2]; std::vector<unsigned> nhand[2], bhand[2]; unsigned ended[2] = {0, 0}; size_t unknown = 0, refused = 0, handled = 0, poisoned = 0; bool closing = false; std::string err;
        Net n0(lp0.ec, cfg[0]), n1(lp1.ec, cfg[1]); Net *net[2] = {&n0, &n1};
        unsigned again = c.u(3);
        // dir = the side that handles
        auto arrive = [&](int side, int kind, uint32_t src, uint32_t seq, const uint8_t *d, size_t len, const conn_t &conn) {
            PBT_CHECK(sched::self() == lp[side]->tid, "a handler runs outside the user's loop");
            auto it = sent.find(src);
            PBT_CHECK(it != sent.end() && (int)(src >> 24) == side, "side %d handles a message nobody sent to it (%x)", side, src);
            int k = (src >> 16) & 255;
            PBT_CHECK((size_t)k < cn[side].size() && cn[side][k].get() == conn.get(), "a message of connection %d is handed over with another connection", k);
            PBT_CHECK(seq < it->second.size(), "stream %x: message %u was never sent", src, seq);
            size_t &p = pos[src];
            PBT_CHECK(seq >= p, "stream %x: message %u is handled again or out of order (after %zu)", src, seq, p);
            for (; p < seq; p++) {
                auto &r = it->second[p];
                PBT_CHECK(!r.accepted || r.kind == 3 || r.kind == 4 || (!r.certain), "stream %x: message %zu is skipped", src, p);
            }
            p = seq + 1;
            auto &r = it->second[seq];
            PBT_CHECK(r.kind == kind, "stream %x: message %u of kind %d goes to the handler of kind %d", src, seq, r.kind, kind);
            auto ct = content(((uint64_t)src << 32) | seq, r.len);
            PBT_CHECK(len == r.len && (!len || !memcmp(ct.data(), d, len)), "stream %x: payload of message %u differs (%zu bytes, %zu sent)", src, seq, len, r.len);
            r.certain = true; r.ticket = -2;      // delivered
            handled++; nhand[side][k]++; bhand[side][k] += 8 + len;
        };
        for (int i = 0; i < 2; i++) {
            // a handler that is registered again is replaced
            if (again & 1 << i) { net[i]->reg_handler([](K1 &&, const conn_t &) { fail("a handler that has been replaced is called"); }); net[i]->set_handler((O)5, [](const Msg &, const conn_t &) { fail("a handler that has been replaced is called"); }); }
            net[i]->reg_handler([&, i](K1 &&m, const conn_t &conn) {
                arrive(i, 1, m.src, m.seq, m.data.data(), m.data.size(), conn);
                if (reply && m.seq % 3 == 0 && ((m.src >> 8) & 255) < 200) {   // answer from the handler
                    int k = (m.src >> 16) & 255; uint32_t s = sid(!i, k, 200, false);
                    auto &v = sent[s]; v.push_back(Rec{1, 5, true, false, -1}); size_t q = v.size() - 1;
                    bool ok = net[i]->send_msg(K1(s, q, 5), conn);
                    if (!ok) { refused++; sent[s][q].accepted = false; PBT_CHECK(sent[s][q].ticket != -2, "a refused message is delivered"); } else sent[s][q].certain = true;
                }
            });
            net[i]->reg_handler([&, i](K2 &&m, const conn_t &conn) { arrive(i, 2, m.src, m.seq, m.data.data(), m.data.size(), conn); });
            net[i]->reg_handler([&, i](Poison<O> &&p, const conn_t &) { PBT_CHECK(p.how == 2, "a message whose parser failed reaches the handler"); });
            net[i]->set_handler((O)5, [&, i](const Msg &m, const conn_t &conn) {
                PBT_CHECK(m.get_opcode() == 5 && m.get_magic() == magic[!i], "the raw handler sees opcode %u magic %x instead of %x", (unsigned)m.get_opcode(), m.get_magic(), magic[!i]);
                K5 k(m.get_payload()); PBT_CHECK(m.get_length() == 8 + k.data.size(), "the raw handler sees length %zu", m.get_length());
                arrive(i, 5, k.src, k.seq, k.data.data(), k.data.size(), conn);
            });
            net[i]->reg_conn_handler([&, i](const ConnPool::conn_t &conn, bool up) {
                auto mc = static_pointer_cast<typename Net::Conn>(conn);
                if (up) { cn[i].push_back(mc); nhand[i].push_back(0); bhand[i].push_back(0); } else if (!closing) ended[i]++;
                return true;
            });
            net[i]->reg_error_handler([&, i](const std::exception_ptr e, bool fatal, int32_t id) {
                try { std::rethrow_exception(e); } catch (std::exception &x) { err = x.what(); }
                PBT_CHECK(!fatal, "fatal error (%s)", err.c_str());
                if (id >= 0) PBT_CHECK(failed[i].insert(id).second, "the failure of a deferred send is reported twice");
            });
            net[i]->start(); lp[i]->start();
        }
        net[0]->listen(at(20000));
        for (int k = 0; k < nc; k++) {
            if (c.coin()) net[1]->connect_sync(at(20000)); else net[1]->connect(at(20000));
            sim::advance(1.5);
            PBT_CHECK(cn[0].size() == (size_t)k + 1 && cn[1].size() == (size_t)k + 1, "connection %d is not established (%s)", k, err.c_str());
        }
        std::vector<std::thread> th;
        for (int i = 0; i < 2; i++) for (int t = 0; t < nth[i]; t++) {
            struct Op { int conn, kind; bool def; size_t len; };
            std::vector<Op> ops; int n = c.chance(1, 4) ? c.u(50) : c.u(12);
            for (int k = 0; k < n; k++) {
                Op o; o.conn = c.u(nc - 1); o.def = c.chance(1, 3); o.len = c.chance(1, 5) ? c.u(2000) : c.u(30);
                static const int K[] = {1, 1, 2, 5, 3}; o.kind = K[c.u(4)];
                if (o.conn == victim && i != vdir && c.chance(1, 3)) { o.kind = 4; o.len = c.u(2); }
                ops.push_back(o);
            }
            th.push_back(std::thread([&, i, t, ops]() {
                Net &N = *net[i];
                for (auto &o: ops) {
                    auto conn = cn[i][o.conn];
                    uint32_t s = sid(!i, o.conn, t, o.def); auto &v = sent[s]; uint32_t q = v.size();
                    v.push_back(Rec{o.kind, o.len, true, false, -1});
                    if (o.def) {
                        int32_t id = -1;
                        if (o.kind == 1) id = N.send_msg_deferred(K1(s, q, o.len), conn);
                        if (o.kind == 2) id = N.send_msg_deferred(K2(s, q, o.len), conn);
                        if (o.kind == 3) { id = N.send_msg_deferred(K3(s, q, o.len), conn); unknown++; }
                        if (o.kind == 4) { id = N.send_msg_deferred(Poison<O>(o.len), conn); poisoned++; }
                        if (o.kind == 5) id = N.send_msg_deferred(K5(s, q, o.len), conn);
                        PBT_CHECK(id >= 0, "a deferred send returns ticket %d", id);
                        if (sent[s][q].ticket != -2) sent[s][q].ticket = id;
                    } else {
                        bool ok = false;
                        if (o.kind == 1) ok = N.send_msg(K1(s, q, o.len), conn);
                        if (o.kind == 2) ok = N.send_msg(K2(s, q, o.len), conn);
                        if (o.kind == 3) { ok = N.send_msg(K3(s, q, o.len), conn); unknown++; }
                        if (o.kind == 4) { ok = N.send_msg(Poison<O>(o.len), conn); poisoned++; }
                        if (o.kind == 5) ok = N.send_msg(K5(s, q, o.len), conn);
                        auto &r = sent[s][q];
                        if (!ok) { refused++; r.accepted = false; PBT_CHECK(r.ticket != -2, "a refused message is delivered"); PBT_CHECK(bounded[i], "a send is refused although the send buffer has no limit"); }
                        else r.certain = true;
                    }
                }
            }));
        }
        for (auto &t: th) t.join();
        sim::advance(3);
        for (auto &e: sent) {
            uint32_t s = e.first; int k = (s >> 16) & 255, side = s >> 24;
            if (k == victim) continue;
            for (size_t q = 0; q < e.second.size(); q++) {
                auto &r = e.second[q]; bool got = r.ticket == -2;
                if (s & 1) {
                    if (r.kind == 3) continue;
                    bool rep = r.ticket >= 0 && failed[!side].count(r.ticket);
                    PBT_CHECK(got || rep, "stream %x: deferred message %zu is neither delivered nor reported", s, q);
                    if (rep) refused++;
                    PBT_CHECK(!rep || bounded[!side], "a deferred send fails although the send buffer has no limit");
                } else if (r.accepted && r.kind != 3) PBT_CHECK(got, "stream %x: message %zu of %zu is accepted but never handled", s, q, e.second.size());
            }
        }
        if (victim < 0 || !poisoned) PBT_CHECK(!ended[0] && !ended[1], "a healthy connection is closed (%s)", err.c_str());
        else PBT_CHECK(ended[0] <= 1 && ended[1] <= 1, "an unparsable message closes other connections");
#ifdef SALTICIDAE_MSG_STAT
        for (int i = 0; i < 2; i++) for (int k = 0; k < nc; k++) if (k != victim) {
            size_t ns = 0, nb = 0;
            for (auto &e: sent) if ((int)(e.first >> 24) == !i && (int)((e.first >> 16) & 255) == k) for (auto &r: e.second) {
                bool ok = e.first & 1 ? !(r.ticket >= 0 && failed[i].count(r.ticket)) : r.accepted;
                if (ok) { ns++; nb += 8 + r.len; }
            }
            PBT_CHECK(cn[i][k]->get_nsent() == ns && cn[i][k]->get_nsentb() == nb, "connection %d side %d counts %zu messages / %zu bytes as sent, but %zu / %zu were accepted", k, i, cn[i][k]->get_nsent(), cn[i][k]->get_nsentb(), ns, nb);
            PBT_CHECK(cn[i][k]->get_nrecv() == nhand[i][k] && cn[i][k]->get_nrecvb() == bhand[i][k], "connection %d side %d counts %zu messages / %zu bytes as received, but %u / %u were handled", k, i, cn[i][k]->get_nrecv(), cn[i][k]->get_nrecvb(), nhand[i][k], bhand[i][k]);
        }
#endif
        closing = true;
        if (handled > 5 && (smallq || unknown || refused || victim >= 0)) c.nontrivial();
        if (smallq) c.label("small message queue"); if (refused) c.label("refused sends"); if (victim >= 0 && poisoned) c.label("unparsable"); if (unknown) c.label("unregistered opcode");
        c.note("%d connections, %zu handled, %zu refused, %zu unknown, %zu poisoned", nc, handled, refused, unknown, poisoned);
        lp0.stop(); lp1.stop();
        cn[0].clear(); cn[1].clear();
    });
}
int main(int argc, char **argv) { pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"dispatch8", t_dispatch<uint8_t>, 3}, {"dispatch16", t_dispatch<uint16_t>, 1}, {"dispatch32", t_dispatch<uint32_t>, 1}}, o); }
