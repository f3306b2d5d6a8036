// C15: generated hostile byte streams against a message network, model = independent decoder.
#include "netsim.h"
typedef MsgNetwork<uint8_t> Net;
typedef MsgT<1> M1;     // registered, src/seq/content
struct Strict { static const uint8_t opcode = 2; DataStream serialized; uint64_t a, b; Strict(DataStream &&s) { s >> a >> b; } };   // needs 16 bytes
const uint8_t Strict::opcode;
struct Arr { static const uint8_t opcode = 6; DataStream serialized; bytearray_t d; Arr(DataStream &&s) { uint32_t n; s >> n; n = letoh(n); d.resize(std::min<uint32_t>(n, 1 << 20)); auto p = s.get_data_inplace(n); d.assign(p, p + n); } };
const uint8_t Arr::opcode;
// refuses its content in various ways
struct Pick { static const uint8_t opcode = 7; DataStream serialized; Bytes all; Pick(DataStream &&s) {
    all.assign(s.data(), s.data() + s.size()); uint8_t k; s >> k;
    switch (k) { case 1: throw std::runtime_error("refused"); case 2: throw std::invalid_argument("refused"); case 3: throw SalticidaeError("refused"); case 4: throw std::bad_alloc(); case 5: throw std::length_error("refused");
        case 6: { uint256_t h; h.from_hex("zz"); break; } case 7: throw MsgNetworkError(SALTI_ERROR_CONN_OVERSIZED_MSG); default: break; }
} };
const uint8_t Pick::opcode;
struct Ev { uint8_t op; Bytes payload; bool operator==(const Ev &o) const { return op == o.op && payload == o.payload; } };
struct Att { int fd = -1; uint16_t port = 0; Bytes stream; std::vector<Ev> want; bool over = false, kill = false; size_t atkill = 0; std::vector<Ev> got; unsigned up = 0, down = 0; };
static void t_hostile(Ctx &c) {
    sim::g_tls = false;
    sim::run(c, [&]() {
        auto pr = sim::gen_prof(c); if (pr.recv_cap && pr.recv_cap < 7) pr.recv_cap = 7; if (pr.send_cap && pr.send_cap < 7) pr.send_cap = 7; sim::set_prof(pr);
        static const size_t MM[] = {300, 0, 13, 64, 1024}; size_t maxmsg = MM[c.u(4)];
        Net::Config cfg; cfg.max_msg_size(maxmsg).nworker(1 + c.u(2));
        static const size_t Q[] = {65536, 4, 16}; cfg.max_msg_queue_size(Q[c.u(2)]);
        static const size_t B[] = {1000, 1, 3}; cfg.burst_size(B[c.u(2)]);
        static const size_t CH[] = {4096, 16, 100}; size_t ch = CH[c.u(2)]; cfg.recv_chunk_size(ch).max_recv_buff_size((maxmsg + 13) / ch + 2 + c.u(3));
        Loop la, lb; Net R(la.ec, cfg); Net::Config hc; hc.max_msg_size(1 << 16); Net H(lb.ec, hc);
        int na = 1 + c.u(2); std::vector<Att> at_(na); unsigned overs = 0, errs_over = 0; std::string err; bool closing = false; bool slow = c.coin();
        size_t hgot = 0, hback = 0; uint16_t hport = 0; Net::conn_t hc_r, hc_h; unsigned hdown = 0;
        auto find = [&](const NetAddr &a) -> Att * { for (auto &x: at_) if (at(x.port) == a) return &x; return nullptr; };
        auto seen = [&](const Net::conn_t &conn, uint8_t op, const Bytes &pl) {
            PBT_CHECK(sched::self() == la.tid, "a handler runs outside the user's loop");
            if (slow && c.chance(1, 4)) sim::await([]() { return false; }, 0.001);
            auto a = find(conn->get_addr());
            if (!a) { PBT_CHECK(conn.get() == hc_r.get(), "message from an unknown connection"); return; }
            size_t k = a->got.size();
            PBT_CHECK(k < a->want.size(), "a message that was never validly encoded is delivered (opcode %u, %zu bytes)", op, pl.size());
            Ev e{op, pl};
            PBT_CHECK(a->want[k] == e, "message %zu of a hostile stream differs: opcode %u, %zu bytes; expected opcode %u, %zu bytes", k, op, pl.size(), a->want[k].op, a->want[k].payload.size());
            a->got.push_back(e);
        };
        R.reg_handler([&](M1 &&m, const Net::conn_t &conn) {
            if (hc_r && conn.get() == hc_r.get()) { PBT_CHECK(m.good() && m.seq == hgot, "the healthy connection is disturbed: message %u instead of %zu", m.seq, hgot); hgot++; R.send_msg(M1(9, m.seq, 3), conn); return; }
            seen(conn, 1, body(m.src, m.seq, 0).size() ? [&]() { Bytes r; for (uint32_t v: {m.src, m.seq}) for (int i = 0; i < 4; i++) r.push_back(v >> (8 * i)); r.insert(r.end(), m.data.begin(), m.data.end()); return r; }() : Bytes());
        });
        R.reg_handler([&](Strict &&s, const Net::conn_t &conn) { Bytes r; for (uint64_t v: {s.a, s.b}) for (int i = 0; i < 8; i++) r.push_back(v >> (8 * i)); seen(conn, 2, r); });
        R.reg_handler([&](Arr &&s, const Net::conn_t &conn) { Bytes r; uint32_t n = s.d.size(); for (int i = 0; i < 4; i++) r.push_back(n >> (8 * i)); r.insert(r.end(), s.d.begin(), s.d.end()); seen(conn, 6, r); });
        R.reg_handler([&](Pick &&s, const Net::conn_t &conn) { seen(conn, 7, s.all); });
        R.set_handler(3, [&](const Net::Msg &m, const Net::conn_t &conn) { auto s = m.get_payload(); seen(conn, 3, Bytes(s.data(), s.data() + s.size())); });
        R.reg_conn_handler([&](const ConnPool::conn_t &conn, bool up) {
            auto a = find(conn->get_addr());
            if (a) (up ? a->up : a->down)++;
            else if (up) hc_r = static_pointer_cast<Net::Conn>(conn); else if (!closing) hdown++;
            return true;
        });
        auto eh = [&](const std::exception_ptr e, bool fatal, int32_t) {
            try { std::rethrow_exception(e); } catch (SalticidaeError &x) { err = x.what(); if (x.get_code() == SALTI_ERROR_CONN_OVERSIZED_MSG) errs_over++; } catch (std::exception &x) { err = x.what(); }
            PBT_CHECK(!fatal, "hostile bytes cause a fatal error (%s)", err.c_str());
        };
        R.reg_error_handler(eh); H.reg_error_handler(eh);
        H.reg_handler([&](M1 &&m, const Net::conn_t &) { PBT_CHECK(m.src == 9 && m.seq == hback, "a reply on the healthy connection is lost"); hback++; });
        H.reg_conn_handler([&](const ConnPool::conn_t &conn, bool up) { if (up) hc_h = static_pointer_cast<Net::Conn>(conn); else if (!closing) hdown++; return true; });
        R.start(); la.start(); H.start(); lb.start();
        R.listen(at(20000));
        H.connect(at(20000)); sim::advance(2);
        PBT_CHECK(hc_h && hc_r, "no healthy connection (%s)", err.c_str());
        // streams
        for (int i = 0; i < na; i++) {
            auto &a = at_[i]; a.port = 50001 + i;
            int n = c.chance(1, 3) ? 20 + c.u(20) : c.u(12); bool stop = false; unsigned bad = 0;
            auto add = [&](const Bytes &b) { a.stream.insert(a.stream.end(), b.begin(), b.end()); };
            for (int k = 0; k < n && !stop; k++) {
                uint32_t magic = c.coin() ? 0 : c.edge64();
                int what = c.u(9); Bytes pl; uint8_t op = 3;
                size_t cap = maxmsg;
                switch (what) {
                    case 5: { // wrong checksum
                        pl = content(c.u(1000), c.u(cap)); Bytes m = enc(c.coin() ? 3 : 1, pl, magic);
                        size_t bit = c.u(8 * (4 + pl.size()) - 1); m[9 + bit / 8] ^= 1 << (bit % 8); add(m); bad++; break; }
                    case 6: { // an opcode nobody handles
                        pl = content(c.u(1000), c.u(cap)); op = 20 + c.u(200); add(enc(op, pl, magic)); break; }
                    case 7: { // oversized announcement
                        if (!c.chance(1, 2)) break;
                        uint32_t len = c.coin() ? maxmsg + 1 + c.u(3) : c.coin() ? 0xffffffffu - c.u(14) : 0x80000000u + c.u(30); if (len <= maxmsg) len = maxmsg + 1;
                        Bytes m = enc(c.coin() ? 3 : 77, {}, magic); for (int j = 0; j < 4; j++) m[5 + j] = len >> (8 * j);
                        add(m); if (c.coin()) add(content(5, c.u(400))); a.over = true; stop = true; break; }
                    case 8: { // unparsable for its handler
                        if (!c.chance(1, 3)) break;
                        if (cap && c.chance(1, 3)) { pl = content(c.u(99), 1 + c.u(std::min<size_t>(20, cap - 1))); pl[0] = 1 + c.u(6); op = 7; }
                        else if (c.coin()) { pl = content(c.u(99), std::min<size_t>(c.u(15), cap)); op = 2; }
                        else { if (cap < 4) break; size_t e = std::min<size_t>(cap - 4, c.u(20)); uint32_t n2 = c.coin() ? e + 1 + c.u(10) : 0xfffffff0u + c.u(15); pl.resize(4); for (int j = 0; j < 4; j++) pl[j] = n2 >> (8 * j); auto x = content(3, e); pl.insert(pl.end(), x.begin(), x.end()); op = 6; }
                        add(enc(op, pl, magic)); if (!a.kill) { a.kill = true; a.atkill = a.want.size(); } bad++; break; }
                    case 9: if (cap >= 16) { pl = content(c.u(1000), 16); add(enc(2, pl, magic)); a.want.push_back({2, pl}); break; }   // fall through
                    default: // valid
                        if (what >= 3 && cap >= 8) { op = 1; pl = content(c.u(1000), 8 + c.u(cap - 8)); }
                        else pl = content(c.u(1000), c.chance(1, 6) ? 0 : c.chance(1, 6) ? cap : c.u(cap));
                        add(enc(op, pl, magic)); a.want.push_back({op, pl});
                }
            }
            if (!stop) {
                if (c.chance(1, 4)) { Bytes m = enc(3, content(8, c.u(maxmsg))); m.resize(c.u(m.size() - 1)); add(m); bad++; }        // cut in the middle
                else if (c.chance(1, 5)) { // arbitrary bytes, decoded by the model below
                    Bytes g = content(c.u(100000), 1 + c.u(300)); if (c.coin() && g.size() > 9) { g[6] = g[7] = g[8] = 0; g[5] = c.u(255); } add(g); bad++;
                    Bytes rest = g; // the model
                    while (rest.size() >= 13) {
                        uint32_t len = rest[5] | rest[6] << 8 | rest[7] << 16 | (uint32_t)rest[8] << 24;
                        if (len > maxmsg) { a.over = true; break; }
                        if (rest.size() < 13 + len) break;
                        Bytes p(rest.begin() + 13, rest.begin() + 13 + len); auto h = sha1(p);
                        if (!memcmp(h.data(), &rest[9], 4)) { a.kill = true; a.atkill = std::min(a.atkill ? a.atkill : a.want.size(), a.want.size()); }   // (never seen)
                        rest.erase(rest.begin(), rest.begin() + 13 + len);
                    }
                }
            }
            if (a.over) overs++;
            if (a.over || bad || a.kill) c.nontrivial();
            if (a.over) c.label("oversized"); if (a.kill) c.label("unparsable"); if (bad) c.label("damaged");
            c.note("stream %d: %zu bytes, %zu valid messages%s%s", i, a.stream.size(), a.want.size(), a.over ? ", oversized" : "", a.kill ? ", unparsable" : "");
        }
        // interleave
        std::vector<size_t> off(na, 0); for (auto &a: at_) a.fd = sim::raw_connect(20000, a.port);
        bool wait = c.coin(); if (wait) sim::advance(1);
        size_t hsent = 0; bool more = true; size_t cutmax = c.coin() ? 5000 : 1 + c.u(40); unsigned rounds = 0;
        while (more) {
            more = false; rounds++;
            for (int i = 0; i < na; i++) if (off[i] < at_[i].stream.size()) {
                size_t n = std::min(at_[i].stream.size() - off[i], rounds > 60 ? 5000 : 1 + c.u(cutmax));
                Bytes part(at_[i].stream.begin() + off[i], at_[i].stream.begin() + off[i] + n); off[i] += n;
                if (!sim::raw_send_all(at_[i].fd, part)) off[i] = at_[i].stream.size();     // closed by the other side
                else more = true;
            }
            if (maxmsg >= 16 && c.coin()) H.send_msg(M1(8, hsent++, c.u(maxmsg - 8)), hc_h);
            if (c.chance(1, 3)) sim::settle();
        }
        if (c.chance(1, 3)) for (auto &a: at_) if (!a.over && !a.kill && c.coin()) { sim::settle(); sim::raw_close(a.fd); a.fd = -1; }
        sim::advance(3);
        if (maxmsg >= 16) { H.send_msg(M1(8, hsent++, 0), hc_h); sim::advance(3); }
        PBT_CHECK(!hdown, "the healthy connection is closed (%s)", err.c_str());
        PBT_CHECK(hgot == hsent && hback == hsent, "the healthy connection stalls: %zu of %zu messages, %zu replies", hgot, hsent, hback);
        for (auto &a: at_) {
            PBT_CHECK(a.up == 1, "an accepted connection is reported %u times", a.up);
            if (a.kill) PBT_CHECK(a.got.size() >= a.atkill, "only %zu of %zu valid messages before the unparsable one are delivered", a.got.size(), a.atkill);
            else PBT_CHECK(a.got.size() == a.want.size(), "only %zu of %zu valid messages of a hostile stream are delivered", a.got.size(), a.want.size());
            if (a.over || a.kill) { PBT_CHECK(a.down == 1, "the connection of an %s message is ended %u times", a.over ? "oversized" : "unparsable", a.down); PBT_CHECK(a.fd < 0 || (sim::raw_recv(a.fd), sim::raw_eof(a.fd)), "the connection of an %s message stays open", a.over ? "oversized" : "unparsable"); }
            else if (a.fd >= 0) PBT_CHECK(a.down == 0, "a connection without oversized or unparsable messages is closed (%s)", err.c_str());
        }
        unsigned maybe = 0; for (auto &a: at_) if (a.over && a.kill) maybe++;
        PBT_CHECK(errs_over <= overs && errs_over + maybe >= overs, "%u oversized-message errors for %u oversized messages", errs_over, overs);
        closing = true;
        la.stop(); lb.stop(); hc_r = hc_h = nullptr;
        for (auto &a: at_) if (a.fd >= 0) sim::raw_close(a.fd);
    });
}
int main(int argc, char **argv) { pbt::Opts o; o.batch = 16; return pbt::main_(argc, argv, {{"hostile", t_hostile, 1}}, o); }
