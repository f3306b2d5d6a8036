// C05: message envelope against an independent encoder.
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "common.h"
using namespace salticidae;
using namespace pbt;

template<typename OP> struct MsgT { static OP opcode; DataStream serialized; MsgT(const V &v): serialized(v) {} };
template<typename OP> OP MsgT<OP>::opcode;

struct Model { uint32_t magic; uint64_t op; V payload; bool taken; };
template<typename OP> static V enc(const Model &m, bool body = true) {
    V r; le(r, m.magic, 4); le(r, m.op, sizeof(OP)); le(r, m.payload.size(), 4);
    V h = sha1(m.payload); r.insert(r.end(), h.begin(), h.begin() + 4);
    if (body) r.insert(r.end(), m.payload.begin(), m.payload.end());
    return r;
}
template<typename OP> struct T {
    typedef MsgBase<OP> Msg;
    static Msg build(Ctx &c, Model &m) {
        m.magic = (uint32_t)c.edge64(); m.op = (OP)c.edge64(); m.payload = c.bytes(c.size(2000)); m.taken = false;
        unsigned k = c.u(2);
        if (k == 0) { MsgT<OP>::opcode = (OP)m.op; return Msg(MsgT<OP>(m.payload), m.magic); }
        if (k == 1) { V p(m.payload); Msg x((OP)m.op, std::move(p)); PBT_CHECK(x.get_magic() == 0, "default magic"); x.set_magic(m.magic); return x; }
        Msg x(m.magic); x.set_opcode((OP)m.op);
        if (c.coin()) x.set_payload(V(m.payload)); else { V pre = c.bytes(c.size(4)); DataStream s; s << pre << m.payload; s.get_data_inplace(pre.size()); x.set_payload(std::move(s)); }
        x.set_checksum();
        return x;
    }
    static void same(const Msg &x, const Model &m, const char *when) {
        PBT_CHECK(x.get_magic() == m.magic && x.get_opcode() == (OP)m.op && x.get_length() == m.payload.size(), "%s: header fields differ", when);
        if (m.taken) return;
        V s = x.serialize(), e = enc<OP>(m);
        PBT_CHECK(s == e, "%s: serialised form is %s, expected %s", when, hexs(s).c_str(), hexs(e).c_str());
        PBT_CHECK(x.verify_checksum(), "%s: checksum does not verify", when);
        PBT_CHECK(x.get_checksum() == rdle(sha1(m.payload).data(), 4), "%s: checksum value", when);
    }
    static void taketwice(Ctx &c, const Msg &x, Model &m) {
        if (m.taken) {
            bool thrown = false; try { x.get_payload(); } catch (std::exception &) { thrown = true; }
            PBT_CHECK(thrown, "a payload could be taken twice"); return;
        }
        DataStream s = x.get_payload(); m.taken = true;
        PBT_CHECK((bytearray_t)(const DataStream &)s == m.payload, "payload taken differs");
        bool thrown = false; try { x.get_payload(); } catch (std::exception &) { thrown = true; }
        PBT_CHECK(thrown, "a payload could be taken twice");
        c.label("payload_taken");
    }
    static void wire(Ctx &c) {
        Model m; Msg x = build(c, m);
        same(x, m, "built");
        PBT_CHECK(Msg::header_size == 12 + sizeof(OP), "header size is %zu", Msg::header_size);
        V w = x.serialize();
        // receiver: header, then payload of the announced length
        V hd(w.begin(), w.begin() + Msg::header_size), body(w.begin() + Msg::header_size, w.end());
        Msg r{DataStream(V(hd))};
        PBT_CHECK(r.get_magic() == m.magic && r.get_opcode() == (OP)m.op && r.get_length() == m.payload.size(), "parsed header differs");
        bool thrown = false; try { r.get_payload(); } catch (std::exception &) { thrown = true; }
        PBT_CHECK(thrown, "a bare header offered a payload");
        r.set_payload(V(body));
        PBT_CHECK(r.verify_checksum(), "checksum of an intact message does not verify");
        same(r, m, "received");
        // corruption of payload and checksum bytes
        unsigned nt = 0;
        unsigned rounds = 1 + c.u(3);
        for (unsigned k = 0; k < rounds; k++) {
            V hd2(hd), b2(body);
            unsigned nmut = 1 + c.u(3);
            for (unsigned q = 0; q < nmut; q++) {
                size_t tot = 4 + b2.size(), i = c.u(tot - 1); uint8_t x = 1 + c.u(254);
                if (i < 4) hd2[Msg::header_size - 4 + i] ^= x; else b2[i - 4] ^= x;
            }
            if (c.chance(1, 6)) b2.push_back(c.u(255));
            if (c.chance(1, 6) && b2.size()) b2.pop_back();
            Msg y{DataStream(std::move(hd2))};
            uint32_t ck = rdle(&(hd2 = y.serialize())[Msg::header_size - 4], 4);
            V keep(b2);
            y.set_payload(std::move(b2));
            bool exp = rdle(sha1(keep).data(), 4) == ck;
            PBT_CHECK(y.verify_checksum() == exp, "corrupted message %s (payload %s -> %s, checksum %08x)", exp ? "refused" : "accepted", hexs(body).c_str(), hexs(keep).c_str(), ck);
            if (!exp) nt++;
        }
        taketwice(c, r, m);
        if (nt && m.payload.size()) c.nontrivial();
        c.note("op=%llx magic=%x len=%zu corrupted=%u", (unsigned long long)m.op, m.magic, m.payload.size(), nt);
    }
    static void hist(Ctx &c) {
        const size_t N = 3;
        std::vector<Msg> xs; std::vector<Model> ms(N);
        for (size_t i = 0; i < N; i++) xs.push_back(build(c, ms[i]));
        size_t n = 1 + c.size(30); unsigned ops = 0;
        for (size_t k = 0; k < n; k++) {
            size_t i = c.u(N - 1), j = c.u(N - 1);
            unsigned op = c.u(9);
            switch (op) {
                case 0: xs[i] = xs[j]; ms[i] = Model(ms[j]); ops++; break;
                case 1: if (i != j) { xs[i] = std::move(xs[j]); ms[i] = ms[j]; xs[j] = build(c, ms[j]); ops++; } break;
                case 2: xs[i].swap(xs[j]); std::swap(ms[i], ms[j]); ops++; break;
                case 3: { Msg t(xs[i]); same(t, ms[i], "copy"); Msg u(std::move(t)); same(u, ms[i], "moved copy"); xs[i] = std::move(u); ops++; break; }
                case 4: taketwice(c, xs[i], ms[i]); break;
                case 5: { Msg t(xs[i]); Model q(ms[i]); taketwice(c, t, q); break; }      // taking from a copy leaves the original
                case 6: ms[i].magic = (uint32_t)c.edge64(); xs[i].set_magic(ms[i].magic); break;
                case 7: { ms[i].payload = c.bytes(c.size(100)); ms[i].taken = false; xs[i].set_payload(V(ms[i].payload)); xs[i].set_checksum(); break; }
                case 8: { std::string s = (std::string)xs[i]; PBT_CHECK(s.find(std::to_string(ms[i].payload.size())) != std::string::npos, "text form lacks the length: %s", s.c_str()); break; }
                case 9: xs[i] = build(c, ms[i]); break;
            }
            if (k < 10) c.note("op%u@%zu,%zu", op, i, j);
            for (size_t q = 0; q < N; q++) same(xs[q], ms[q], "after an operation");
        }
        if (ops >= 2) c.nontrivial();
    }
};
static void t_wire(Ctx &c) { switch (c.u(3)) { case 0: case 1: T<uint8_t>::wire(c); break; case 2: T<uint16_t>::wire(c); break; default: T<uint32_t>::wire(c); } }
static void t_hist(Ctx &c) { if (c.chance(1, 4)) T<uint32_t>::hist(c); else T<uint8_t>::hist(c); }
static void t_hashes(Ctx &c) {
    std::vector<uint256_t> h, g; size_t n = c.size(200);
    for (size_t i = 0; i < n; i++) h.push_back(i && c.chance(1, 5) ? h[c.u(i - 1)] : uint256_t(c.bytes(32)));
    MsgBase<uint8_t> m; DataStream s; V pre = c.bytes(c.size(4)), post = c.bytes(c.size(40));
    s << pre; m.gen_hash_list(s, h); s << post; s.get_data_inplace(pre.size());
    for (unsigned k = c.u(4); k--;) g.push_back(uint256_t(c.bytes(32)));
    // layout: 32-bit little-endian count, then the values
    V exp; le(exp, n, 4); for (auto &x: h) { V b = (bytearray_t)x; exp.insert(exp.end(), b.begin(), b.end()); }
    exp.insert(exp.end(), post.begin(), post.end());
    PBT_CHECK((bytearray_t)(const DataStream &)s == exp, "hash list layout");
    m.parse_hash_list(s, g);
    PBT_CHECK(g == h, "hash list of %zu does not round-trip (got %zu)", h.size(), g.size());
    PBT_CHECK((bytearray_t)(const DataStream &)s == post, "bytes after the hash list changed");
    if (n > 1) c.nontrivial();
    c.note("%zu hashes", n);
}
int main(int argc, char **argv) {
    Opts o; o.batch = 200;
    return main_(argc, argv, {{"wire", t_wire, 3}, {"history", t_hist, 2}, {"hash_list", t_hashes, 1}}, o);
}
