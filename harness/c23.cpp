// C23: network addresses: text, numbers, socket addresses, serialisation, comparison, C interface.
#include "salticidae/netaddr.h"
#include "common.h"
using namespace salticidae;
using namespace pbt;
struct A { uint8_t o[4]; unsigned port; };
static A gen(Ctx &c) {
    A a;
    static const uint8_t E[] = {0, 1, 10, 127, 128, 192, 255};
    for (auto &x: a.o) x = c.coin() ? E[c.u(6)] : c.u(255);
    static const unsigned P[] = {0, 1, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff, 80};
    a.port = c.coin() ? P[c.u(9)] : c.u(65535);
    return a;
}
static std::string dotted(const A &a) { return std::to_string(a.o[0]) + "." + std::to_string(a.o[1]) + "." + std::to_string(a.o[2]) + "." + std::to_string(a.o[3]); }
static NetAddr build(Ctx &c, const A &a, int how) {
    uint32_t ip; memcpy(&ip, a.o, 4);
    uint16_t np = (uint16_t)((a.port >> 8) | (a.port << 8));
    struct sockaddr_in sa; memset(&sa, 0xaa, sizeof sa);
    SalticidaeCError e;
    netaddr_t *p;
    NetAddr r;
    std::string t = dotted(a) + ":" + std::to_string(a.port);
    switch (how) {
        case 0: return NetAddr(ip, np);
        case 1: return NetAddr(dotted(a), (uint16_t)a.port);
        case 2: return NetAddr(t);
        case 3: sa.sin_family = AF_INET; memcpy(&sa.sin_addr, a.o, 4); sa.sin_port = np; return NetAddr(&sa);
        case 4: { DataStream s; V v(a.o, a.o + 4); s.put_data(v.data(), v.data() + 4); uint8_t pb[2] = {(uint8_t)(a.port >> 8), (uint8_t)a.port}; s.put_data(pb, pb + 2); s >> r; PBT_CHECK(!s.size(), "an address takes 6 bytes"); return r; }
        case 5: r = NetAddr(0x01020304, 99); r.set_by_ip_port(dotted(a), (uint16_t)a.port); return r;
        case 6: p = netaddr_new_from_ip_port(ip, np, &e); break;
        case 7: p = netaddr_new_from_sip_port(dotted(a).c_str(), (uint16_t)a.port, &e); break;
        default: p = netaddr_new_from_sipport(t.c_str(), &e); break;
    }
    PBT_CHECK(p && e.code == 0, "C construction of %s fails with %d", t.c_str(), e.code);
    netaddr_t *q = netaddr_copy(p);
    PBT_CHECK(netaddr_is_eq(p, q), "copy differs");
    r = *q; netaddr_free(p); netaddr_free(q);
    return r;
}
static void t_valid(Ctx &c) {
    A a = gen(c), b = c.chance(1, 3) ? a : gen(c);
    if (c.chance(1, 3)) { b = a; unsigned m = c.u(5); if (m < 4) b.o[m] ^= 1 << c.u(7); else if (m == 4) b.port ^= 1 << c.u(15); else std::swap(b.o[0], b.o[3]); }
    int h1 = c.u(8), h2 = c.u(8);
    NetAddr x = build(c, a, h1), y = build(c, b, h2);
    c.note("%s:%u via %d, %s:%u via %d", dotted(a).c_str(), a.port, h1, dotted(b).c_str(), b.port, h2);
    for (int k = 0; k < 2; k++) {
        const NetAddr &n = k ? y : x; const A &m = k ? b : a;
        uint32_t ip; memcpy(&ip, m.o, 4);
        PBT_CHECK(n.ip == ip && ntohs(n.port) == m.port, "wrong ip or port: %08x %u", n.ip, ntohs(n.port));
        PBT_CHECK(netaddr_get_ip(&n) == ip && netaddr_get_port(&n) == n.port, "C getters");
        std::string s = n, e = "<NetAddr " + dotted(m) + ":" + std::to_string(m.port) + ">";
        PBT_CHECK(s == e, "prints as %s instead of %s", s.c_str(), e.c_str());
        bool nul = !ip && !m.port;
        PBT_CHECK(n.is_null() == nul && netaddr_is_null(&n) == nul, "null test");
        DataStream d; d << n;
        PBT_CHECK(d.size() == 6, "serialised size");
        V raw(d.data(), d.data() + 6);
        PBT_CHECK(!memcmp(raw.data(), m.o, 4) && raw[4] == (m.port >> 8) && raw[5] == (m.port & 255), "serialised bytes are %s", hexs(raw).c_str());
        NetAddr z(7, 7); d >> z;
        PBT_CHECK(z == n && !d.size(), "does not survive serialisation");
    }
    bool same = !memcmp(a.o, b.o, 4) && a.port == b.port;
    PBT_CHECK((x == y) == same && (x != y) == !same && netaddr_is_eq(&x, &y) == same && (y == x) == same, "equality");
    if (same) PBT_CHECK(std::hash<NetAddr>()(x) == std::hash<NetAddr>()(y) && std::hash<const NetAddr>()(x) == std::hash<NetAddr>()(y), "equal addresses hash differently");
    if (c.chance(1, 8)) {
        const netaddr_t *pp[3] = {&x, &y, &x};
        size_t n = c.u(3);
        netaddr_array_t *arr = netaddr_array_new_from_addrs(pp, n);
        PBT_CHECK(arr->size() == n, "array size");
        for (size_t i = 0; i < n; i++) PBT_CHECK((*arr)[i] == *pp[i], "array element");
        netaddr_array_free(arr);
        arr = netaddr_array_new(); PBT_CHECK(arr->empty(), "new array not empty"); netaddr_array_free(arr);
        netaddr_t *z = netaddr_new(); PBT_CHECK(netaddr_is_null(z), "new address not null"); netaddr_free(z);
    }
    if (h1 != h2) c.nontrivial();
}
static void refuse(const std::string &t) {
    bool threw = false; int code = -1;
    try { NetAddr x(t); (void)x; } catch (SalticidaeError &e) { threw = true; code = e.get_code(); }
    PBT_CHECK(threw, "\"%s\" accepted as an address", t.c_str());
    PBT_CHECK(code == SALTI_ERROR_NETADDR_INVALID, "\"%s\" reports error %d", t.c_str(), code);
    SalticidaeCError e; e.code = 0; e.oscode = 0;
    netaddr_t *p = netaddr_new_from_sipport(t.c_str(), &e);
    PBT_CHECK(!p && e.code == SALTI_ERROR_NETADDR_INVALID, "C interface: \"%s\" gives %p, error %d", t.c_str(), (void *)p, e.code);
}
static void t_invalid(Ctx &c) {
    A a = gen(c);
    std::string ip = dotted(a), port = std::to_string(a.port), t, host;
    switch (c.u(7)) {
        case 0: t = ip + (c.coin() ? port : ""); break;      // no colon
        case 1: t = ip + ":"; break;
        case 2: t = ip + ":" + std::to_string(65536 + c.u(c.coin() ? 3 : 10000000)); break;
        case 3: t = ip + ":-" + std::to_string(1 + c.u(c.coin() ? 3 : 70000)); break;
        case 4: { static const char *B[] = {"abc", "x80", "-", "+", ".5", ":80", "99999999999999999999999", "-99999999999999999999", "http", "a", " ", "\n"}; t = ip + ":" + B[c.u(11)]; break; }
        case 5: { static const char *B[] = {"abc", "x", ":", ":80", ".", ".0", "-", "e3", "/", "\t#", "L", " 1"}; t = ip + ":" + port + B[c.u(11)]; break; }   // trailing garbage
        case 6: { // host that is not an address (numeric, so never looked up)
            switch (c.u(3)) {
                case 0: host = ip + "." + std::to_string(c.u(255)); break;
                case 1: { int k = c.u(3); for (int i = 0; i < 4; i++) host += (i ? "." : "") + std::to_string(i == k ? 256 + c.u(1000) : (int)a.o[i]); break; }
                case 2: host = std::to_string(a.o[0]) + ".." + std::to_string(a.o[1]) + ".1"; break;
                default: host = "99999999999.1"; break;
            }
            t = host + ":" + port;
            bool threw = false; int code = -1;
            try { NetAddr x(host, (uint16_t)a.port); } catch (SalticidaeError &e) { threw = true; code = e.get_code(); }
            PBT_CHECK(threw && code == SALTI_ERROR_NETADDR_INVALID, "host \"%s\" not refused (%d)", host.c_str(), code);
            SalticidaeCError e; netaddr_t *p = netaddr_new_from_sip_port(host.c_str(), 80, &e);
            PBT_CHECK(!p && e.code == SALTI_ERROR_NETADDR_INVALID, "C interface: host \"%s\" not refused", host.c_str());
            NetAddr z(ip, 5);
            try { z.set_by_ip_port(host, 80); fail("set_by_ip_port accepts \"%s\"", host.c_str()); } catch (SalticidaeError &) {}
            break; }
        default: t = ":" + port; break;    // empty host
    }
    c.note("%s", t.c_str());
    refuse(t);
    c.nontrivial();
}
int main(int argc, char **argv) { return main_(argc, argv, {{"valid", t_valid, 3}, {"invalid", t_invalid, 2}}, Opts()); }
