// C25: formatted strings, split/trim, log lines, error texts, delays.
#include "salticidae/util.h"
#include "common.h"
#include <sys/time.h>
#include <sys/stat.h>
using namespace salticidae;
using namespace pbt;
static size_t len_near(Ctx &c) {
    static const size_t B[] = {0, 1, 511, 512, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 4096, 9000};
    size_t b = B[c.u(14)];
    long d = (long)c.u(6) - 3;
    return c.chance(1, 4) ? c.u(3000) : (d < 0 && b < (size_t)-d) ? 0 : b + d;
}
static std::string text(Ctx &c, size_t n, const char *alpha = nullptr) {
    std::string s(n, 'x'); Prng p(c.u(UINT64_MAX));
    size_t al = alpha ? strlen(alpha) : 0;
    for (auto &ch: s) ch = al ? alpha[p.below(al)] : (char)(33 + p.below(90));
    return s;
}
template<typename... T> static std::string ref(const char *fmt, T... a) {
    int n = snprintf(nullptr, 0, fmt, a...);
    std::string r(n + 1, 0); snprintf(&r[0], n + 1, fmt, a...); r.resize(n); return r;
}
static std::string via_v(const char *fmt, ...) { va_list ap; va_start(ap, fmt); auto r = vstringprintf(fmt, ap); va_end(ap); return r; }
static void same(const std::string &got, const std::string &exp, const char *what) {
    if (got == exp) return;
    size_t i = 0; while (i < got.size() && i < exp.size() && got[i] == exp[i]) i++;
    fail("%s: result of length %zu differs from the expected %zu characters at %zu", what, got.size(), exp.size(), i);
}
static void t_printf(Ctx &c) {
    size_t n = len_near(c); int form = c.u(8);
    std::string s = text(c, n);
    long long v = (long long)c.edge64(); double d = (double)(int64_t)c.u(1u << 30) / 7;
    c.note("form %d length %zu", form, n);
#define BOTH(...) do { std::string e = ref(__VA_ARGS__); same(stringprintf(__VA_ARGS__), e, "stringprintf"); same(via_v(__VA_ARGS__), e, "vstringprintf"); if (e.size() > 900) c.nontrivial(); \
        SalticidaeError er(std::string(FMT(__VA_ARGS__)) REST(__VA_ARGS__)); same(er.what(), e, "error text"); same(std::string(er), e, "error string"); PBT_CHECK(er.get_code() == SALTI_ERROR_GENERIC && er.get_oscode() == 0, "formatted error has code %d, os code %d", er.get_code(), er.get_oscode()); \
        SalticidaeCError ce = er.get_cerr(); PBT_CHECK(ce.code == SALTI_ERROR_GENERIC && ce.oscode == 0, "C error"); } while (0)
#define FMT(f, ...) f
#define REST(f, ...) , ##__VA_ARGS__
    switch (form) {
        case 0: BOTH("%s", s.c_str()); break;
        case 1: BOTH("<%d> %s tail", (int)v, s.c_str()); break;
        case 2: BOTH("%*d", (int)std::min<size_t>(n, 5000), (int)v); break;
        case 3: BOTH("%s%s%c%%", s.c_str(), s.c_str(), 'q'); break;
        case 4: BOTH("%lld %llx %.3f %s", v, v, d, s.c_str()); break;
        case 5: BOTH("%-*s|", (int)std::min<size_t>(n, 5000), "ab"); break;
        case 6: BOTH("%.*s", (int)(n / 2), s.c_str()); break;
        case 7: BOTH("%5u:%-6s:%08.3f:%s:%p", (unsigned)v, "k", d, s.c_str(), (void *)&c); break;
        default: BOTH("%s %s %s", "a", "", s.c_str()); break;
    }
}
static void t_split(Ctx &c) {
    static const char *AL[] = {"ab", "a,", "abc,;", " \t\r\nx", "ab\t \n"};
    const char *al = AL[c.u(4)];
    size_t n = c.size(c.chance(1, 20) ? 5000 : 60);
    std::string s = text(c, n, al), delim = text(c, 1 + c.u(2), al);
    if (c.chance(1, 8)) { std::string t; int k = c.u(5); while (k--) t += delim; s = t + s; }
    c.note("split \"%s\" by \"%s\"", hexs((const uint8_t *)s.data(), s.size()).c_str(), hexs((const uint8_t *)delim.data(), delim.size()).c_str());
    auto parts = split(s, delim);
    std::string j;
    PBT_CHECK(parts.size() >= 1, "no parts");
    for (size_t i = 0; i < parts.size(); i++) {
        if (i) j += delim;
        j += parts[i];
        PBT_CHECK(parts[i].find(delim) == std::string::npos, "a part contains the delimiter");
    }
    PBT_CHECK(j == s, "joining the parts does not give the text back");
    auto blank = [](char ch, const std::string &sp) { return sp.find(ch) != std::string::npos; };
    auto reft = [&](const std::string &x, const std::string &sp) { size_t a = 0, b = x.size(); while (a < b && blank(x[a], sp)) a++; while (b > a && blank(x[b - 1], sp)) b--; return x.substr(a, b - a); };
    PBT_CHECK(trim(s) == reft(s, "\t\r\n "), "trim");
    std::string sp = text(c, 1 + c.u(2), al);
    PBT_CHECK(trim(s, sp) == reft(s, sp), "trim with given blanks");
    auto ta = trim_all(parts);
    PBT_CHECK(ta.size() == parts.size(), "trim_all changes the number of texts");
    for (size_t i = 0; i < ta.size(); i++) PBT_CHECK(ta[i] == reft(parts[i], "\t\r\n "), "trim_all");
    if (parts.size() > 1 && n > 2) c.nontrivial();
}
static std::string slurp(const char *fn) { FILE *f = fopen(fn, "r"); std::string r; char b[8192]; size_t n; while (f && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); if (f) fclose(f); return r; }
static void t_log(Ctx &c) {
    std::string fn = "c25_log." + std::to_string(getpid());
    int fd = open(fn.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::vector<std::pair<std::string, std::string>> exp;
    static const char *PFX[] = {"net", "abc", "x", "my prefix"};
    const char *pfx = PFX[c.u(3)];
    {
        Logger lg(pfx, fd);
        for (int k = 1 + c.u(4); k--;) {
            size_t n = len_near(c); std::string s = text(c, n);
            std::string e; int m = c.u(3); int v = (int)c.edge64();
            e = ref("%s <%d>", s.c_str(), v);
            static const char *T[] = {"info", "debug", "warn", "error"};
            switch (m) { case 0: lg.info("%s <%d>", s.c_str(), v); break; case 1: lg.debug("%s <%d>", s.c_str(), v); break; case 2: lg.warning("%s <%d>", s.c_str(), v); break; default: lg.error("%s <%d>", s.c_str(), v); }
            exp.push_back({T[m], e});
            if (n > 900) c.nontrivial();
        }
    }
    PBT_CHECK(fcntl(fd, F_GETFD) != -1, "the logger closed a descriptor it was only lent");
    close(fd);
    std::string out = slurp(fn.c_str());
    unlink(fn.c_str());
    size_t pos = 0;
    for (auto &p: exp) {
        size_t e = out.find('\n', pos);
        PBT_CHECK(e != std::string::npos, "log line missing");
        std::string line = out.substr(pos, e - pos); pos = e + 1;
        std::string tag = std::string(" [") + pfx + " " + p.first + "] ";
        size_t t = line.find(tag);
        PBT_CHECK(t != std::string::npos, "log line without %s: %.80s", tag.c_str(), line.c_str());
        int Y, M, D, h, mi, s; unsigned us; int cons = 0;
        std::string dt = line.substr(0, t);
        PBT_CHECK(sscanf(dt.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%6u%n", &Y, &M, &D, &h, &mi, &s, &us, &cons) == 7 && cons == (int)dt.size() && dt.size() == 26, "log line without a date: %.60s", line.c_str());
        same(line.substr(t + tag.size()), p.second, "log message");
    }
    PBT_CHECK(pos == out.size(), "extra log output");
}
static void t_errors(Ctx &c) {
    static const char *KEY[] = {"", "generic", "accept", "listen", "connect", "already exist", "not exist", "not ready", "not match", "client", "netaddr", "optval", "already exist", "unknown action", "too long", "option", "load cert", "load key", "tls", "x509", "key", "not match", "peer cert", "fd", "libuv init", "libuv start", "rand", "connection", "not available", "unknown", "oversized"};
    const int N = SALTI_ERROR_CONN_OVERSIZED_MSG + 1;
    int code = c.u(N + 3) - 2;
    int oscode = c.coin() ? 0 : 1 + c.u(130);
    c.note("code %d os %d", code, oscode);
    std::string t = salticidae_strerror(code);
    if (code < 0 || code >= N) { PBT_CHECK(t == "invalid", "error code %d outside the range has text %s", code, t.c_str()); return; }
    c.nontrivial();
    if (code) PBT_CHECK(!t.empty(), "error %d has no text", code);
    for (int k = 0; k < N; k++) if (k != code) PBT_CHECK(t != salticidae_strerror(k), "errors %d and %d have the same text", k, code);
    std::string l; for (char ch: t) l += tolower(ch);
    PBT_CHECK(l.find(KEY[code]) != std::string::npos, "error %d is described as \"%s\"", code, t.c_str());
    SalticidaeError e(code, oscode); ConnPoolError e2(code, oscode);
    std::string exp = oscode ? t + ": " + strerror(oscode) : t;
    PBT_CHECK(exp == e.what() && exp == std::string(e) && exp == e2.what(), "text \"%s\"", e.what());
    PBT_CHECK(e.get_code() == code && e.get_oscode() == oscode && e2.get_cerr().code == code && e2.get_cerr().oscode == oscode, "codes are not kept");
    SalticidaeError z; PBT_CHECK(z.get_code() == SALTI_NORMAL && z.get_oscode() == 0, "default error is not 'normal': os code %d", z.get_oscode());
    PBT_CHECK(salticidae_cerror_normal().code == 0 && salticidae_cerror_normal().oscode == 0 && salticidae_cerror_unknown().code == SALTI_ERROR_UNKNOWN && salticidae_cerror_unknown().oscode == 0, "C error constants");
}
static void t_delay(Ctx &c) {
    srand(c.u(1000000));
    double b = c.u(1000000) / 1000.0, al = c.u(200) / 100.0;
    double lo = 1e300, hi = -1e300;
    for (int k = 0; k < 40; k++) {
        bool def = k & 1;
        double r = def ? gen_rand_timeout(b) : gen_rand_timeout(b, al);
        double m = b * (1 + (def ? 0.5 : al));
        PBT_CHECK(r >= b && r <= m * (1 + 1e-12), "delay %g outside [%g, %g]", r, b, m);
        if (def) { lo = std::min(lo, r); hi = std::max(hi, r); }
    }
    if (b > 0) PBT_CHECK(hi - lo > b * 0.02, "delays are not spread: [%g, %g] for base %g", lo, hi, b);
    double t = c.u(1u << 30) / (double)(1 << c.u(20));
    struct timeval tv; sec2tv(t, tv);
    PBT_CHECK(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "microseconds %ld", (long)tv.tv_usec);
    double back = tv.tv_sec + tv.tv_usec * 1e-6;
    PBT_CHECK(back <= t + 1e-9 && t - back < 2e-6, "%.9f becomes %.9f", t, back);
    c.note("base %g alpha %g, %.6f s", b, al, t);
    c.nontrivial();
}
int main(int argc, char **argv) { return main_(argc, argv, {{"printf", t_printf, 4}, {"split", t_split, 4}, {"log", t_log, 2}, {"errors", t_errors, 1}, {"delay", t_delay, 1}}, Opts()); }
