// C24: option declarations, configuration files and argument vectors against a model.
#include "salticidae/util.h"
#include "common.h"
#include <unistd.h>
using namespace salticidae;
using namespace pbt;
enum { FLAG, STR, INT, DBL, VEC };
struct O {
    int type; std::string name; int sh; // short name or -1
    bool b = false; std::string s; int i = 0; double d = 0; std::vector<std::string> v;
    RcObj<Config::OptValFlag> rf; RcObj<Config::OptValStr> rs; RcObj<Config::OptValInt> ri; RcObj<Config::OptValDouble> rd; RcObj<Config::OptValStrVec> rv;
};
static std::string rtrim(const std::string &x) { const std::string sp = "\t\r\n "; size_t a = 0, b = x.size(); while (a < b && sp.find(x[a]) != std::string::npos) a++; while (b > a && sp.find(x[b - 1]) != std::string::npos) b--; return x.substr(a, b - a); }
static std::string text(Ctx &c, size_t n) { static const char *al = "abcxyz019 =-#/.:\t"; std::string s(n, 'x'); for (auto &ch: s) ch = al[c.u(16)]; return s; }
// value text for an option; valid tells whether it must be accepted
static std::string value(Ctx &c, const O &o, bool &valid, bool file) {
    valid = true;
    switch (o.type) {
        case INT: {
            if (c.chance(1, 12)) { valid = false; static const char *B[] = {"", "abc", "12abc", "99999999999", "-99999999999", "1.5", "-", "0x", "1 2", "2147483648", "4294967297"}; return B[c.u(10)]; }
            int v = c.coin() ? (int)c.u(100) - 50 : (int)(uint32_t)c.u(UINT32_MAX);
            if (c.chance(1, 10)) v = c.coin() ? INT32_MAX : INT32_MIN;
            return std::to_string(v); }
        case DBL: {
            if (c.chance(1, 12)) { valid = false; static const char *B[] = {"", "abc", "1.5x", "1e999", "-1e999", "--1", ".", "e5", "1,5", "1.5.2"}; return B[c.u(9)]; }
            char b[64]; static const char *F[] = {"%g", "%.3f", "%e", "%.17g"};
            snprintf(b, sizeof b, F[c.u(3)], ((double)(int64_t)c.u(2000000) - 1000000) / (double)(1 + c.u(999)));
            return b; }
        case FLAG: return file ? text(c, c.u(4)) : "";
        default: { std::string t = text(c, c.size(c.chance(1, 30) ? 3000 : 24)); return t; }
    }
}
static void apply(O &o, const std::string &v) {
    switch (o.type) { case FLAG: o.b = true; break; case STR: o.s = v; break; case INT: o.i = atoi(v.c_str()); break; case DBL: o.d = strtod(v.c_str(), nullptr); break; default: o.v.push_back(v); }
}
static void t_config(Ctx &c) {
    std::vector<O> os;
    int no = 1 + c.u(6);
    std::string fn = "c24_" + std::to_string(getpid()) + ".conf", fn2 = fn + ".2";
    unlink(fn.c_str()); unlink(fn2.c_str());
    bool withconf = c.chance(2, 3);
    std::string shused = withconf ? "c" : "";
    std::vector<std::string> used; if (withconf) { used.push_back("conf"); used.push_back("c"); }
    Config *cfg = withconf ? new Config(fn) : new Config();
    static const char *TN[] = {"flag", "str", "int", "double", "list"};
    for (int k = 0; k < no; k++) {
        O o; o.type = c.u(4); o.sh = -1;
        static const char *al = "abdefg-hijk";
        for (int t = 0; t < 20; t++) {
            size_t n = 2 + c.u(6); o.name.clear(); o.name += "abdefg"[c.u(5)];
            for (size_t i = 1; i < n; i++) o.name += al[c.u(10)];
            bool dup = false; for (auto &u: used) dup |= u == o.name;
            if (!dup) break;
            o.name.clear();
        }
        if (o.name.empty()) o.name = "opt-" + std::to_string(k);
        if (c.coin()) { char s = "abdefghijklmnopqrstuvwxyzABCDEFG0123456789"[c.u(41)]; if (shused.find(s) == std::string::npos) { o.sh = s; shused += s; } }
        if (c.chance(1, 12)) { // a one-letter long name
            std::string n1(1, "stuvw"[c.u(4)]);
            bool dup = shused.find(n1) != std::string::npos; for (auto &u: used) dup |= u == n1;
            if (!dup && o.sh != n1[0]) { o.name = n1; shused += n1; }
        }
        o.b = false; o.s = text(c, c.u(3)); o.i = (int)c.u(1000); o.d = c.u(1000) / 8.0;
        if (o.type == VEC && c.chance(1, 4)) o.v.push_back("initial");
        o.rf = nullptr;
        RcObj<Config::OptVal> ov;
        Config::Action act = Config::SET_VAL;
        switch (o.type) {
            case FLAG: o.rf = c.coin() ? Config::OptValFlag::create() : Config::OptValFlag::create(false); ov = o.rf; act = Config::SWITCH_ON; break;
            case STR: o.rs = Config::OptValStr::create(o.s); ov = o.rs; break;
            case INT: o.ri = Config::OptValInt::create(o.i); ov = o.ri; break;
            case DBL: o.rd = Config::OptValDouble::create(o.d); ov = o.rd; break;
            default: o.rv = Config::OptValStrVec::create(o.v); ov = o.rv; act = Config::APPEND; break;
        }
        cfg->add_opt(o.name, ov, act, o.sh == -1 ? -1 : (char)o.sh, "doc of " + o.name);
        used.push_back(o.name); if (o.sh != -1) used.push_back(std::string(1, (char)o.sh));
        os.push_back(o);
        c.note("--%s -%c %s", o.name.c_str(), o.sh == -1 ? '.' : o.sh, TN[o.type]);
    }
    auto check = [&](const char *when) {
        for (auto &o: os) {
            bool ok = true; std::string g;
            switch (o.type) {
                case FLAG: ok = o.rf->get() == o.b; g = o.rf->get() ? "true" : "false"; break;
                case STR: ok = o.rs->get() == o.s; g = o.rs->get(); break;
                case INT: ok = o.ri->get() == o.i; g = std::to_string(o.ri->get()); break;
                case DBL: ok = o.rd->get() == o.d; g = std::to_string(o.rd->get()); break;
                default: ok = o.rv->get() == o.v; g = std::to_string(o.rv->get().size()) + " values"; break;
            }
            PBT_CHECK(ok, "%s: option %s (%s) is \"%s\"", when, o.name.c_str(), TN[o.type], g.c_str());
        }
    };
    check("initially");
    // duplicate declarations
    if (c.chance(1, 3)) {
        std::string dup = used[c.u(used.size() - 1)];
        bool threw = false;
        auto z = Config::OptValStr::create("z");
        try {
            if (dup.size() == 1 && c.coin()) cfg->add_opt("fresh-name", z, Config::SET_VAL, dup[0]);
            else cfg->add_opt(dup, z, Config::SET_VAL);
        } catch (SalticidaeError &e) { threw = true; PBT_CHECK(e.get_code() == SALTI_ERROR_OPTNAME_ALREADY_EXISTS, "duplicate declaration reports %d", e.get_code()); }
        PBT_CHECK(threw, "a second option named %s is accepted", dup.c_str());
        c.label("duplicate");
    }
    bool errf = false;   // an error is expected while loading
    unsigned given = 0, ignored = 0;
    std::function<std::string(int)> gen_file = [&](int depth) {
        std::string f; int nl = c.u(8);
        for (int k = 0; k < nl && !errf; k++) {
            switch (c.u(9)) {
                case 0: f += "# comment without assignment\n"; ignored++; break;
                case 1: f += "\n"; break;
                case 2: f += "zz-unknown = " + text(c, c.u(6)) + "\n"; ignored++; break;
                case 3: if (depth == 0 && withconf && c.coin()) {
                    std::string sub = gen_file(1);
                    FILE *o = fopen(fn2.c_str(), "w"); fwrite(sub.data(), 1, sub.size(), o); fclose(o);
                    f += "conf = " + fn2 + "\n";
                    depth = 1;   // one nested file
                    c.label("nested-file");
                    break;
                } // fall through
                default: {
                    O &o = os[c.u(os.size() - 1)]; bool valid;
                    std::string v = value(c, o, valid, true);
                    std::string nm = o.sh != -1 && c.chance(1, 4) ? std::string(1, (char)o.sh) : o.name;
                    static const char *SP[] = {"", " ", "\t", "  "};
                    f += SP[c.u(3)] + nm + SP[c.u(3)] + "=" + SP[c.u(3)] + v + SP[c.u(3)];
                    if (c.chance(1, 6)) f += "\r";
                    if (k != nl - 1 || depth || c.coin()) f += "\n";
                    std::string tv = rtrim(v);
                    if (!valid) { errf = true; break; }
                    apply(o, tv); given++;
                }
            }
        }
        return f;
    };
    bool havefile = c.chance(2, 3);
    if (havefile) {
        std::string f = gen_file(0);
        FILE *o = fopen(fn.c_str(), "w"); fwrite(f.data(), 1, f.size(), o); fclose(o);
        c.note("file {%s}", jesc(f).c_str());
    }
    int fexp = errf;
    auto finish = [&]() { unlink(fn.c_str()); unlink(fn2.c_str()); delete cfg; };
    if (!withconf || errf) {
        bool threw = false, res = false;
        try { res = cfg->load(fn); } catch (SalticidaeError &e) { threw = true; PBT_CHECK(e.get_code() == SALTI_ERROR_OPTVAL_INVALID, "malformed number reports %d", e.get_code()); }
        PBT_CHECK(threw == (bool)fexp, fexp ? "a malformed number in the file is accepted" : "loading the file fails");
        if (!threw) PBT_CHECK(res == havefile, "load reports %d for a file that %s", res, havefile ? "exists" : "does not exist");
        check("after loading the file");
        if (threw) { c.label("bad-number-in-file"); c.nontrivial(); finish(); return; }
    }
    // command line
    std::vector<std::string> args{"prog"}, pos;
    int na = c.u(8), bad = 0;
    for (int k = 0; k < na && !bad; k++) {
        unsigned m = c.u(11);
        if (m == 0) { std::string p = "pos" + std::to_string(k); args.push_back(p); pos.push_back(p); continue; }
        if (m == 1 && c.coin()) { // unknown option or flag with a value or missing argument
            switch (c.u(3)) {
                case 0: args.push_back("--zz-unknown"); break;
                case 1: args.push_back("-Z"); break;
                case 2: { O *f = nullptr; for (auto &o: os) if (o.type == FLAG) f = &o; args.push_back(f ? "--" + f->name + "=1" : "--zz=3"); break; }
                default: { O *f = nullptr; for (auto &o: os) if (o.type != FLAG) f = &o; if (f) { args.push_back("--" + f->name); } else args.push_back("-Z"); break; }   // last: argument missing
            }
            bad = 1; break;
        }
        if (m == 2) { // bundle of short flags, possibly ending in an option with a value
            std::string b = "-"; std::string val; bool hasv = false;
            std::vector<O *> ap;
            for (int t = c.u(3); t >= 0; t--) { O &o = os[c.u(os.size() - 1)]; if (o.sh == -1) continue; if (o.type == FLAG) { b += (char)o.sh; ap.push_back(&o); } else if (o.type == STR && !hasv && t == 0) { b += (char)o.sh; val = "v" + text(c, c.u(5)); b += val; hasv = true; ap.push_back(&o); } }
            if (b == "-") continue;
            args.push_back(b);
            for (auto o: ap) { apply(*o, val); given++; }
            c.label("bundle");
            continue;
        }
        O &o = os[c.u(os.size() - 1)]; bool valid;
        std::string v = value(c, o, valid, false);
        if (o.type == FLAG) { if (o.sh != -1 && c.coin()) args.push_back(std::string("-") + (char)o.sh); else args.push_back("--" + o.name); }
        else if (o.sh != -1 && c.coin()) {
            if (c.coin() || v.empty()) { args.push_back(std::string("-") + (char)o.sh); args.push_back(v); } else args.push_back(std::string("-") + (char)o.sh + v);
        } else if (c.coin()) args.push_back("--" + o.name + "=" + v);
        else { args.push_back("--" + o.name); args.push_back(v); }
        if (!valid) { bad = 2; break; }
        apply(o, v); given++;
    }
    if (bad != 1) {
        if (c.chance(1, 4)) { args.push_back("--"); int n = c.u(2); for (int k = 0; k < n; k++) { std::string p = c.coin() ? "-x" : "--" + os[0].name; args.push_back(p); pos.push_back(p); } }
        else if (bad == 0) while (c.chance(1, 3)) { args.push_back("tail"); pos.push_back("tail"); }
    }
    std::vector<char *> av; for (auto &a: args) { av.push_back(&a[0]); c.note("arg %s", jesc(a).c_str()); }
    av.push_back(nullptr);
    optind = 0; opterr = 0;
    bool threw = false; int code = -1; size_t r = 0;
    try { r = cfg->parse((int)args.size(), av.data()); } catch (SalticidaeError &e) { threw = true; code = e.get_code(); }
    PBT_CHECK(threw == (bool)bad, bad == 1 ? "an invalid command line is accepted" : bad ? "a malformed number on the command line is accepted" : "a valid command line is refused (%d)", code);
    if (bad) PBT_CHECK(code == (bad == 1 ? SALTI_ERROR_OPT_INVALID : SALTI_ERROR_OPTVAL_INVALID), "invalid command line reports %d", code);
    check(bad ? "after the refused command line" : "after the command line");
    if (!bad) {
        PBT_CHECK(r + pos.size() == args.size(), "first positional argument at %zu of %zu, expected %zu positional ones", r, args.size(), pos.size());
        for (size_t k = 0; k < pos.size(); k++) PBT_CHECK(pos[k] == av[r + k], "positional argument %zu is %s instead of %s", k, av[r + k], pos[k].c_str());
    }
    if (c.chance(1, 16)) {
        char *buf = nullptr; size_t bl = 0; FILE *m = open_memstream(&buf, &bl);
        cfg->print_help(m); fclose(m);
        std::string h(buf, bl); free(buf);
        for (auto &o: os) PBT_CHECK(h.find("--" + o.name) != std::string::npos && h.find("doc of " + o.name) != std::string::npos && (o.sh == -1 || h.find(std::string("-") + (char)o.sh) != std::string::npos), "help does not mention %s", o.name.c_str());
    }
    if (given >= 2 && os.size() >= 2) c.nontrivial();
    if (bad) c.label("bad-command-line");
    finish();
}
// lines around the length limit; actions that do not fit the value type
static void t_limits(Ctx &c) {
    std::string fn = "c24l_" + std::to_string(getpid()) + ".conf";
    if (c.coin()) {
        long n = 65535 + (long)c.u(20) - 12;    // length of the line without its end
        bool nl = c.coin();
        if (c.chance(1, 6)) n = 70000 + c.u(100000);
        auto v = Config::OptValStr::create("old"), w = Config::OptValStr::create("w0");
        Config cfg; cfg.add_opt("key", v, Config::SET_VAL); cfg.add_opt("other", w, Config::SET_VAL);
        std::string line = "key=" + std::string(n - 4, 'x');
        if (c.coin()) for (size_t i = 4; i + 10 < line.size(); i += 1 + c.u(8000)) line.replace(i, 6, "other=");
        FILE *o = fopen(fn.c_str(), "w"); fprintf(o, "other = before\n%s%s", line.c_str(), nl ? "\nother=after\n" : ""); fclose(o);
        bool threw = false; int code = 0;
        try { cfg.load(fn); } catch (SalticidaeError &e) { threw = true; code = e.get_code(); }
        unlink(fn.c_str());
        c.note("line of %ld characters", n);
        if (n + nl <= 65534) { PBT_CHECK(!threw, "a line of %ld characters is refused", n); PBT_CHECK(v->get() == line.substr(4) && w->get() == (nl ? "after" : "before"), "long line changed"); }
        else if (n >= 65535) PBT_CHECK(threw && code == SALTI_ERROR_CONFIG_LINE_TOO_LONG, "an over-long line of %ld characters is not reported (%d)", n, code);
        if (threw) PBT_CHECK(v->get() == "old" && w->get() == "before", "an over-long line changed an option");
        c.nontrivial();
    } else {
        // value types refuse actions they do not support
        RcObj<Config::OptVal> ov; std::string val = "3"; int type = c.u(4); int act = c.u(2);
        switch (type) { case 0: ov = Config::OptValFlag::create(false); break; case 1: ov = Config::OptValStr::create("s"); break; case 2: ov = Config::OptValInt::create(1); break; case 3: ov = Config::OptValDouble::create(1.0); break; default: ov = Config::OptValStrVec::create(); }
        bool fits = (type == 0 && act == 0) || (type >= 1 && type <= 3 && act == 1) || (type == 4 && act == 2);
        Config cfg; static const Config::Action AC[] = {Config::SWITCH_ON, Config::SET_VAL, Config::APPEND};
        cfg.add_opt("opt", ov, AC[act], 'o');
        std::vector<std::string> args{"p", act == 0 ? "--opt" : "--opt=3"};
        std::vector<char *> av; for (auto &a: args) av.push_back(&a[0]); av.push_back(nullptr);
        optind = 0; opterr = 0; bool threw = false;
        try { cfg.parse(2, av.data()); } catch (SalticidaeError &) { threw = true; }
        PBT_CHECK(threw == !fits, "type %d with action %d: %s", type, act, threw ? "refused" : "accepted");
        c.note("type %d action %d", type, act);
        c.nontrivial();
    }
}
int main(int argc, char **argv) { return main_(argc, argv, {{"config", t_config, 12}, {"limits", t_limits, 1}}, Opts()); }
