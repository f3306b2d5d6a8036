// A small choice-sequence property-based testing engine (Hypothesis style).
//
// A test is a function of a recorded sequence of bounded integer choices.  The
// choices come from a PRNG seeded by (VERIF_SEED, worker, case) while searching
// and from a file while replaying; shrinking edits the recorded sequence.  Every
// case runs in a forked child (in batches), so crashes, failed assertions,
// sanitizer reports and hangs are observed from outside and attributed to the
// case that caused them; choices, labels and samples live in shared memory.
#ifndef PBT_H
#define PBT_H
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

// <sys/mman.h> declares a pkey_free() that clashes with the library's C binding
extern "C" void *mmap(void *, size_t, int, int, int, off_t) noexcept;

namespace pbt {

using std::string;
using std::vector;

static const size_t MAXC = 1 << 19;
static const size_t MAXLABEL = 192;
static const size_t MAXHASH = 1 << 16;
static const size_t NSAMPLE = 6;

enum Kind { SAFETY = 0, LIVENESS = 1, CRASH = 2, HANG = 3 };

struct Shared {
    std::atomic<uint64_t> beat;
    std::atomic<uint64_t> cur_case;
    std::atomic<uint64_t> nchoices;
    std::atomic<int> failed;
    int kind;
    char msg[8192];
    char note[8192];
    uint64_t evals, nontriv, discards;
    char lname[MAXLABEL][56];
    uint64_t lcount[MAXLABEL];
    int nlabel;
    uint64_t hashes[MAXHASH];
    uint64_t nhash;
    char samples[NSAMPLE][2048];
    int nsample;
    uint64_t choices[MAXC];
};

static Shared *S = nullptr;
static bool g_replaying = false;      // verbose notes
static double g_patience = 1.0;       // multiplier for liveness time-outs

static inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static inline double now() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed): s(seed) {}
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

[[noreturn]] static inline void fail_exit(int kind, const char *fmt, va_list ap) {
    static std::atomic_flag once = ATOMIC_FLAG_INIT;
    if (!once.test_and_set()) {
        vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
        S->kind = kind;
        S->failed.store(1);
        _exit(77);
    }
    for (;;) pause();
}

[[noreturn]] __attribute__((format(printf, 1, 2)))
static inline void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fail_exit(SAFETY, fmt, ap);
}
[[noreturn]] __attribute__((format(printf, 1, 2)))
static inline void fail_live(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fail_exit(LIVENESS, fmt, ap);
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

struct Ctx {
    bool replay;
    vector<uint64_t> src;
    Prng rng;
    uint64_t n;       // choices so far
    bool nt;
    string notes;
    bool discarded;

    Ctx(uint64_t seed): replay(false), rng(seed), n(0), nt(false), discarded(false) {}
    Ctx(const vector<uint64_t> &c): replay(true), src(c), rng(0), n(0), nt(false), discarded(false) {}

    // uniform in [0, max]
    uint64_t u(uint64_t max) {
        uint64_t v;
        if (replay) {
            v = n < src.size() ? src[n] : 0;
            if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1);
        } else v = max == UINT64_MAX ? rng.next() : rng.below(max + 1);
        if (n < MAXC) S->choices[n] = v;
        n++;
        S->nchoices.store(n < MAXC ? n : MAXC, std::memory_order_relaxed);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)u((uint64_t)(hi - lo)); }
    // true with probability num/den; recorded as 0/1, shrinks to false
    bool chance(unsigned num, unsigned den) {
        bool v;
        if (replay) v = n < src.size() && (src[n] & 1);
        else v = rng.below(den) >= den - num;
        if (n < MAXC) S->choices[n] = v;
        n++;
        S->nchoices.store(n < MAXC ? n : MAXC, std::memory_order_relaxed);
        return v;
    }
    bool coin() { return u(1); }
    // small-biased size in [0, max]
    size_t size(size_t max) {
        if (!max) return 0;
        unsigned k = u(3);
        size_t m = k == 0 ? std::min<size_t>(max, 4) : k == 1 ? std::min<size_t>(max, 32)
                 : k == 2 ? std::min<size_t>(max, 256) : max;
        return u(m);
    }
    // 64-bit value biased to the edges
    uint64_t edge64() {
        switch (u(5)) {
            case 0: return u(3);
            case 1: return u(255);
            case 2: return (uint64_t)1 << u(63);
            case 3: return ((uint64_t)1 << u(63)) - 1;
            case 4: return ~(uint64_t)u(3);
            default: return u(UINT64_MAX);
        }
    }
    template<typename T> const T &pick(const vector<T> &v) { return v[u(v.size() - 1)]; }
    // content of n bytes from one or two choices
    vector<uint8_t> bytes(size_t len) {
        vector<uint8_t> r(len);
        unsigned m = u(5);
        if (m == 0) { uint8_t b = u(255); for (auto &x: r) x = b; }
        else if (m == 1) { for (size_t i = 0; i < len; i++) r[i] = (uint8_t)i; }
        else if (m == 2) {   // sparse
            for (unsigned k = u(3); k-- && len;) { size_t i = u(len - 1); r[i] = u(255); }
        } else { Prng p(u(UINT64_MAX)); for (auto &x: r) x = (uint8_t)p.next(); }
        return r;
    }
    void label(const char *l, uint64_t by = 1) {
        for (int i = 0; i < S->nlabel; i++)
            if (!strcmp(S->lname[i], l)) { S->lcount[i] += by; return; }
        if (S->nlabel < (int)MAXLABEL) {
            snprintf(S->lname[S->nlabel], sizeof(S->lname[0]), "%s", l);
            S->lcount[S->nlabel++] = by;
        }
    }
    void nontrivial() { nt = true; }
    void discard() { discarded = true; }
    __attribute__((format(printf, 2, 3))) void note(const char *fmt, ...) {
        if (notes.size() > 6000) return;
        char buf[2048];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        notes += buf; notes += "; ";
        snprintf(S->note, sizeof(S->note), "%s", notes.c_str());
    }
    // to be called by long cases so that the watchdog sees progress
    void beat() { S->beat++; }
};

struct Test {
    const char *name;
    std::function<void(Ctx &)> fn;
    unsigned weight;    // 0: run once per worker at the start (regressions)
};

struct Opts {
    unsigned batch = 64;          // cases per forked child
    double hang = 20;             // seconds without progress = hang
    bool hang_is_violation = true;
    bool deterministic = true;    // failures must reproduce
    unsigned shrink_attempts = 600;
    double shrink_time = 25;
    size_t rlimit_as = 0;
};

static string g_dir = ".";
static string g_err;

struct Outcome { bool failed; int kind; string msg; };

static string tail_file(const string &fn, size_t max = 2500) {
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) return "";
    string r; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) { r.append(b, n); }
    fclose(f);
    // prefer the sanitizer report / assertion text
    size_t p = r.find("==ERROR"); size_t q = r.find("runtime error:"); size_t a = r.rfind("Assertion");
    size_t st = string::npos;
    if (p != string::npos) st = p; else if (q != string::npos) st = q > 200 ? q - 200 : 0;
    else if (a != string::npos) st = a > 200 ? a - 200 : 0;
    if (st != string::npos) return r.substr(st, max);
    return r.size() > max ? r.substr(r.size() - max) : r;
}

// run fn in a forked child; returns wait outcome
static Outcome run_child(const std::function<void()> &fn, double hang) {
    S->failed.store(0);
    S->msg[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        int fd = open(g_err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        if (getenv("PBT_NOREDIR")) close(fd);
        else if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        fn();
        _exit(0);
    }
    setpgid(pid, pid);
    uint64_t last = S->beat.load();
    double t = now();
    int st = 0;
    bool hung = false;
    unsigned slp = 50;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        uint64_t b = S->beat.load();
        double n = now();
        if (b != last) { last = b; t = n; }
        else if (n - t > hang) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(slp);
        if (slp < 2000) slp += 50;
    }
    kill(-pid, SIGKILL);    // stray grandchildren of the case
    Outcome o{false, 0, ""};
    if (hung) { o.failed = true; o.kind = HANG; o.msg = "no progress (hang)"; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && S->failed.load()) { o.kind = S->kind; o.msg = S->msg; return o; }
    o.kind = CRASH;
    char b[128];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process died with signal %d: ", WTERMSIG(st));
    else snprintf(b, sizeof b, "process exited with status %d: ", WEXITSTATUS(st));
    o.msg = b + tail_file(g_err);
    return o;
}

static string jesc(const string &s) {
    string r;
    for (unsigned char ch: s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}

static void write_replay(const string &fn, const char *test, const vector<uint64_t> &c, const Outcome &o, const string &note) {
    FILE *f = fopen(fn.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"test\": \"%s\", \"kind\": %d, \"message\": \"%s\",\n \"note\": \"%s\",\n \"choices\": [", test, o.kind, jesc(o.msg).c_str(), jesc(note).c_str());
    for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c[i]);
    fprintf(f, "]}\n");
    fclose(f);
}

static bool read_replay(const string &fn, string &test, vector<uint64_t> &c) {
    FILE *f = fopen(fn.c_str(), "r");
    if (!f) return false;
    string r; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    size_t p = r.find("\"test\": \"");
    if (p == string::npos) return false;
    p += 9;
    test = r.substr(p, r.find('"', p) - p);
    p = r.find("\"choices\": [");
    if (p == string::npos) return false;
    p += 12;
    const char *q = r.c_str() + p;
    while (*q && *q != ']') {
        char *e; unsigned long long v = strtoull(q, &e, 10);
        if (e == q) break;
        c.push_back(v); q = e;
        while (*q == ',' || *q == ' ' || *q == '\n') q++;
    }
    return true;
}

static vector<uint64_t> recorded() {
    size_t n = S->nchoices.load();
    return vector<uint64_t>(S->choices, S->choices + n);
}

static Outcome try_choices(const Test &t, const vector<uint64_t> &c, double hang) {
    return run_child([&]() {
        Ctx ctx(c);
        S->nchoices.store(0); S->note[0] = 0;
        t.fn(ctx);
    }, hang);
}

static vector<uint64_t> shrink(const Test &t, vector<uint64_t> cur, Outcome &o, const Opts &opt, double hang) {
    double t0 = now();
    unsigned att = 0;
    auto ok = [&]() { return att < opt.shrink_attempts && now() - t0 < opt.shrink_time; };
    auto attempt = [&](const vector<uint64_t> &c) {
        att++;
        Outcome r = try_choices(t, c, hang);
        if (r.failed && r.kind == o.kind) {
            auto rec = recorded();
            if (rec.size() < cur.size() || (rec.size() == cur.size() && rec < cur)) { cur = rec; o = r; return true; }
        }
        return false;
    };
    attempt(cur);
    bool improved = true;
    while (improved && ok()) {
        improved = false;
        // delete chunks
        for (size_t k = std::max<size_t>(cur.size() / 2, 1); k >= 1 && ok(); k /= 2) {
            for (size_t i = 0; i < cur.size() && ok();) {
                vector<uint64_t> c = cur;
                c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + k));
                if (attempt(c)) improved = true; else i += k;
            }
            if (k == 1) break;
        }
        // zero chunks, then minimise single values
        for (size_t k = std::max<size_t>(cur.size() / 4, 1); k >= 1 && ok(); k /= 2) {
            for (size_t i = 0; i < cur.size() && ok(); i += k) {
                vector<uint64_t> c = cur;
                bool ch = false;
                for (size_t j = i; j < std::min(c.size(), i + k); j++) if (c[j]) { c[j] = 0; ch = true; }
                if (ch && attempt(c)) improved = true;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < cur.size() && ok(); i++) {
            while (cur[i] > 0 && ok()) {
                vector<uint64_t> c = cur; c[i] /= 2;
                if (!attempt(c)) {
                    c = cur; c[i] -= 1;
                    if (!attempt(c)) break;
                }
                improved = true;
                if (i >= cur.size()) break;
            }
        }
    }
    return cur;
}

// result file: one JSON object per worker, merged by check.py
static int main_(int argc, char **argv, vector<Test> tests, Opts opt) {
    uint64_t seed = 1, cases = 1000, worker = 0, repeat = 1;
    double tlimit = 1e9;
    string out, replay, only;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--worker") worker = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--dir") g_dir = nx();
        else if (a == "--out") out = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--repeat") repeat = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--patience") g_patience = atof(nx().c_str());
        else if (a == "--only") only = nx();
        else if (a == "--list") { for (auto &t: tests) printf("%s %u\n", t.name, t.weight); return 0; }
    }
    signal(SIGPIPE, SIG_IGN);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    S = (Shared *)mmap(nullptr, sizeof(Shared), 1 | 2, 0x01 | 0x20, -1, 0);
    if (S == (void *)-1) { perror("mmap"); return 2; }
    g_err = g_dir + "/stderr." + std::to_string(worker) + "." + std::to_string((long)getpid());
    if (!replay.empty()) {
        string tn; vector<uint64_t> c;
        if (!read_replay(replay, tn, c)) { fprintf(stderr, "bad replay file\n"); return 2; }
        g_replaying = true;
        for (auto &t: tests) if (tn == t.name) {
            unsigned nf = 0;
            for (uint64_t i = 0; i < repeat; i++) {
                Outcome o = try_choices(t, c, opt.hang * g_patience * 2);
                if (o.failed) { nf++; printf("FAILED kind=%d %s\nnote: %s\n", o.kind, o.msg.c_str(), S->note); }
                else printf("ok\n");
            }
            printf("REPLAY failures=%u of %llu\n", nf, (unsigned long long)repeat);
            unlink(g_err.c_str());
            return nf ? 1 : 0;
        }
        fprintf(stderr, "unknown test %s\n", tn.c_str());
        return 2;
    }
    // schedule of tests: weights expanded
    vector<size_t> sched, once;
    for (size_t i = 0; i < tests.size(); i++) {
        if (!only.empty() && only != tests[i].name) continue;
        if (!tests[i].weight) once.push_back(i);
        for (unsigned k = 0; k < tests[i].weight; k++) sched.push_back(i);
    }
    // interleave
    { Prng p(12345); for (size_t i = sched.size(); i > 1; i--) std::swap(sched[i - 1], sched[p.below(i)]); }
    std::unordered_set<uint64_t> distinct;
    double t0 = now();
    uint64_t next = 0, total = once.size() + (sched.empty() ? 0 : cases);
    bool failed = false; Outcome fo; size_t ftest = 0; uint64_t fcase = 0; string fnote, rfile;
    uint64_t inconclusive = 0;
    auto test_of = [&](uint64_t i) -> size_t { return i < once.size() ? once[i] : sched[(i - once.size()) % sched.size()]; };
    while (next < total && now() - t0 < tlimit) {
        uint64_t b = next, e = std::min<uint64_t>(total, next + opt.batch);
        S->nhash = 0;
        S->cur_case.store(b);
        Outcome o = run_child([&]() {
            for (uint64_t i = b; i < e; i++) {
                S->cur_case.store(i);
                S->beat++;
                S->nchoices.store(0); S->note[0] = 0;
                uint64_t sd = seed * 0x9e3779b97f4a7c15ULL + worker * 0xbf58476d1ce4e5b9ULL + i;
                splitmix(sd);
                Ctx ctx(splitmix(sd));
                const Test &t = tests[test_of(i)];
                t.fn(ctx);
                S->evals++;
                if (ctx.discarded) S->discards++;
                else if (ctx.nt) {
                    S->nontriv++;
                    uint64_t h = 1469598103934665603ULL ^ test_of(i);
                    size_t nc = std::min<size_t>(ctx.n, MAXC);
                    for (size_t k = 0; k < nc; k++) { h ^= S->choices[k]; h *= 1099511628211ULL; h ^= h >> 29; }
                    if (S->nhash < MAXHASH) S->hashes[S->nhash++] = h;
                    if (S->nsample < (int)NSAMPLE && (S->nontriv % 7 == 1 || S->nsample < 2)) {
                        snprintf(S->samples[S->nsample], sizeof(S->samples[0]), "[%s] %s", t.name, ctx.notes.c_str());
                        S->nsample++;
                    }
                }
                string l = string("test:") + t.name;
                ctx.label(l.c_str());
                if (now() - t0 > tlimit) break;
            }
        }, opt.hang);
        for (uint64_t k = 0; k < S->nhash; k++) distinct.insert(S->hashes[k]);
        if (o.failed) {
            uint64_t ci = S->cur_case.load();
            size_t ti = test_of(ci);
            vector<uint64_t> c = recorded();
            string note = S->note;
            // confirm
            bool believed = false;
            unsigned rep = 0, tries = 0;
            bool live = o.kind == LIVENESS || o.kind == HANG;
            double sp = g_patience;
            if (live) g_patience *= 3;
            if (opt.deterministic) {
                for (; tries < 3; tries++) { Outcome r = try_choices(tests[ti], c, opt.hang * (live ? 3 : 1)); if (r.failed) { rep++; if (!live || r.kind != HANG) o.msg = r.msg.empty() ? o.msg : r.msg; } }
                believed = rep == tries;
            } else if (live) {
                // a lost-progress report needs to come back with three times the patience
                for (; tries < 8 && rep < 2; tries++) { Outcome r = try_choices(tests[ti], c, opt.hang * 3); if (r.failed) { rep++; o = r; c = recorded(); note = S->note; } }
                believed = rep >= 2;
            } else believed = true;   // safety oracle is sound: one observation suffices
            if (o.kind == HANG && !opt.hang_is_violation) believed = false;
            if (believed) {
                fo = o; ftest = ti; fcase = ci;
                vector<uint64_t> sc = c;
                Outcome so = o;
                if (opt.shrink_attempts) sc = shrink(tests[ti], c, so, opt, opt.hang * (live ? 1.5 : 1));
                rfile = g_dir + "/replay_" + tests[ti].name + "_" + std::to_string(worker) + ".json";
                // leave the note of the shrunk run in place
                g_replaying = true;
                Outcome fin = try_choices(tests[ti], sc, opt.hang * (live ? 2 : 1));
                g_replaying = false;
                if (fin.failed && S->note[0]) note = S->note;
                if (!fin.failed && opt.deterministic) { sc = c; so = o; }
                g_patience = sp;
                write_replay(rfile, tests[ti].name, sc, so, note);
                fo = so; fnote = note;
                failed = true;
                break;
            }
            g_patience = sp;
            inconclusive++;
            next = ci + 1;
            continue;
        }
        next = e;
    }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"worker\": %llu, \"evals\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"discards\": %llu, \"inconclusive\": %llu, \"wall\": %.2f,\n \"labels\": {",
            (unsigned long long)worker, (unsigned long long)S->evals, (unsigned long long)S->nontriv, distinct.size(),
            (unsigned long long)S->discards, (unsigned long long)inconclusive, now() - t0);
    for (int i = 0; i < S->nlabel; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jesc(S->lname[i]).c_str(), (unsigned long long)S->lcount[i]);
    fprintf(f, "},\n \"samples\": [");
    for (int i = 0; i < S->nsample; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(S->samples[i]).c_str());
    fprintf(f, "]");
    if (failed)
        fprintf(f, ",\n \"failure\": {\"test\": \"%s\", \"case\": %llu, \"kind\": %d, \"message\": \"%s\", \"note\": \"%s\", \"replay\": \"%s\"}",
                tests[ftest].name, (unsigned long long)fcase, fo.kind, jesc(fo.msg).c_str(), jesc(fnote).c_str(), jesc(rfile).c_str());
    fprintf(f, "}\n");
    if (!out.empty()) {
        fclose(f);
        FILE *h = fopen((out + ".hashes").c_str(), "wb");
        if (h) { for (uint64_t x: distinct) fwrite(&x, 8, 1, h); fclose(h); }
    }
    unlink(g_err.c_str());
    return failed ? 1 : 0;
}

static inline string hexs(const uint8_t *p, size_t n, size_t cap = 48) {
    static const char *d = "0123456789abcdef";
    string r;
    for (size_t i = 0; i < n && i < cap; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > cap) r += "..(" + std::to_string(n) + ")";
    return r;
}
static inline string hexs(const vector<uint8_t> &v, size_t cap = 48) { return hexs(v.data(), v.size(), cap); }

} // namespace pbt
#endif
