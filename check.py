#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree, searches for a
violation, writes /verif/evidence/<id>.json and reports.

    check.py C01 [--tier quick|thorough] [--seed N] [--keep]
    check.py C01 --replay FILE          re-run one saved failing case

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line
otherwise.  Anything else is an error of the check itself (exit 2)."""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from specs import SPECS, SAN, CXX, STD

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen_config(d):
    """config.h as CMake would generate it with the default options."""
    opts = {}
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        for m in re.finditer(r'option\((\w+)\s+"[^"]*"\s+(ON|OFF)\)', f.read()):
            opts[m.group(1)] = m.group(2) == "ON"
    out = []
    with open(os.path.join(REPO, "src/config.h.in")) as f:
        for line in f:
            m = re.match(r"#cmakedefine (\w+)\s*$", line)
            if m:
                out.append("#define %s\n" % m.group(1) if opts.get(m.group(1)) else "/* #undef %s */\n" % m.group(1))
            else:
                out.append(line)
    os.makedirs(os.path.join(d, "salticidae"), exist_ok=True)
    with open(os.path.join(d, "salticidae", "config.h"), "w") as f:
        f.write("".join(out))

def tree_key(extra):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(HERE, "engine"), os.path.join(HERE, "harness")):
        for dp, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode()); h.update(b"\0")
                with open(p, "rb") as fh: h.update(fh.read())
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fh: h.update(fh.read())
    h.update(extra.encode())
    return h.hexdigest()[:24]

def build(pid, spec):
    """returns list of (variant name, binary)"""
    bins = []
    jobs = []
    os.makedirs(BUILD, exist_ok=True)
    links = []
    for var in spec.get("variants", [{"name": "default"}]):
        flags = SAN if spec.get("san", True) and var.get("san", True) else ["-fno-omit-frame-pointer"]
        flags = flags + spec.get("flags", []) + var.get("flags", []) + os.environ.get("VERIF_XFLAGS", "").split()
        key = tree_key(json.dumps([spec["src"], flags, var.get("name"), spec.get("repo_src"), CXX, STD]))
        d = os.path.join(BUILD, "%s-%s-%s" % (pid, var["name"], key))
        binp = os.path.join(d, "harness")
        bins.append((var["name"], binp, d))
        if os.path.exists(binp): continue
        shutil.rmtree(d, ignore_errors=True)
        for old in os.listdir(BUILD):   # build products of older trees for this check
            if old.startswith("%s-%s-" % (pid, var["name"])) and time.time() - os.path.getmtime(os.path.join(BUILD, old)) > 1200:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.makedirs(d)
        inc = os.path.join(d, "gen")
        gen_config(inc)
        # generated config.h must win over any stale one in the source tree
        incs = ["-I" + inc, "-I" + os.path.join(inc, "salticidae"), "-I" + os.path.join(REPO, "include"),
                "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness")]
        objs = []
        base = [CXX, STD, "-O1", "-g1", "-w", "-include", "cstdint", "-pthread"] + flags + incs
        repo_src = spec.get("repo_src", "all")
        names = sorted(f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp")) if repo_src == "all" else repo_src
        for n in names:
            o = os.path.join(d, n + ".o")
            jobs.append(base + ["-c", os.path.join(REPO, "src", n), "-o", o]); objs.append(o)
        for n in [spec["src"]] + spec.get("extra_src", []):
            o = os.path.join(d, "h_" + n + ".o")
            jobs.append(base + ["-c", os.path.join(HERE, "harness", n), "-o", o]); objs.append(o)
        libs = spec.get("libs", ["-luv", "-lssl", "-lcrypto"])
        links.append(([CXX, "-pthread"] + flags + objs + ["-o", binp + ".tmp"] + spec.get("ldflags", []) + libs, binp))
    if jobs:
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
            for r in ex.map(lambda c: (c, sh(c)), jobs):
                if r[1].returncode:
                    print("BUILD FAILED: " + " ".join(r[0])); print(r[1].stdout[-6000:]); return None
        for cmd, binp in links:
            r = sh(cmd)
            if r.returncode:
                print("LINK FAILED: " + " ".join(cmd)); print(r.stdout[-6000:]); return None
            os.rename(binp + ".tmp", binp)
    return bins

def env_for(spec):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_abort=0:new_delete_type_mismatch=0:disable_coredump=1" + spec.get("asan", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["UV_USE_IO_URING"] = "0"   # thousands of short-lived loops: kernel-side ring teardown is asynchronous and would pile up
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def load_findings():
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"): res.append(json.loads(line))
    return res

def selftest():
    """offline setup: nothing to fetch; verify that the tools the checks use are present"""
    for c in ([CXX, "--version"], ["git", "--version"]):
        if sh(c).returncode: print("missing tool", c); return 2
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    print("ok"); return 0

def main():
    if "--selftest" in sys.argv: return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None); ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only"); ap.add_argument("--cases", type=int); ap.add_argument("--time", type=float); ap.add_argument("--repeat", type=int, default=3)
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--variant")
    a = ap.parse_args()
    pid = a.pid
    spec = SPECS[pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    bins = build(pid, spec)
    if bins is None: return 2
    tb = time.time() - t0
    env = env_for(spec)
    if a.replay:
        with open(a.replay) as f: rj = json.load(f)
        var = rj.get("variant")
        rc = 0
        for name, b, d in bins:
            if var and name != var: continue
            rc |= subprocess.run([b, "--replay", a.replay, "--repeat", str(a.repeat), "--dir", d], env=env).returncode
        return rc
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    results = []
    try:
        lim = spec[tier]
        procs = []
        runvars = [b for b in bins if not a.variant or b[0] == a.variant]
        W = spec.get("workers", 8)
        per = max(1, W // len(runvars))
        for vi, (name, b, d) in enumerate(runvars):
            for w in range(per):
                cases = a.cases or lim["cases"]
                tl = a.time or lim["time"]
                out = os.path.join(work, "%s.%d.json" % (name, w))
                wd = os.path.join(work, "%s.%d" % (name, w)); os.makedirs(wd)
                cmd = [b, "--seed", str(seed), "--worker", str(w + 100 * vi), "--cases", str(max(1, cases // (per * len(runvars)))),
                       "--time", str(tl), "--dir", wd, "--out", out]
                if a.only: cmd += ["--only", a.only]
                log = open(os.path.join(work, "%s.%d.log" % (name, w)), "w")
                e = dict(env); e["VERIF_WORKER"] = str(w + per * vi); e["VERIF_TIER"] = tier; e["VERIF_SCRATCH"] = wd
                procs.append((name, out, subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, cwd=wd), log.name))
        deadline = time.time() + (a.time or lim["time"]) + 240
        for name, out, p, log in procs:
            try: p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
            if os.path.exists(out):
                with open(out) as f: r = json.load(f)
                r["variant"] = name; r["out"] = out
                results.append(r)
            else:
                print("worker produced no result (%s): %s" % (p.returncode, open(log).read()[-2000:]))
        if not results: return 2
        distinct = set()
        labels = {}
        samples = []
        for r in results:
            hp = r["out"] + ".hashes"
            if os.path.exists(hp):
                import array
                arr = array.array("Q")
                with open(hp, "rb") as f: arr.frombytes(f.read())
                for x in arr: distinct.add((r["variant"], x))
            for k, v in r["labels"].items(): labels[k] = labels.get(k, 0) + v
            for s in r["samples"][:2]:
                if len(samples) < 8: samples.append(s[:1500])
        evals = sum(r["evals"] for r in results)
        nontriv = sum(r["nontrivial"] for r in results)
        incon = sum(r["inconclusive"] for r in results)
        fails = [r for r in results if "failure" in r]
        known = [k for k in load_findings() if k.get("property") == pid and k.get("status") == "known"]
        viol = []
        shown_known = set()
        for r in fails:
            fl = r["failure"]
            hit = None
            for k in known:
                if k.get("test") == fl["test"] and re.search(k["match"], fl["message"]): hit = k
            if hit: shown_known.add(hit["what"]); continue
            rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
            dst = os.path.join(rd, "%s_%s_%s.json" % (pid, fl["test"], r["variant"]))
            with open(fl["replay"]) as f: rj = json.load(f)
            old = [v for v in viol if v["replay"] == dst]
            if old:
                if len(rj["choices"]) >= old[0]["size"]: continue
                viol.remove(old[0])
            rj["property"] = pid; rj["variant"] = r["variant"]; rj["seed"] = seed
            rj["rerun"] = "python3 /verif/check.py %s --replay %s" % (pid, dst)
            with open(dst, "w") as f: json.dump(rj, f)
            viol.append({"test": fl["test"], "variant": r["variant"], "kind": fl["kind"], "message": fl["message"][:3000], "note": fl["note"][:2000], "replay": dst, "size": len(rj["choices"])})
        for k in known: shown_known.add(k["what"])
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples,
                           "nontrivial": nontriv, "labels": labels, "inconclusive_discarded": incon,
                           "variants": [b[0] for b in runvars], "workers": len(results), "build_s": round(tb, 1)},
              "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": viol}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d non-trivial (%d distinct), %d inconclusive, build %.1fs, total %.1fs" %
              (pid, tier, seed, evals, nontriv, len(distinct), incon, tb, time.time() - t0))
        for k in sorted(shown_known): print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if viol:
            for v in viol:
                print("--- test %s (%s): %s" % (v["test"], v["variant"], v["message"][:1500])); print("    note: " + v["note"][:1000])
                print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
            return 1
        if nontriv < spec.get("min_nontrivial", 1):
            print("check error: only %d non-trivial cases" % nontriv); return 2
        return 0
    finally:
        if a.keep: print("work dir", work)
        else: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
