#!/usr/bin/env python3
"""Builds the library from /repo's working tree and runs the generated-input checks of one property.

usage: check.py <property id> [--tier quick|thorough] [--replay FILE] [--sub NAME] [...engine options]
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Other: error."""
import concurrent.futures as cf, fcntl, hashlib, json, os, subprocess, sys, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, KNOWN

CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w", "-I" + REPO + "/include", "-I" + HERE + "/src"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
DBL = ["-DIS_RP3D_DOUBLE_PRECISION_ENABLED"]
VARIANTS = {
    "dbl": DBL, "sgl": [], "asan": DBL + SAN, "asansgl": SAN,
    # every library block comes straight from the base allocator (hook), so that ASan sees its bounds and life time
    "raw": DBL + SAN + ["-DRP3D_VERIF_PLAIN_ALLOCATORS"],
    # no assertions: what a Release user sees; locals start with a garbage pattern
    "rel": DBL + ["-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "relsgl": ["-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "pat": DBL + ["-ftrivial-auto-var-init=pattern"],
    "fuzz": DBL + SAN + ["-fsanitize=fuzzer-no-link"],
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out

def prune():
    objs = os.path.join(BUILD, "obj")
    if not os.path.isdir(objs): return
    ents = [(os.stat(os.path.join(objs, f)).st_mtime, os.stat(os.path.join(objs, f)).st_size, os.path.join(objs, f)) for f in os.listdir(objs)]
    total = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if total < 3 << 30: break
        try: os.unlink(p)
        except OSError: pass
        total -= s

def compile_all(jobs):
    def run(j):
        src, obj, flags = j
        if os.path.exists(obj):
            os.utime(obj); return None
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return src + "\n" + r.stdout[:3000]
        os.rename(tmp, obj); return None
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + errs[0] + "\n"); sys.exit(2)

def build(configs):
    """configs: list of (variant, source). Returns binaries."""
    objs = os.path.join(BUILD, "obj"); os.makedirs(objs, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        prune()
        hdrs = tree(REPO + "/include", (".h", ".hpp", ".inl"))
        hh = sha(*[os.path.relpath(p, REPO).encode() + b"\0" + read(p) for p in hdrs])
        hv = sha(*[read(p) for p in tree(HERE + "/src", (".h",))])
        srcs = tree(REPO + "/src", (".cpp",))
        # headers that might live next to sources
        hs = sha(*[read(p) for p in tree(REPO + "/src", (".h", ".hpp", ".inl"))])
        jobs, outs, plan = {}, [], []
        def add(src, flags, extra):
            key = sha(read(src), os.path.basename(src), " ".join(flags), extra)
            obj = os.path.join(objs, key + ".o"); jobs[obj] = (src, obj, flags); return obj
        for variant, src in configs:
            fl = BASE + VARIANTS[variant]
            lib = [add(s, fl, hh + hs) for s in srcs]
            hfl = fl + (["-DPBT_FUZZER"] if variant == "fuzz" else [])
            har = [add(HERE + "/src/pbt.cpp", hfl, hv), add(HERE + "/src/" + src, hfl, hh + hv)]
            plan.append((variant, src, lib, har, fl))
        # slow translation units first
        compile_all(sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0])))
        for variant, src, lib, har, fl in plan:
            exe = os.path.join(objs, "bin-" + sha(*(lib + har)) + "-" + variant + "-" + src.split(".")[0])
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                lf = [f for f in fl if f.startswith("-fsanitize") and "no-link" not in f]
                if variant == "fuzz": lf = ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize=alignment"]
                rsp = exe + ".rsp"
                with open(rsp, "w") as f: f.write("\n".join(har + lib))
                r = subprocess.run([CXX] + lf + ["@" + rsp, "-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                os.unlink(rsp)
                if r.returncode:
                    sys.stderr.write("LINK FAILED\n" + r.stdout[:3000] + "\n"); sys.exit(2)
                os.rename(tmp, exe)
            else: os.utime(exe)
            outs.append(exe)
        return outs
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        sys.stderr.write("usage: check.py <id>; ids: %s\n" % " ".join(sorted(CHECKS))); sys.exit(2)
    pid = sys.argv[1]; args = sys.argv[2:]
    opt = {args[i][2:]: args[i + 1] for i in range(0, len(args) - 1, 2)}
    tier = opt.pop("tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(opt.pop("seed", os.environ.get("VERIF_SEED", "1")))
    except ValueError: seed = 1
    seed &= (1 << 63) - 1
    factor = {c[0]: c[2] for c in CHECKS[pid]["run"] if len(c) > 2}
    configs = [tuple(c[:2]) for c in CHECKS[pid]["run"]]
    if "variant" in opt: configs = [c for c in configs if c[0] == opt["variant"]] or [(opt["variant"], configs[0][1])]; opt.pop("variant")
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:abort_on_error=1")
    t0 = time.time()
    if "replay" in opt:
        txt = open(opt["replay"]).read()
        var = [l.split()[1] for l in txt.splitlines() if l.startswith("variant ")]
        sub = [l.split()[1] for l in txt.splitlines() if l.startswith("sub ")][0]
        cand = [c for c in configs if not var or c[0] == var[0]] or configs
        rc = 0
        for exe in build(cand):
            r = subprocess.run([exe, "--replay", opt["replay"]], env=env); 
            if r.returncode == 3: continue
            rc = r.returncode; break
        sys.exit(rc)
    exes = build(configs)
    tb = time.time() - t0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    results, viol = [], 0
    for k in KNOWN:
        if k["property"] == pid: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for (variant, src), exe in zip(configs, exes):
        out = os.path.join(BUILD, "out-%s-%s-%d.json" % (pid, variant, os.getpid()))
        cmd = [exe, "--property", pid, "--variant", variant, "--tier", tier, "--seed", str(seed), "--out", out, "--replaydir", os.path.join(HERE, "replays")]
        o2 = dict(opt); o2["scale"] = str(float(opt.get("scale", 1)) * factor.get(variant, 1))
        for k, v in o2.items(): cmd += ["--" + k, v]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1):
            sys.stderr.write("engine exited with %d\n" % r.returncode); sys.exit(2)
        res = json.load(open(out)); os.unlink(out)
        results.append(res)
        if r.returncode == 1: viol += 1; break
    if tier == "thorough" and not viol and CHECKS[pid].get("fuzz") and "sub" not in opt:
        viol += fuzz(pid, CHECKS[pid]["fuzz"], seed, env, results, float(opt.get("fuzztime", 300)))
    subs = [s for r in results for s in r["subs"]]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(s["evaluations"] for s in subs), distinct_nontrivial=sum(s["distinct_nontrivial"] for s in subs),
                            rule=" | ".join("%s: %s" % (n, ru) for n, ru in dict((s["sub"], s["rule"]) for s in subs).items()),
                            samples=[dict(sub=s["sub"], variant=s["variant"], case=x) for s in subs for x in s["samples"]],
                            sub_checks=[{k: s[k] for k in s if k not in ("samples", "rule")} for s in subs]),
              assumptions=CHECKS[pid].get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=viol)
    ev["coverage"]["build_s"] = round(tb, 1)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    sys.exit(1 if viol else 0)

def fuzz(pid, subs, seed, env, results, seconds):
    """coverage-guided stage of the thorough tier: libFuzzer drives the same property functions"""
    viol = 0
    for src, sub in subs:
        exe = build([("fuzz", src)])[0]
        work = os.path.join(BUILD, "fuzz-%s-%s" % (pid, sub)); shutil.rmtree(work, ignore_errors=True); os.makedirs(work + "/c")
        t0 = time.time(); procs = []
        for w in range(8):
            e = dict(env, PBT_SUB=sub, PBT_FUZZ_OUT=work + "/fail%d.replay" % w)
            procs.append(subprocess.Popen([exe, work + "/c", "-seed=%d" % (seed * 8 + w + 1), "-max_total_time=%d" % seconds, "-max_len=6000", "-len_control=20", "-timeout=60",
                                           "-rss_limit_mb=3500", "-reload=1", "-artifact_prefix=%s/a%d-" % (work, w), "-print_final_stats=1"], env=e, stdout=subprocess.DEVNULL, stderr=open(work + "/log%d" % w, "w")))
        runs = 0
        for w, p in enumerate(procs):
            p.wait()
            for l in open(work + "/log%d" % w, errors="replace"):
                if l.startswith("stat::number_of_executed_units"): runs += int(l.split(":")[-1])
        bad = [f for f in sorted(os.listdir(work)) if (f.startswith("a") and "-crash-" in f or f.startswith("a") and "-timeout-" in f)]
        results.append(dict(subs=[dict(sub=sub + "/libFuzzer", variant="fuzz", planned=runs, evaluations=runs, nontrivial=0, distinct_nontrivial=0, discarded=0, wall_s=time.time() - t0,
                                       rule="coverage-guided byte strings decoded into choices of " + sub, classes=dict(corpus=len(os.listdir(work + "/c"))), samples=[])]))
        for f in bad[:1]:
            dst = os.path.join(HERE, "replays", "%s-fuzz-%s-%d.replay" % (pid, sub, seed))
            data = read(os.path.join(work, f)); ch, i = [], 0
            while i < len(data) and len(ch) < 20000:
                b = data[i]; w = b & 7; i += 1; v = int.from_bytes(data[i:i + w], "little") if w else b >> 3; i += w; ch.append(v)
            with open(dst, "w") as o: o.write("property %s\nsub %s\nvariant asan\nchoices %s\n" % (pid, sub, " ".join(map(str, ch))))
            rex = build([("asan", src)])[0]
            ok = all(subprocess.run([rex, "--replay", dst], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
            if ok:
                print("VIOLATION property=%s replay=%s" % (pid, dst)); viol += 1
        shutil.rmtree(work, ignore_errors=True)
        if viol: break
    return viol

main()
