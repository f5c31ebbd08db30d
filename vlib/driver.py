#!/usr/bin/env python3
"""Build, run and report.  Usage:
     driver.py setup                      build everything (all configurations), warm the cache
     driver.py check ID [--tier T] [--seed N] [--cases N] [--case I]
"""
import sys, os, json, subprocess, time, glob, hashlib, re, fcntl, struct, signal, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import props as P
import specs  # fills in how each property is monitored

BASEFLAGS = ["-std=c++14", "-fPIC", "-w", "-fno-omit-frame-pointer",
             "-mfpmath=sse", "-msse", "-msse2", "-msse3", "-mssse3", "-DFCL_STATIC_DEFINE",
             "-isystem", "/usr/include/eigen3"]
CONFIGS = {
    # the code as it is shipped (NDEBUG), optimised lightly so that it builds quickly
    "plain": ["-O1", "-g0", "-DNDEBUG"],
    # memory and undefined-behaviour monitors; FCL as shipped, Eigen's own index and size assertions live. Checks that
    # only repeat what AddressSanitizer sees anyway are off: they triple the time to compile.
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,null,alignment,vptr,object-size,pointer-overflow",
             "-fno-sanitize-recover=all", "-DVH_SAN=1", "-DNDEBUG", "-Deigen_assert(x)=((x)?(void)0:__builtin_trap())"],
    # data-race monitor
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DNDEBUG", "-DVH_SAN=1", "-DVH_TSAN=1"],
    # valgrind memcheck (definedness) runs on this one
    "vg": ["-O1", "-g1", "-DNDEBUG", "-DVH_SAN=1"],
}
HEAVY = ["distance.cpp", "continuous_collision.cpp", "collision.cpp"]


class BuildError(Exception):
    pass


def gen_config():
    """config.h / export.h / fcl.h as the repository's own build generates them."""
    inc = os.path.join(BUILD, "gen", "fcl")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, "include/fcl/config.h.in")).read()
    ver = {}
    vf = os.path.join(REPO, "CMakeModules/FCLVersion.cmake")
    if os.path.exists(vf):
        for m in re.finditer(r'set\(\s*(FCL_\w+)\s+"?([^")\s]*)"?\s*\)', open(vf).read()):
            ver[m.group(1)] = m.group(2)
    ov = subprocess.run(["pkg-config", "--modversion", "octomap"], capture_output=True, text=True).stdout.strip() or "1.9.7"
    o = (ov.split(".") + ["0", "0", "0"])[:3]
    vals = {"OCTOMAP_MAJOR_VERSION": o[0], "OCTOMAP_MINOR_VERSION": o[1], "OCTOMAP_PATCH_VERSION": o[2]}
    vals.update(ver)
    on = {"FCL_HAVE_OCTOMAP": 1, "FCL_HAVE_EIGEN": 1}

    def cmdef(m):
        return "#define %s %d" % (m.group(1), on.get(m.group(1), 0))
    src = re.sub(r"#cmakedefine01\s+(\w+)", cmdef, src)
    src = re.sub(r"#cmakedefine\s+(\w+)", lambda m: "/* #undef %s */" % m.group(1), src)
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), src)
    src = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), "0"), src)
    put(os.path.join(inc, "config.h"), src)
    put(os.path.join(inc, "export.h"),
        "#ifndef FCL_EXPORT_H\n#define FCL_EXPORT_H\n#define FCL_EXPORT\n#define FCL_NO_EXPORT\n"
        "#define FCL_DEPRECATED __attribute__((__deprecated__))\n"
        "#define FCL_DEPRECATED_EXPORT FCL_DEPRECATED\n#define FCL_DEPRECATED_NO_EXPORT FCL_DEPRECATED\n#endif\n")


def put(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def ccenv():
    e = dict(os.environ)
    for k in ("CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_COMPILERCHECK="string:clang18",
             CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="20G", CCACHE_NOCOMPRESS="1", LC_ALL="C.UTF-8",
             CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros",
             TMPDIR=os.environ.get("TMPDIR", "/tmp"))
    return e


def compile_one(cfg, src, obj):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ["ccache", "clang++"] + BASEFLAGS + CONFIGS[cfg] + \
          ["-I", os.path.join(BUILD, "gen"), "-I", os.path.join(REPO, "include"),
           "-I", os.path.join(ROOT, "harness"), "-c", src, "-o", obj]
    if not shutil.which("ccache"):
        cmd = cmd[1:]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, env=ccenv())
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stderr[-6000:]))
    return time.time() - t


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))
    return sorted(s, key=lambda p: (HEAVY.index(os.path.basename(p)) if os.path.basename(p) in HEAVY else 99, p))


def mod_sources(m):
    """harness/m.cpp and its parts m_*.cpp, the long ones first"""
    import glob
    return sorted((os.path.basename(p) for p in glob.glob(os.path.join(ROOT, "harness", m + "_*.cpp"))), reverse=True) + [m + ".cpp"]


def build(cfg, mods):
    """Library objects plus the named harness modules in one configuration -> {module: exe}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen_config()
    od = os.path.join(BUILD, "obj", cfg)
    jobs = []
    libobjs = []
    for s in lib_sources():
        o = os.path.join(od, "lib", os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "__") + ".o")
        libobjs.append(o)
        jobs.append((s, o))
    hj = []
    for m in mods:
        for s in mod_sources(m):
            hj.append((os.path.join(ROOT, "harness", s), os.path.join(od, "h", s + ".o")))
    jobs = jobs[:3] + hj + jobs[3:]
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, cfg, s, o) for s, o in jobs]
        for f in fs:
            f.result()
    ar = os.path.join(od, "libfcl.a")
    if os.path.exists(ar):
        os.unlink(ar)
    subprocess.run(["ar", "rcsT", ar] + libobjs, check=True)
    exes = {}
    san = [f for f in CONFIGS[cfg] if f.startswith("-fsanitize") or f.startswith("-fno-san")]

    def link(m):
        exe = os.path.join(od, "bin_" + m)
        cmd = ["clang++"] + san + ["-o", exe] + [os.path.join(od, "h", x + ".o") for x in mod_sources(m)] + [
                                   ar, "-lccd", "-loctomap", "-loctomath", "-lpthread", "-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link %s\n%s" % (m, r.stderr[-4000:]))
        exes[m] = exe
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, mods))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes


# ----------------------------------------------------------------- running --

SANENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=%d:allocator_may_return_null=1:detect_stack_use_after_return=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_bugs=1:history_size=4"},
}


def read_progress(path):
    try:
        b = open(path, "rb").read()
        case, ticks = struct.unpack_from("<QQ", b, 0)
        phase = b[16:16 + 1000].split(b"\0")[0].decode(errors="replace")
        return case, ticks, phase
    except Exception:
        return None, None, ""


class Shard:
    """Runs one slice of the case range to its end, stepping over crashes and hangs."""

    def __init__(self, run, idx):
        self.run, self.idx = run, idx
        self.recs, self.errors, self.restarts = [], [], 0

    def go(self):
        r = self.run
        start = r.start + self.idx
        retried = None
        while start < r.end:
            tag = "%s.%d.%d" % (r.tag, self.idx, self.restarts)
            out, prog, log = (os.path.join(r.dir, tag + x) for x in (".out", ".prog", ".log"))
            with open(prog, "wb") as f:
                f.write(b"\0" * 4096)
            cmd = r.wrap + [r.exe, "--prop", r.prop, "--seed", str(r.seed), "--tier", r.tier, "--start", str(start),
                            "--end", str(r.end), "--step", str(r.shards), "--out", out, "--progress", prog]
            env = dict(os.environ)
            for k, v in SANENV.get(r.cfg, {}).items():
                env[k] = v % r.leaks if "%d" in v else v
            env["MALLOC_PERTURB_"] = str(17 + 31 * self.idx % 200) if r.cfg == "plain" else "0"
            with open(log, "wb") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                                     start_new_session=True)
                last, t_last, hung = None, time.time(), False
                while True:
                    try:
                        p.wait(timeout=0.25)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    c = read_progress(prog)
                    if c != last:
                        last, t_last = c, time.time()
                    elif time.time() - t_last > r.hang_s:
                        hung = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
                    if os.path.getsize(log) > (200 << 20):
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        self.errors.append("log over 200 MB")
                        return self
            done = self.absorb(out)
            case, _, phase = read_progress(prog)
            text = tail(log)
            if r.cfg == "tsan":
                self.tsan_reports(log, case)
            if r.cfg == "vg" and p.returncode == 77:
                self.recs.append(dict(type="violation", key="memcheck|" + san_key(open(log, errors="replace").read()),
                                      case=start, msg=text[-3000:]))
            if done:
                if p.returncode not in (0, 66, 77) and p.returncode is not None:
                    k = san_key(text)
                    self.recs.append(dict(type="violation", key="exit|" + k, case=case, msg=text[-3000:]))
                return self
            self.restarts += 1
            if hung:
                if retried != case:      # once more, alone, before calling it a hang
                    retried = case
                    start = case
                    continue
                self.recs.append(dict(type="violation", key="hang|" + phase, case=case,
                                      msg="no progress for %ds, twice, in: %s" % (r.hang_s, phase)))
                self.recs.append(dict(type="truncated", case=case))     # one proven hang per shard is enough
                return self
            else:
                if case is None:
                    self.errors.append("harness died before its first case: " + text[-1500:])
                    return self
                self.recs.append(dict(type="violation", key="crash|" + phase + "|" + san_key(text), case=case,
                                      msg="process ended with %s in: %s\n%s" % (p.returncode, phase, text[-3000:])))
            start = case + r.shards
            if self.restarts > r.max_restarts:
                self.recs.append(dict(type="truncated", case=case))
                return self
        return self

    def tsan_reports(self, log, case):
        txt = open(log, errors="replace").read()
        seen = set()
        for blk in txt.split("==================")[1:]:
            if "WARNING: ThreadSanitizer" not in blk:
                continue
            k = san_key(blk)
            if k not in seen:
                seen.add(k)
                self.recs.append(dict(type="violation", key="tsan|" + k, case=case or 0, msg=blk[:4000]))

    def absorb(self, out):
        done = False
        try:
            for line in open(out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("type") == "done":
                    done = True
                self.recs.append(d)
        except OSError:
            pass
        return done


def tail(path, n=20000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode(errors="replace")


def san_key(text):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"runtime error: ([^\n]{0,80})", text)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", text)
        kind = m.group(1).strip() if m else None
    if not kind and "LeakSanitizer" in text:
        kind = "leak"
    if not kind:
        m = re.search(r"Assertion [`']?(.{0,100}?)'? failed", text)
        kind = "assert:" + m.group(1) if m else None
    if not kind:
        m = re.search(r"terminate called[^\n]*(\n[^\n]*what[^\n]*)?", text)
        kind = "terminate" if m else "signal"
    if "== Invalid" in text or "== Conditional" in text or "== Use of" in text:
        m = re.search(r"== (Invalid \w+|Conditional jump|Use of uninit\w+)", text)
        kind = m.group(1) if m else kind
    fr = ""
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in |#\d+ |at 0x[0-9A-F]+: |by 0x[0-9A-F]+: )((?:[\w:~]|<(?:[^()\n]*)>|operator\S*)+)", text):
        if "fcl::" in m.group(1):
            fr = re.sub(r"<.*", "", m.group(1))
            break
    return kind + ("@" + fr if fr else "")


class Run:
    pass


def run_module(exe, prop, cfg, tier, seed, ncases, work, start=0, leaks=0, shards=None, hang_s=40, wrap=None,
               max_restarts=40):
    r = Run()
    r.exe, r.prop, r.cfg, r.tier, r.seed = exe, prop, cfg, tier, seed
    r.start, r.end, r.dir, r.tag = start, start + ncases, work, prop + "_" + os.path.basename(exe) + "_" + cfg
    r.shards = min(shards or JOBS, max(1, ncases))
    r.leaks, r.hang_s, r.wrap, r.max_restarts = leaks, hang_s, wrap or [], max_restarts
    sh = [Shard(r, i) for i in range(r.shards)]
    with ThreadPoolExecutor(r.shards) as ex:
        list(ex.map(lambda s: s.go(), sh))
    return sh


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status", "open") == "open" and d["property"] in (prop, "*"):
                out.append(d)
    return out


def check(prop, tier, seed, cases=None, one=None):
    t0 = time.time()
    spec = P.PROPS[prop]
    work = os.path.join(BUILD, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    allrecs, errors, execs = [], [], []
    tb = 0
    try:
        todo = [(p, p["cases"][tier] if cases is None else cases) for p in spec["parts"]]
        todo = [(p, n) for p, n in todo if n]
        b0 = time.time()
        exes = {cfg: build(cfg, sorted({p["mod"] for p, _ in todo if p["cfg"] == cfg})) for cfg in sorted({p["cfg"] for p, _ in todo})}
        tb += time.time() - b0
        for part, n in todo:
            exe, p0 = exes[part["cfg"]][part["mod"]], time.time()
            pname = part.get("prop", prop)
            wrap = None
            if part["cfg"] == "vg":
                wrap = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=no", "--num-callers=20",
                        "--errors-for-leak-kinds=none", "--leak-check=no"]
            sh = run_module(exe, pname, part["cfg"], tier, seed, 1 if one is not None else n, work,
                            start=one if one is not None else 0, leaks=part.get("leaks", 0),
                            shards=part.get("shards"), hang_s=part.get("hang_s", 40), wrap=wrap)
            for s in sh:
                if part.get("only"):   # reuse of another property's workload: only the monitor's own reports count here
                    s.recs = [d for d in s.recs if d["type"] != "violation" or any(d["key"].startswith(x) for x in part["only"])]
                for d in s.recs:
                    d["part"] = "%s/%s/%s" % (pname, part["mod"], part["cfg"])
                allrecs += s.recs
                errors += s.errors
            execs.append((part, n, round(time.time() - p0, 1)))
    except BuildError as e:
        print("build failed:", e)
        return 2
    viol = [d for d in allrecs if d["type"] == "violation"]
    counters, samples, hashes, mx = {}, [], set(), {}
    for d in allrecs:
        if d["type"] == "done":
            pre = "" if len(spec["parts"]) == 1 else d["part"] + ":"
            for k, v in d["counters"].items():
                counters[pre + k] = counters.get(pre + k, 0) + v
            for k, v in d.get("maxima", {}).items():
                if v is not None:
                    mx[pre + k] = max(mx.get(pre + k, -1e300), v)
            samples += d.get("samples", [])[:3]
            if d.get("hashfile") and os.path.exists(d["hashfile"]):
                b = open(d["hashfile"], "rb").read()
                salt = d["part"]
                hashes.update((salt, x) for (x,) in struct.iter_unpack("<Q", b))
    evals = sum(d["cases"] for d in allrecs if d["type"] == "done")
    kf = known_findings(prop)
    total = {}          # exact number per key (records are capped)
    for d in allrecs:
        if d["type"] == "done":
            for k, n in d.get("perkey", {}).items():
                total[k] = total.get(k, 0) + n
    for v in viol:
        if v["key"] not in total:
            total[v["key"]] = 0
    cap = {v["key"] for v in viol if total[v["key"]] == 0}
    for v in viol:
        if v["key"] in cap:
            total[v["key"]] += 1
    hit, new = {}, {}
    for k in sorted(total):
        recs = [v for v in viol if v["key"] == k]
        if not recs:
            continue
        for f in kf:
            if re.fullmatch(f["key"], k, re.S):
                h = hit.setdefault(f["key"], [f, 0, []])
                h[1] += total[k]
                h[2] += recs
                break
        else:
            new.setdefault(k, []).extend(recs)
    # a finding recorded with a rate stands for that rate only: more than that is a new violation
    for k, (f, n, recs) in list(hit.items()):
        if "rate" in f:
            base = sum(c for kk, c in counters.items() if kk == f["of"] or kk.endswith(":" + f["of"]))
            allowed = max(f.get("min", 4), f["rate"] * base)
            if n > allowed:
                new["more often than recorded (%d > %d of %d): " % (n, allowed, base) + recs[0]["key"]] = recs
    for f in kf:
        n = hit.get(f["key"], [f, 0])[1]
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, f["what"], n))
    floor = spec.get("floor", {})
    short = []
    if one is None and cases is None:
        for k, v in floor.items():
            got = sum(c for kk, c in counters.items() if kk == k or kk.endswith(":" + k))
            if got < v:
                short.append("%s: %d < %d" % (k, got, v))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
                       "samples": samples[:12] or ["(none recorded)"], "observed": counters,
                       "largest_seen": {k: v for k, v in sorted(mx.items())},
                       "parts": [{"module": p["mod"], "config": p["cfg"], "workload": p.get("prop", prop), "cases": n, "seconds": t}
                                 for p, n, t in execs],
                       "known_findings_seen": {k: h[1] for k, h in hit.items()},
                       "crash_restarts": sum(1 for v in viol if v["key"].startswith("crash"))},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": sum(len(v) for v in new.values())}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations (%d keys new), build %.1fs total %.1fs" %
          (prop, tier, seed, evals, len(hashes), len(viol), len(new), tb, time.time() - t0))
    for k, vs in sorted(new.items(), key=lambda kv: -len(kv[1]))[:25]:
        v = vs[0]
        rp = os.path.join(ROOT, "evidence", "replay", "%s-%s.txt" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
        with open(rp, "w") as f:
            f.write("property=%s key=%s\ncase=%s seed=%d tier=%s part=%s  (seen %d times)\nreplay: VERIF_SEED=%d VERIF_TIER=%s "
                    "python3 %s/vlib/driver.py check %s --case %s\n\n%s\n" %
                    (prop, k, v.get("case"), seed, tier, v.get("part"), len(vs), seed, tier, ROOT, prop, v.get("case"), v.get("msg")))
            for w in vs[1:6]:
                f.write("\n--- also case %s\n%s\n" % (w.get("case"), w.get("msg")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  key=%s (%d) %s" % (k, len(vs), str(v.get("msg"))[:300].replace("\n", " | ")))
    if new:
        return 1
    if errors:
        print("harness errors:", errors[:3])
        return 2
    if evals == 0 or short:
        print("INCONCLUSIVE: too little was observed:", short)
        return 3
    return 0


def manifest():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i, p in P.PROPS.items():
            d = dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]),
                     why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            assert len(p["title"]) <= 80, i
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for i, p in P.PROPS.items():
        if p["parts"]:
            checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="bin/check %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=p["technique"], level="exploration",
                               level_note=p["note"]))
        else:
            na.append(dict(property=i, reason=p.get("na") or "its monitor is not built yet"))
    m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
             notes="Generated from vlib/props.py by 'python3 vlib/driver.py manifest'. /repo carries no hooks: "
                   "every monitor works at the library's public interface or through compiler and valgrind instrumentation.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        cfgs = {}
        for p in P.PROPS.values():
            for part in p["parts"]:
                cfgs.setdefault(part["cfg"], set()).add(part["mod"])
        for c, mods in cfgs.items():
            t = time.time()
            try:
                build(c, sorted(mods))
            except BuildError as e:
                print(e)
                return 1
            print("built", c, sorted(mods), "in %.1fs" % (time.time() - t))
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        cases = one = None
        i = 2
        while i < len(a):
            if a[i] == "--tier": tier = a[i + 1]
            if a[i] == "--seed": seed = int(a[i + 1])
            if a[i] == "--cases": cases = int(a[i + 1])
            if a[i] == "--case": one = int(a[i + 1])
            i += 2
        return check(a[1], tier, seed, cases, one)
    if a[0] == "build":
        print(build(a[1], a[2:]))
        return 0
    if a[0] == "manifest":
        return manifest()


if __name__ == "__main__":
    sys.exit(main())
