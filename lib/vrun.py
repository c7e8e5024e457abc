"""Runner for the monitoring harnesses: builds the library from /repo's working tree in the
configurations the checks need, runs harness shards in parallel, attributes crashes, matches
known findings, writes evidence."""
import os, sys, re, json, time, hashlib, subprocess, fcntl, shutil, fnmatch, struct, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
NPROC = os.cpu_count() or 4

ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,function,vptr -fno-sanitize-recover=all"
TSAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=thread"
# name -> (c++ flags, cmake options)
CONFIGS = {
    "plain": ("-O1 -g", []),
    "asan": (ASAN, []),
    "tsan": (TSAN, []),
    "tail": ("-O1 -g", ["-DLA_TAILCALL_DISPATCH=ON"]),
    "tail_asan": (ASAN.replace("-O1", "-O2"), ["-DLA_TAILCALL_DISPATCH=ON"]),
    "masked": ("-O1 -g", ["-DLA_MASKED_MEMORY_BITS=20"]),
    "masked_asan": (ASAN, ["-DLA_MASKED_MEMORY_BITS=20"]),
    "masked32": ("-O1 -g", ["-DLA_MASKED_MEMORY_BITS=32"]),
    "masked_tail": ("-O1 -g", ["-DLA_MASKED_MEMORY_BITS=20", "-DLA_TAILCALL_DISPATCH=ON"]),
    "jit_masked32": ("-O1 -g", ["-DLA_BINARY_TRANSLATION=ON", "-DLA_MASKED_MEMORY_BITS=32"]),
    "jit": ("-O1 -g", ["-DLA_BINARY_TRANSLATION=ON"]),
    "jit_asan": (ASAN, ["-DLA_BINARY_TRANSLATION=ON"]),
}

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, dd, ff in os.walk(root) for f in ff if not f.startswith(".") and "/_build" not in d and os.path.isfile(os.path.join(d, f)))
        for f in files:
            h.update(os.path.relpath(f, "/").encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]

_hash_cache = {}
def repo_hash(sub="lib"):
    if sub not in _hash_cache: _hash_cache[sub] = tree_hash([os.path.join(REPO, s) for s in sub.split()])
    return _hash_cache[sub]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True); self.p = os.path.join(BUILD, "." + name + ".lock")
    def __enter__(self): self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def _prune(prefix, keep):
    for d in os.listdir(BUILD):
        if d.startswith(prefix + "@") and d != keep: 
            p = os.path.join(BUILD, d)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)

def build_lib(config):
    flags, opts = CONFIGS[config]
    key = hashlib.sha256((repo_hash() + flags + " ".join(opts) + (tree_hash([os.path.join(VERIF, "shim")]) if config.startswith("jit") else "")).encode()).hexdigest()[:16]
    name = "lib_%s@%s" % (config, key); out = os.path.join(BUILD, name)
    with Lock("lib_" + config):
        if os.path.exists(out + "/ok"): return out
        _prune("lib_" + config, name)
        shutil.rmtree(out, ignore_errors=True)
        env = dict(os.environ, CXX="clang++", CC="clang")
        if config.startswith("jit"): # the translator's compiler, see shim/libtcc.h
            src = out + "/_deps/tinycc-src"; shutil.copytree(os.path.join(VERIF, "shim"), src); opts = opts + ["-DFETCHCONTENT_SOURCE_DIR_TINYCC=" + src]
        r = sh(["cmake", "-S", REPO + "/lib", "-B", out, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + flags] + opts, env=env)
        if r.returncode == 0: r = sh(["ninja", "-C", out])
        if r.returncode: raise BuildError("library (%s): %s" % (config, r.stdout[-3000:]))
        open(out + "/ok", "w").close()
    return out

def build_harness(src, config, extra=""):
    """src: name in /verif/harness without .cpp"""
    lib = build_lib(config); flags, _ = CONFIGS[config]
    h = os.path.join(VERIF, "harness")
    key = hashlib.sha256((lib + extra + tree_hash([h, os.path.join(VERIF, "guest")])).encode()).hexdigest()[:16]
    pre = "bin_%s_%s" % (src, config); name = pre + "@" + key; out = os.path.join(BUILD, name)
    with Lock(pre):
        if os.path.exists(out): return out
        _prune(pre, name)
        inc = ["-I" + REPO + "/lib", "-I" + lib, "-I" + h, "-I" + BUILD]
        r = sh(["clang++", "-std=gnu++20", "-fno-rtti"] + flags.split() + extra.split() + inc + [os.path.join(h, src + ".cpp"), lib + "/libloong.a", "-o", out + ".tmp", "-pthread"])
        if r.returncode: raise BuildError("harness %s (%s): %s" % (src, config, r.stdout[-3000:]))
        os.rename(out + ".tmp", out)
    return out

def build_emulator(config="plain"):
    """The laemu command line program, from the working tree."""
    lib = build_lib(config); flags, _ = CONFIGS[config]
    key = hashlib.sha256((lib + tree_hash([REPO + "/emulator/src"])).encode()).hexdigest()[:16]; name = "emu_%s@%s" % (config, key); out = os.path.join(BUILD, name)
    with Lock("emu_" + config):
        if os.path.exists(out): return out
        _prune("emu_" + config, name)
        r = sh(["clang++", "-std=gnu++20"] + flags.split() + ["-I" + REPO + "/lib", "-I" + lib, REPO + "/emulator/src/main.cpp", lib + "/libloong.a", "-o", out + ".tmp", "-pthread"])
        if r.returncode: raise BuildError("laemu: " + r.stdout[-3000:])
        os.rename(out + ".tmp", out)
    return out

GUEST_CC = "loongarch64-linux-gnu-gcc-14"
GUEST_CXX = "loongarch64-linux-gnu-g++-14"
def build_guest(src, flags="-O2 -static", name=None, cxx=False):
    srcs = [os.path.join(VERIF, "guest", s) for s in src.split()]
    key = hashlib.sha256((tree_hash([os.path.join(VERIF, "guest")]) + flags + src).encode()).hexdigest()[:16]
    pre = "guest_" + (name or os.path.basename(src).replace(".", "_")); nm = pre + "@" + key; out = os.path.join(BUILD, nm)
    with Lock(pre):
        if os.path.exists(out): return out
        _prune(pre, nm)
        r = sh([GUEST_CXX if cxx else GUEST_CC] + flags.split() + srcs + ["-o", out + ".tmp"])
        if r.returncode: raise BuildError("guest %s: %s" % (src, r.stdout[-3000:]))
        os.rename(out + ".tmp", out)
    return out

# ---- results -----------------------------------------------------------------------------
class Result:
    def __init__(self):
        self.stats = {}; self.samples = []; self.notes = []; self.viols = []; self.seen = {}; self.lock = threading.Lock(); self.done = 0; self.errors = []; self.hangs = 0
    def add_viol(self, key, detail, replay):
        with self.lock:
            if not any(v["key"] == key for v in self.viols) or sum(v["key"] == key for v in self.viols) < 3: self.viols.append({"key": key, "detail": detail, "replay": replay})
            self.stats["violations_seen"] = self.stats.get("violations_seen", 0) + 1
    def stat(self, k, n=1):
        with self.lock: self.stats[k] = self.stats.get(k, 0) + n
    def saw(self, k, item):
        h = int.from_bytes(hashlib.blake2b(repr(item).encode(), digest_size=8).digest(), "little")
        with self.lock: self.seen.setdefault(k, set()).add(h); self.stats[k + ".obs"] = self.stats.get(k + ".obs", 0) + 1
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 8: self.samples.append(s[:600])

DEADLINE = [time.time() + 10 ** 9]  # when a run has to give its answer

class Job:
    def __init__(self, harness, args="", config="plain", shards=1, watchdog=40, timeout=800, extra="", env=None, prefix="", max_crashes=12, files=None):
        self.__dict__.update(locals()); del self.__dict__["self"]

SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_segv=1:handle_sigbus=1:handle_sigfpe=1:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99", "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=1"}

def crash_key(err, rc):
    """A stable name for a crash: sanitizer kind and the innermost library function."""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m: kind = m.group(2)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m and not kind: kind = "ub: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    if not kind: kind = "signal %d" % -rc if rc < 0 else ("watchdog" if rc == 98 else "exit %d" % rc)
    fn = ""
    for f, loc in re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+)", err, re.M):
        if "/libloong/" in loc: 
            fn = re.sub(r"\(.*", "", re.sub(r"<.*?>", "", f)).split()[-1] + "@" + os.path.basename(loc.split(":")[0]); break
    return "crash:" + kind + (":" + fn if fn else "")

def parse_tsan(err):
    out = []
    for rep in re.split(r"={18,}", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", rep)
        if not m: continue
        fns = []
        for f, loc in re.findall(r"^\s*#\d+ (.*?) (/\S+)", rep, re.M):
            if "/libloong/" in loc:
                n = re.sub(r"\(.*", "", re.sub(r"<.*?>", "", f)).split()[-1]
                if n not in fns: fns.append(n)
            if len(fns) >= 2: break
        out.append(("tsan:" + m.group(1).strip() + ":" + "+".join(sorted(fns)), rep[:1500]))
    return out

def run_shard(res, job, exe, shard, seed, tmp, only=None):
    start = 0; crashes = 0; hang_seen = {}
    while True:
        st = os.path.join(tmp, "st.%s.%d.%x." % (os.path.basename(exe), shard, id(job)) + job.prefix.replace("/", "_"))
        for suffix in ("", ".seen"):
            if os.path.exists(st + suffix): os.unlink(st + suffix)
        args = [exe] + job.args.split() + ["--seed", str(seed), "--status", st, "--from", str(start), "--shard", str(shard)]
        if only is not None: args += ["--only", str(only)]
        env = dict(os.environ, **SAN_ENV); env["VH_WATCHDOG"] = str(job.watchdog); env.update(job.env or {})
        scratch = os.path.join(tmp, "s%d_%x_%s" % (shard, id(job), os.path.basename(exe)[:30])); os.makedirs(scratch, exist_ok=True); env["VH_SCRATCH"] = scratch
        errf = tempfile.TemporaryFile(dir=tmp)
        timed_out = False
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=errf, stdin=subprocess.DEVNULL, env=env, timeout=max(5, min(job.timeout, DEADLINE[0] - time.time())), cwd=scratch)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, out, timed_out = 97, e.stdout or b"", True
        errf.seek(0, 2); n = errf.tell(); errf.seek(max(0, n - 400000)); err = errf.read().decode(errors="replace"); errf.close()
        done = False
        for line in out.decode(errors="replace").splitlines():
            if line.startswith("VIOL "):
                key, case, det = (line[5:].split("\t") + ["", ""])[:3]
                res.add_viol(job.prefix + key, det, dict(kind="harness", harness=job.harness, config=job.config, args=job.args, extra=job.extra, seed=seed, shard=shard, case=case, watchdog=job.watchdog, prefix=job.prefix, env=job.env))
            elif line.startswith("STAT "):
                k, v = line[5:].rsplit(" ", 1)
                if not k.endswith(".distinct"):
                    if k.startswith("max."): 
                        with res.lock: res.stats[k] = max(res.stats.get(k, 0), int(v))
                    else: res.stat(k, int(v))
            elif line.startswith("SAMPLE "): res.sample(line[7:])
            elif line.startswith("NOTE "):
                with res.lock:
                    if len(res.notes) < 20: res.notes.append(line[5:600])
            elif line == "DONE": done = True
        if os.path.exists(st + ".seen"):
            with open(st + ".seen", "rb") as f:
                while True:
                    h = f.read(72)
                    if len(h) < 72: break
                    name = h[:64].rstrip(b"\0").decode(); (cnt,) = struct.unpack("<Q", h[64:])
                    vals = struct.unpack("<%dQ" % cnt, f.read(8 * cnt))
                    with res.lock: res.seen.setdefault(name, set()).update(vals)
        for key, rep in parse_tsan(err):
            res.add_viol(job.prefix + key, rep, dict(kind="harness", harness=job.harness, config=job.config, args=job.args, extra=job.extra, seed=seed, shard=shard, case="-1", watchdog=job.watchdog, prefix=job.prefix, env=job.env))
        if done and rc == 0:
            with res.lock: res.done += 1
            return
        if timed_out:
            with res.lock: res.errors.append("%s shard %d: out of time" % (job.harness, shard))
            return
        case, text = 0, ""
        try:
            with open(st, "rb") as f: b = f.read()
            case = struct.unpack("<Q", b[:8])[0]; text = b[8:].split(b"\0")[0].decode(errors="replace")
        except Exception: pass
        if rc == 98 and not hang_seen and not res.hangs and only is None:
            hang_seen[case] = 1; start = case; job = Job(**{**{k: v for k, v in job.__dict__.items()}, "watchdog": job.watchdog * 2}); continue  # slow machine or real hang: once more, longer
        key = crash_key(err, rc)
        if text.startswith("#"): key += ":" + text[1:].split()[0]
        m = re.search(r"(ERROR: \w+Sanitizer.*|.*runtime error: .*)", err)
        res.add_viol(job.prefix + key, (m.group(1)[:300] if m else err[-300:]) + " | case " + text[:1500], dict(kind="harness", harness=job.harness, config=job.config, args=job.args, extra=job.extra, seed=seed, shard=shard, case=str(case), watchdog=job.watchdog, prefix=job.prefix, env=job.env, stderr=err[:6000]))
        crashes += 1
        if rc == 98: crashes += job.max_crashes; res.hangs += 1  # a confirmed hang: every further one would take as long
        if only is not None: return
        if crashes >= job.max_crashes:
            with res.lock: res.notes.append("%s shard %d stopped after %d crashes" % (job.harness, shard, crashes)); res.done += 1
            return
        start = case + 1

def run_jobs(res, jobs, seed, only=None):
    if os.environ.get("VERIF_CONFIGS"): jobs = [j for j in jobs if j.config in os.environ["VERIF_CONFIGS"].split(",")]  # a development aid
    tmp = tempfile.mkdtemp(prefix="vrun.")
    os.chmod(tmp, 0o755)
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            exes = {}
            for cfg in sorted(set(j.config for j in jobs)): exes[("lib", cfg)] = None
            list(ex.map(build_lib, [k[1] for k in exes]))  # libraries first
            hs = sorted(set((j.harness, j.config, j.extra) for j in jobs))
            built = dict(zip(hs, ex.map(lambda h: build_harness(*h), hs)))
            futs = []
            for ji, j in enumerate(jobs):
                exe = built[(j.harness, j.config, j.extra)]
                if only is not None: futs.append(ex.submit(run_shard, res, j, exe, only[1], only[0], tmp, only[2]))
                else:
                    for s in range(j.shards): futs.append(ex.submit(run_shard, res, j, exe, s, (seed * 1000 + s * 7 + ji * 101) & 0x7fffffff, tmp))
            for f in futs: f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

# ---- known findings ----------------------------------------------------------------------
def load_known(pid):
    """finding: property=<id> key=<glob> | <text>      (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def finish(pid, tier, seed, res, meta, t0):
    known = load_known(pid); hit = {}; new = []
    for v in res.viols:
        for k, text in known:
            if v["key"] == k: hit.setdefault(k, text); break
        else: new.append(v)
    for k, _ in known:
        pass
    ev_dir = os.path.join(VERIF, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    evaluations = sum(res.stats.get(k, 0) for k in meta["eval"])
    distinct = sum(len(res.seen.get(k, ())) for k in meta["distinct"])
    for k, s in res.seen.items(): res.stats[k + ".distinct"] = len(s)
    cov = dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=meta["rule"], samples=res.samples[:8] or ["(none)"], observed=dict(sorted(res.stats.items())), notes=res.notes, library_tree=repo_hash())
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 1),
              violations=len(new))
    if new: cov["violations_found"] = [dict(key=v["key"], detail=v["detail"][:800]) for v in new]
    if hit: ev["coverage"]["known_findings_seen"] = sorted(hit)
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, text in hit.items(): print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, k))
    if new:
        keys = []
        for v in new:
            if v["key"] in keys: continue
            keys.append(v["key"])
            if len(keys) > 10: continue
            fn = "evidence/%s.replay.%d.json" % (pid, len(keys))
            with open(os.path.join(VERIF, fn), "w") as f: json.dump(dict(property=pid, key=v["key"], detail=v["detail"], replay=v["replay"]), f, indent=1)
            print("  %s: %s" % (v["key"], v["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        if len(keys) > 10: print("  ... and %d further kinds" % (len(keys) - 10))
        return 1
    if res.errors:
        print("check incomplete: " + "; ".join(res.errors[:5])); return 3
    missing = [k for k in meta["eval"] + meta["distinct"] if not (res.stats.get(k) or res.seen.get(k))]
    for k, n in meta.get("floor", {}).items():
        if max(res.stats.get(k, 0), len(res.seen.get(k, ()))) < n: missing.append("%s<%d" % (k, n))
    if missing:
        print("check observed too little: " + ", ".join(missing)); return 3
    print("OK property=%s evaluations=%d distinct=%d wall=%.0fs" % (pid, evaluations, distinct, time.time() - t0))
    return 0
