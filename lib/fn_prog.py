"""Compiled programs against their native runs: generates random C programs, compiles each for the host and for the
guest at a random optimisation level, and hands the guest binaries and native outputs to h_prog."""
import os, random, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import vrun, gen_prog

COMMON = ["-w", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-std=gnu11"]
OPTS = ["-O0", "-O1", "-O2", "-O2", "-O3", "-O3", "-Os", "-Og"]
SIMD = ["-msimd=none", "-msimd=none", "-mlsx", "-mlasx"]
EXTRA = [[], [], [], ["-funroll-loops"], ["-fno-inline"], ["-fomit-frame-pointer", "-fno-jump-tables"], ["-mcmodel=medium"], ["-mno-relax"], ["-ftree-vectorize"], ["-fno-tree-vectorize"]]
NATIVE_ENV = {"LC_ALL": "C", "VERIF_ENV": "some value"}

def make(tmp, seed):
    """one program: returns a list line, or None with a reason"""
    r = random.Random(seed ^ 0x51ed); src, fns = gen_prog.program(seed); base = os.path.join(tmp, "p%d" % seed)
    with open(base + ".c", "w") as f: f.write(src)
    flags = [r.choice(OPTS), r.choice(SIMD)] + r.choice(EXTRA)
    # two independent native compilers: a function they do not agree on is no oracle
    nat = []
    for cc in (["gcc", "-O0"], ["gcc", "-O1"], ["clang", "-O1"]):
        if len(nat) == 1 and cc[0] == "gcc": continue
        p = subprocess.run(cc + COMMON + [base + ".c", "-o", base + ".nat" + cc[0], "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0: nat.append(base + ".nat" + cc[0])
        elif "internal compiler error" not in p.stdout: raise vrun.BuildError("generated program %d does not compile natively (%s): %s" % (seed, cc[0], p.stdout[-800:]))
    if len(nat) < 2: return None, "a host compiler crashes on program %d" % seed
    p = subprocess.run([vrun.GUEST_CC] + flags + COMMON + ["-static", "-Wl,-Ttext-segment=0x200000", base + ".c", "-o", base + ".elf", "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, "guest compiler refuses program %d with %s: %s" % (seed, " ".join(flags), p.stdout[-300:])
    return reference(base, fns, r, flags, nat)

def sections(out, names):
    v = []; cur = b""
    for l in out.split(b"\n"):
        cur += l + b"\n"; f = l.split(b" ")
        if len(f) == 2 and len(f[1]) == 16 and f[0].decode(errors="replace") in names: v.append((f[0].decode(), cur)); cur = b""
    return v

def reference(base, fns, r, flags, nat):
    args = [str(r.randrange(1, 1 << 30)), "0"] + [r.choice(["a", "hello", "x" * 60, "--opt=1", "-", "0x7f"]) for _ in range(r.randrange(4))]
    names = ["start", "args"] + fns; outs = []
    for n in nat:
        p = subprocess.run([n] + args, stdout=subprocess.PIPE, env=NATIVE_ENV, timeout=60, stdin=subprocess.DEVNULL)
        if p.returncode < 0: raise vrun.BuildError("generated program %s dies natively with signal %d" % (base, -p.returncode))
        outs.append((p.returncode, p.stdout)); os.unlink(n)
    if len(outs) == 2:
        a, b = (sections(o, names) for c, o in outs)
        bad = {x[0] for x, y in zip(a, b) if x != y}
        if len(a) != len(b) or outs[0][0] != outs[1][0]: raise vrun.BuildError("native runs of %s end differently" % base)
        mask = sum(1 << i for i, f in enumerate(fns) if f in bad); args[1] = "%x" % mask
    with open(base + ".ref", "wb") as f: f.write(outs[0][1])
    return "\t".join([base + ".elf", base + ".ref", str(outs[0][0]), " ".join(args), ",".join(names)]), " ".join(flags), bin(int(args[1], 16)).count("1")

CXX_FLAGS = ["-w", "-std=gnu++20", "-ffp-contract=off"]
def make_cxx(tmp, name, seed, flags):
    """the fixed C++ program, with other arguments and optimisation"""
    r = random.Random(seed ^ 0x77); base = os.path.join(tmp, "%s%d" % (name, seed)); src = os.path.join(vrun.VERIF, "guest", name + ".cpp")
    fns = [l.split("SECTION(")[1].split(")")[0] for l in open(src) if l.startswith("SECTION(")]
    p = subprocess.run(["g++", "-O1"] + CXX_FLAGS + [src, "-o", base + ".nat", "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise vrun.BuildError("%s natively: %s" % (name, p.stdout[-800:]))
    p = subprocess.run([vrun.GUEST_CXX] + flags + CXX_FLAGS + ["-static", "-Wl,-Ttext-segment=0x200000", src, "-o", base + ".elf", "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise vrun.BuildError("%s for the guest: %s" % (name, p.stdout[-800:]))
    return reference(base, fns, r, flags, [base + ".nat"])

def programs(res, tier, seed, only=None, sup="", count=(120, 1500), cxx=True, jobs=None):
    tmp = tempfile.mkdtemp(prefix="vprog.")
    try:
        if only: seeds = only["seeds"]
        else: n = count[tier == "thorough"]; seeds = [seed * 1000000 + i for i in range(n)]
        for lo in range(0, len(seeds), 400):
            batch = seeds[lo:lo + 400]; lines = []; idx = []
            with ThreadPoolExecutor(vrun.NPROC) as ex:
                work = [(s, ex.submit(make, tmp, s)) for s in batch if s >= 0] + [(s, ex.submit(make_cxx, tmp, "prog", -s, [["-O2"], ["-O0"], ["-O3", "-mlasx"], ["-Os", "-msimd=none"]][-s % 4])) for s in (batch if only else [-1, -2, -3, -4] if lo == 0 and cxx else []) if s < 0]
                for s, f in work:
                    l, why, *amb = f.result()
                    if l is None: res.stat("compiler_refused"); res.notes.append(why[:300]); continue
                    res.stat("compiled"); res.stat("functions_without_oracle", amb[0]); res.saw("flags", why); lines.append(l); idx.append(s)
            lf = os.path.join(tmp, "list%d" % lo); open(lf, "w").write("\n".join(lines) + "\n")
            sub = vrun.Result(); vrun.run_jobs(sub, jobs(lf, sup), seed)
            for v in sub.viols: # the replay names the generator's seeds, not files
                try: s = [idx[int(v["replay"]["case"])]]
                except Exception: s = idx
                res.add_viol(v["key"], v["detail"], dict(kind="fn", seed=seed, seeds=s))
            for k, n in sub.stats.items(): res.stat(k, n) if k != "violations_seen" else None
            for k, s in sub.seen.items(): res.seen.setdefault(k, set()).update(s)
            res.samples += sub.samples[:4]; res.notes += sub.notes; res.errors += sub.errors; res.done += sub.done
            for f in os.listdir(tmp):
                p = os.path.join(tmp, f)
                if os.path.isfile(p): os.unlink(p)
    finally: shutil.rmtree(tmp, ignore_errors=True)
