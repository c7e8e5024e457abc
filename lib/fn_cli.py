"""Command line monitor: random sessions of laemu, judged by the same program run natively."""
import concurrent.futures, os, random, re, shutil, subprocess, tempfile
import vrun

ENV = {"LC_ALL": "C", "USER": "groot"}
FAULTS = ["!null", "!far", "!jump", "!text", "!ill", "!abort", "!stack"]

def native(src):
    key = vrun.tree_hash([os.path.dirname(src)]); name = "cli_native@" + key; out = os.path.join(vrun.BUILD, name)
    with vrun.Lock("cli_native"):
        if not os.path.exists(out):
            vrun._prune("cli_native", name)
            r = vrun.sh(["gcc", "-O2", "-w", src, "-o", out + ".tmp"])
            if r.returncode: raise vrun.BuildError("native cli program: " + r.stdout[-2000:])
            os.rename(out + ".tmp", out)
    return out

def text(r):
    k = r.randrange(12)
    if k == 0: return r.choice(["-s", "-v", "--help", "-f", "--fuel", "--", "-", "-m", "-x", "--unknown", "--stats", "-h", "-n5", "--memory=1"])
    if k == 1: return ""
    if k == 2: return "".join(chr(r.choice([0x20, 0x41, 0xe9, 0x4e2d, 0x1f600, 9, 34, 92, 37])) for _ in range(r.randrange(20)))
    if k == 3: return "x" * r.choice([1, 7, 8, 15, 16, 100, 4095, 4096, 5000])
    return "".join(r.choice("abcdefghijklmnop=/.%s\\n -") for _ in range(r.randrange(1, 30)))

def action(r):
    k = r.randrange(10)
    if k == 0: return "args"
    if k == 1: return "out=%d" % r.randrange(10 ** r.randrange(1, 8))
    if k == 2: return "say=" + text(r).replace("%", "")
    if k == 3: return "spin=%d" % r.randrange(10 ** r.randrange(1, 6))
    if k == 4: return "heap=%d" % r.randrange(1000)
    if k == 5: return "deep=%d" % r.randrange(1, 200)
    if k == 6: return "flush"
    return text(r)

def ending(r):
    k = r.randrange(5); c = r.choice([0, 1, 2, 3, 127, 128, 255, 256, 300, -1, -2, 1000000, r.randrange(256)])
    return [] if k == 0 else ["exit=%d" % c] if k == 1 else ["_exit=%d" % c] if k == 2 else ["ret=%d" % c] if k == 3 else [r.choice(FAULTS)]

def options(r):
    """(argv, meaning)"""
    o, m = [], dict(silent=False, fuel=None, mem=4096, verbose=False, precise=False, stats=False, timing=False)
    for _ in range(r.randrange(5)):
        k = r.randrange(12)
        if k == 0: o.append(r.choice(["-s", "--silent"])); m["silent"] = True
        elif k == 1: o.append(r.choice(["-t", "--timing"])); m["timing"] = True
        elif k == 2: o.append("--precise"); m["precise"] = True
        elif k == 3: o.append("--stats"); m["stats"] = True
        elif k == 4: o.append(r.choice(["-n", "--no-translate", "--no-regcache", "--fast", "--nbit-as", "-T", "--trace"]))
        elif k in (5, 6):
            v = r.choice(["0", "max", "MAX", "18446744073709551615", str(10 ** 12), "5000000000"]); m["fuel"] = 0 if v == "0" else 10 ** 12
            o += r.choice([["-f", v], ["-f" + v], ["--fuel", v], ["--fuel=" + v]])
        elif k in (7, 8):
            v = r.choice([64, 100, 512, 1024, 4096]); m["mem"] = v
            o += r.choice([["-m", str(v)], ["-m%d" % v], ["--memory", str(v)], ["--memory=%d" % v]])
        elif k == 9 and r.randrange(3) == 0: o.append(r.choice(["-v", "--verbose"])); m["verbose"] = True
        elif k == 10: o += r.choice([["-st"], ["-nt"], ["-sn"]]); m["silent"] |= "s" in o[-1]; m["timing"] |= "t" in o[-1]
    return o, m

def run(cmd, cwd, limit=60, executable=None, env=None):
    try:
        p = subprocess.run(cmd, executable=executable, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, cwd=cwd, env=env or dict(os.environ, **vrun.SAN_ENV))
        return p.returncode, p.stdout, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return None, e.stdout or b"", "no end within %d s" % limit

EXIT = re.compile(rb"Program exited with code (-?\d+)(?: after (\d+) instructions \([^\n]*\)| \([\d.]+ seconds\))?\n\Z")
def split(out, meaning):
    """guest output, exit code line's number, count"""
    m = EXIT.search(out); body = out[:m.start()] if m else out
    if meaning["stats"]:
        i = body.rfind(b"\n=== Bytecode Usage Statistics ===")
        if i >= 0: return body[:i], m, body[i:]
    return body, m, b""

def check_stats(t):
    rows = re.findall(rb"^(\S+) +(\d+) +([\d.]+)%", t, re.M); tot = re.search(rb"Total instructions in cache: (\d+)", t)
    if not rows or not tot: return "no table: %r" % t[:200]
    s = sum(int(x[1]) for x in rows)
    if s != int(tot.group(1)): return "rows add up to %d, total says %s" % (s, tot.group(1).decode())
    for n, c, p in rows:
        if abs(float(p) - 100.0 * int(c) / s) > 0.006: return "%s: %s of %d is not %s%%" % (n.decode(), c.decode(), s, p.decode())
    names = [x[0] for x in rows if x[0] != b"FUNCTION"]
    if len(set(names)) != len(names): return "a row occurs twice"
    if [int(x[1]) for x in rows] != sorted((int(x[1]) for x in rows), reverse=True): return "rows are not sorted"
    return ""

class Session:
    def __init__(self, res, seed, n, tools): self.res, self.n, self.r, self.t = res, n, random.Random(seed * 1000003 + n), tools; self.rep = dict(kind="fn", seed=seed, case=n)
    def bad(self, key, cmd, detail): self.res.add_viol("cli:" + key, "laemu %s: %s" % (" ".join(repr(x)[1:-1] if len(x) < 60 else repr(x[:50]) + "..." for x in cmd[1:]), detail), self.rep)
    def emu(self): return self.t["asan"] if self.r.randrange(6) == 0 else self.t["plain"]
    def clean(self, cmd, rc, err):
        if rc is None: self.bad("endless", cmd, err); return False
        if rc < 0: self.bad("signal", cmd, "killed by signal %d; %s" % (-rc, err[-300:])); return False
        if rc == 99 and "Sanitizer" in err or "runtime error:" in err: self.bad(vrun.crash_key(err, rc), cmd, err[:1200]); return False
        return True
    def play(self):
        r = self.r; self.res.stat("sessions"); [self.programs, self.programs, self.programs, self.fuel, self.fuel, self.hostile][r.randrange(6)]()
    def programs(self):
        r = self.r; acts = [action(r) for _ in range(r.randrange(0, 8))] + ending(r); fault = bool(acts) and acts[-1] in FAULTS
        if r.randrange(20) == 0: acts = [text(r) for _ in range(r.randrange(150))] + acts
        want = run([self.t["guest"]] + acts, self.t["dir"], executable=self.t["native"], env=ENV); assert want[0] is not None and want[0] >= 0, (acts, want)
        counts = {}
        for _ in range(3):
            o, m = options(r); cmd = [self.emu()] + o + (["--"] if r.randrange(6) == 0 else []) + [self.t["guest"]] + acts; rc, out, err = run(cmd, self.t["dir"]); self.res.stat("runs")
            if not self.clean(cmd, rc, err): continue
            body, ex, st = split(out, m); code = 255 if fault else want[0]
            if rc != code: self.bad("status", cmd, "exit status %d, the program ends with %d; %s" % (rc, code, err[-200:]))
            if m["verbose"]:
                self.res.stat("verbose_runs")
                if sum(map(len, acts)) < 1500 and not all(b"  " + a.encode() + b"\n" in out for a in acts): self.bad("verbose", cmd, "an argument is missing from the list")
            elif body != want[1]: self.bad("output", cmd, "%d bytes of program output, natively %d; first difference at %d: %r, natively %r" % (len(body), len(want[1]), next((i for i, (a, b) in enumerate(zip(body, want[1])) if a != b), min(len(body), len(want[1]))), body[-60:], want[1][-60:]))
            if fault:
                self.res.stat("faults"); self.res.saw("fault_kinds", (acts[-1], m["precise"], err[:40]))
                if "Machine exception: " not in err: self.bad("fault:message", cmd, "stderr %r" % err[:200])
                if ex: self.bad("fault:exited", cmd, ex.group(0).decode())
                continue
            if "Sanitizer" not in err and err and not m["verbose"]: self.bad("stderr", cmd, "stderr %r" % err[:200])
            if m["silent"] == bool(ex): self.bad("report", cmd, "exit line %s" % (ex.group(0) if ex else "missing"))
            if ex:
                given = re.fullmatch(r"(?:exit|_exit|ret)=(-?\d+)", acts[-1]) if acts else None # the number the program gave, or the status it became
                if int(ex.group(1)) not in (code, int(given.group(1)) if given else code): self.bad("report:code", cmd, ex.group(0).decode())
                if m["fuel"] and not ex.group(2): self.bad("report:count", cmd, ex.group(0).decode())
                if ex.group(2): counts.setdefault((m["mem"], m["precise"]), {}).setdefault(int(ex.group(2)), cmd)
            if m["stats"] and not m["precise"]:
                e = check_stats(st); self.res.stat("statistics")
                if e: self.bad("stats", cmd, e)
            self.res.saw("outcomes", (want[0], len(want[1]), tuple(sorted(m.items(), key=str))))
        for mem, c in counts.items():
            if len(c) > 1: self.bad("counts", list(c.values())[0], "%s instructions in different runs" % sorted(c))
    def fuel(self):
        """a budget below, at and above what the program needs"""
        r = self.r; acts = [action(r) for _ in range(r.randrange(1, 5))] + ["spin=%d" % r.randrange(500, 20000), "_exit=%d" % r.randrange(256)]
        prec = ["--precise"] if r.randrange(3) == 0 else []; cmd = [self.t["plain"], "-f", "max"] + prec + ["-m", "256", self.t["guest"]] + acts; rc, out, err = run(cmd, self.t["dir"])
        if not self.clean(cmd, rc, err): return
        body, ex, _ = split(out, dict(stats=False)); n = int(ex.group(2)) if ex and ex.group(2) else 0
        if not n: self.bad("report:count", cmd, "no instruction count in %r" % out[-120:]); return
        for _ in range(3):
            f = r.choice([n + r.randrange(1, 5000), n * 3, r.randrange(1, n), r.randrange(1, n), max(1, n // 2), 1]); opt = [r.choice(["-f", "--fuel"]), str(f)] + prec + (["-s"] if r.randrange(4) == 0 else []); cmd = [self.emu()] + opt + ["-m", "256", self.t["guest"]] + acts
            rc, out2, err = run(cmd, self.t["dir"]); self.res.stat("fuel_runs")
            if not self.clean(cmd, rc, err): continue
            body2, ex2, _ = split(out2, dict(stats=False)); to = re.search(r"Execution timeout after (\d+) instructions", err)
            if f > n:
                if rc != int(acts[-1][6:]) or body2 != body or ("-s" not in opt and (not ex2 or int(ex2.group(2)) != n)): self.bad("fuel:enough", cmd, "needs %d instructions, status %d, %r %r" % (n, rc, out2[-120:], err[:120]))
                self.res.stat("fuel_enough")
            elif f < n - 3000:
                self.res.stat("fuel_exhausted")
                if rc != 255 or ex2: self.bad("fuel:status", cmd, "needs %d instructions, status %d, %r" % (n, rc, out2[-120:]))
                elif not body.startswith(body2): self.bad("fuel:output", cmd, "output is no prefix of the whole run's")
                elif "-s" not in opt and (not to or not f <= int(to.group(1)) < f + 3000): self.bad("fuel:report", cmd, "stderr %r" % err[:200])
    def hostile(self):
        """files, options and sizes that cannot work: an error on stderr and the documented status, never a crash"""
        r = self.r; k = r.randrange(8); d = self.t["dir"]; path = os.path.join(d, "f%d" % self.n); image = self.t["image"]; need = (1,)
        if k == 0: cmd = [r.choice(["/nonexistent/x", "", d, "/dev/null", os.path.join(d, "nothing")])]
        elif k == 1:
            b = r.choice([b"", b"\x7f", b"\x7fELF", os.urandom(0) + bytes(r.randrange(256) for _ in range(r.randrange(200))), b"#!/bin/sh\n", b"\x7fELF" + bytes([r.choice([0, 1, 3, 255])]) + image[5:5 + r.randrange(len(image))]])
            open(path, "wb").write(b); cmd = [path]
        elif k == 2: cmd = r.choice([[], ["-f"], ["--bogus", self.t["guest"]], ["-Z", self.t["guest"]], ["-m"], ["-s"], ["--fuel"], ["-sZ", self.t["guest"]], ["--"]])
        elif k == 3: cmd = [r.choice(["-h", "--help", "-sh", "--hel"])] + r.choice([[], [self.t["guest"]]]); need = (0,)
        elif k in (4, 5):
            b = bytearray(image); lim = r.choice([64, 64 + 56 * 8, len(b)])
            for _ in range(r.randrange(1, 6)):
                p = r.randrange(5, lim) if r.randrange(4) else r.randrange(5, 64); v = r.choice([0, 255, 1, 127, 128, r.randrange(256)])
                if r.randrange(3) == 0: b[p:p + 8] = r.choice([b"\xff" * 8, b"\0" * 8, b"\0\0\0\0\0\0\0\x80", b"\xff\xff\xff\xff\0\0\0\0"])
                else: b[p] = v
            if r.randrange(3) == 0: b = b[:r.randrange(6, len(b))]
            open(path, "wb").write(bytes(b)); cmd = ["-f", "3000000", "-m", r.choice(["64", "512"]), path, "args", "heap=3"]; need = None
        elif k == 6: cmd = ["-f", "1000000", r.choice(["-m0", "-m1", "-m2", "-mabc", "-m", "--memory=0"])]; cmd += ["3"] * (cmd[-1] == "-m") + [self.t["guest"], "args"]; need = (1, 255)
        else: cmd = ["-m", str(r.choice([1 << 30, 1 << 36, (1 << 43) - 1, 1 << 44, 10 ** 15, 2 ** 64 - 1])), "-f", "1000000", self.t["guest"]]; need = (0, 1, 255)
        cmd = [self.t["plain"] if k == 0 else self.emu()] + cmd
        try:
            rc, out, err = run(cmd, d); self.res.stat("hostile")
            if not self.clean(cmd, rc, err): return
            self.res.saw("refusals", (k, rc, err.split(":")[0][:30]))
            if need and rc not in need: self.bad("refusal:status", cmd, "status %d, expected %s; %r %r" % (rc, need, out[:100], err[:100]))
            elif need and 0 not in need and not err.strip(): self.bad("refusal:silent", cmd, "no message")
            elif k == 3 and b"Usage" not in out: self.bad("help", cmd, "%r" % out[:100])
        finally:
            if os.path.exists(path): os.unlink(path)

def sessions(res, tier, seed, only=None, count=(6000, 60000)):
    g = vrun.build_guest("cli.c", "-O2 -static -w -Wl,-Ttext-segment=0x200000")
    tmp = tempfile.mkdtemp(prefix="vcli.")
    try:
        t = dict(plain=vrun.build_emulator("plain"), asan=vrun.build_emulator("asan"), native=native(os.path.join(vrun.VERIF, "guest", "cli.c")), dir=tmp, guest=os.path.join(tmp, "prog.elf"))
        shutil.copy(g, t["guest"]); t["image"] = open(g, "rb").read()
        todo = [only["case"]] if only else range(count[tier == "thorough"])
        def one(n):
            if sum(v["key"].startswith("cli:endless") for v in res.viols) > 3 or res.stats.get("violations_seen", 0) > 400: return
            Session(res, seed, n, t).play()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(one, n) for n in todo]: f.result()
    finally: shutil.rmtree(tmp, ignore_errors=True)
