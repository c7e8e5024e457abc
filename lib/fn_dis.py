"""Disassembly round trip: every printed instruction must assemble back to the same word."""
import os, re, subprocess, tempfile, shutil, struct
import vrun

# branch aliases this assembler does not know
ALIAS = {"bgez": ("bge", "{0}, $zero, {1}"), "blez": ("bge", "$zero, {0}, {1}"), "bltz": ("blt", "{0}, $zero, {1}"), "bgtz": ("blt", "$zero, {0}, {1}")}
def norm(text, pc):
    t = text.split("#")[0].strip()
    m = re.match(r"(\S+)\s*(.*)", t)
    op, args = m.group(1), [a.strip() for a in m.group(2).split(",") if a.strip()]
    if op in ALIAS and len(args) == 2: return ALIAS[op][0], [ALIAS[op][1].format(*args)]
    return op, args

def assemble(lines, tmp):
    """returns dict index -> word for the lines the assembler accepts, and index -> error"""
    src, obj, raw = (os.path.join(tmp, x) for x in ("a.s", "a.o", "a.bin"))
    bad = {}; live = list(range(len(lines)))
    for _ in range(6):
        with open(src, "w") as f:
            for i in live: f.write(lines[i] + "\n")
        p = subprocess.run(["loongarch64-linux-gnu-as", "-o", obj, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0: break
        errs = {}
        for m in re.finditer(r":(\d+): (?:Error|Fatal error): (.*)", p.stdout): errs.setdefault(int(m.group(1)) - 1, m.group(2))
        if not errs: raise RuntimeError("assembler: " + p.stdout[:500])
        for n, e in errs.items(): bad[live[n]] = e
        live = [x for n, x in enumerate(live) if n not in errs]
    else: raise RuntimeError("assembler keeps failing")
    subprocess.run(["loongarch64-linux-gnu-objcopy", "-O", "binary", "-j", ".text", obj, raw], check=True)
    b = open(raw, "rb").read(); words = struct.unpack("<%dI" % (len(b) // 4), b)
    if len(words) != len(live): raise RuntimeError("assembler produced %d words for %d lines" % (len(words), len(live)))
    return {x: words[n] for n, x in enumerate(live)}, bad

def roundtrip(res, tier, seed, only=None, sup=""):
    exe = vrun.build_harness("h_decode", "asan")
    tmp = tempfile.mkdtemp(prefix="vdis.")
    try:
        out = subprocess.run([exe, "--mode", "dump", "--supported", sup, "--rep", "60" if tier == "thorough" else "12", "--seed", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, **vrun.SAN_ENV), timeout=600)
        rep = dict(kind="fn", seed=seed)
        if out.returncode: res.add_viol(vrun.crash_key(out.stderr, out.returncode), out.stderr[:1500], rep); return
        items = []
        for l in out.stdout.splitlines():
            if l.startswith("DIS "):
                _, w, pc, t = l.split(" ", 3); items.append((int(w, 16), int(pc, 16), t))
        lines = []
        for w, pc, t in items:
            op, args = norm(t, pc); lines.append(op + " " + ", ".join(args))
        got, bad = assemble(lines, tmp)
        for i, (w, pc, t) in enumerate(items):
            op = t.split()[0]; res.stat("printed"); res.saw("mnemonics_printed", op)
            if i in bad:
                res.stat("assembler_rejects"); res.add_viol("unassemblable:" + op, "%08x prints as '%s': %s" % (w, t, bad[i]), rep); continue
            res.stat("assembled"); res.saw("roundtrips", w)
            if got[i] != w and not equivalent(w, got[i]): res.add_viol("roundtrip:" + op, "%08x prints as '%s', which assembles to %08x" % (w, t, got[i]), rep)
            m = re.search(r"# (?:0x)?([0-9a-f]+)", t)
            tgt = target(w, pc)
            if m and tgt is not None:
                res.stat("targets")
                if int(m.group(1), 16) != tgt: res.add_viol("target:" + op, "%08x at %#x prints '%s', its target is %#x" % (w, pc, t, tgt), rep)
            if i % 3001 == 7: res.sample("%08x <-> %s" % (w, t))
    finally: shutil.rmtree(tmp, ignore_errors=True)

def sx(v, bits): return v - (1 << bits) if v >> (bits - 1) & 1 else v
def target(w, pc):
    op = w >> 26
    if op in (0x14, 0x15): return (pc + (sx((w & 0x3ff) << 16 | (w >> 10 & 0xffff), 26) << 2)) & (2**64 - 1)
    if op in (0x10, 0x11, 0x12): return (pc + (sx((w & 0x1f) << 16 | (w >> 10 & 0xffff), 21) << 2)) & (2**64 - 1)
    if op in (0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b): return (pc + (sx(w >> 10 & 0xffff, 16) << 2)) & (2**64 - 1)
    return None
def equivalent(w, g):
    """pseudo-instructions the printer uses that the assembler expands differently"""
    def mv(x): # register moves
        if x >> 15 == 0x2a and x >> 10 & 31 == 0: return (x & 31, x >> 5 & 31)     # or rd, rj, zero
        if x >> 22 == 0xe and x >> 10 & 0xfff == 0: return (x & 31, x >> 5 & 31)   # ori rd, rj, 0
        if x >> 22 == 0xb and x >> 10 & 0xfff == 0: return (x & 31, x >> 5 & 31)   # addi.d rd, rj, 0
        return None
    def li(x): # small constants
        if x >> 5 & 31: return None
        if x >> 22 in (0xa, 0xb): return (x & 31, sx(x >> 10 & 0xfff, 12))
        if x >> 22 == 0xe: return (x & 31, x >> 10 & 0xfff)
        if x >> 15 == 0x2a and x >> 10 & 31 == 0: return (x & 31, 0)
        return None
    return (mv(w) is not None and mv(w) == mv(g)) or (li(w) is not None and li(w) == li(g))
