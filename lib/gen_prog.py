"""Random C programs with defined behaviour: the same source runs natively (the oracle) and in the emulator."""
import random

PRELUDE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <setjmp.h>
#include <math.h>
#include <wchar.h>
typedef int8_t i8; typedef uint8_t u8; typedef int16_t i16; typedef uint16_t u16; typedef int32_t i32; typedef uint32_t u32; typedef int64_t i64; typedef uint64_t u64; typedef float f32; typedef double f64; typedef __int128 i128; typedef unsigned __int128 u128;
#define NI __attribute__((noinline))
static u64 H; static volatile u64 vzero = 0;
static u64 S; static u64 rnd(void) { u64 z = (S += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void mixu(u64 x) { H = (H ^ x) * 0x100000001b3ull; H ^= H >> 29; }
static void mixd(f64 d) { u64 u; if (d != d) u = 0x7ff8000000000000ull; else memcpy(&u, &d, 8); mixu(u); }
static void mixf(f32 d) { u32 u; if (d != d) u = 0x7fc00000u; else memcpy(&u, &d, 4); mixu(u); }
static void mixb(const void* p, size_t n) { const u8* b = p; for (size_t i = 0; i < n; i++) mixu(b[i]); }
#define MIX(x) _Generic((x), f32: mixf, f64: mixd, default: mixu)(x)
#define DIV(T, a, b) ({ T a_ = (a), b_ = (b); (b_ == 0 || b_ == (T)-1) ? (T)(a_ ^ b_) : (T)(a_ / b_); })
#define MOD(T, a, b) ({ T a_ = (a), b_ = (b); (b_ == 0 || b_ == (T)-1) ? (T)(a_ + b_) : (T)(a_ % b_); })
#define F2I(T, lo, hi, x) ({ f64 x_ = (x); (x_ > lo && x_ < hi) ? (T)x_ : (T)7; })
static u64 interesting(void) { static const u64 t[] = {0, 1, 2, 127, 128, 255, 32767, 32768, 65535, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, ~0ull, ~1ull, 0xffffffff80000000}; u64 a = rnd(), b = rnd(); return a & 1 ? t[b % 17] : b >> (a >> 8 & 63); }
#ifdef __clang__
#define SHUF(V, n, a, b, m) ({ V o_; for (int i_ = 0; i_ < n; i_++) { unsigned q_ = m[i_] & (2 * n - 1); o_[i_] = q_ < n ? a[q_] : b[q_ - n]; } o_; })
#else
#define SHUF(V, n, a, b, m) __builtin_shuffle(a, b, m)
#endif
static f64 fnum(void) { static const f64 t[] = {0, -0.0, 1, -1, 0.5, 1.5, 2.5, -2.5, 3.75, 1e10, -1e10, 1e-10, 123456789.125, 1e300, 1e-300, 4.9e-324}; switch (rnd() & 7) { case 0: return t[rnd() & 15]; case 1: return (f64)(i32)rnd(); case 2: return (f64)(i64)rnd() / 4096.0; default: return (f64)((i64)rnd() >> 40) / 256.0; } }
static f32 fnumf(void) { static const f32 t[] = {0, -0.0f, 1, -1, 0.5f, 1.5f, 2.5f, -2.5f, 3e38f, 1e-45f, 1e-38f, 16777217.0f}; switch (rnd() & 7) { case 0: return t[rnd() % 12]; case 1: return (f32)(i32)rnd(); default: return (f32)((i32)rnd() >> 12) / 64.0f; } }
static void report(const char* n) { printf("%s %016llx\n", n, (unsigned long long)H); fflush(stdout); H = 1469598103934665603ull; }
'''
INT = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]; FLT = ["f32", "f64"]; WIDE = ["i32", "u32", "i64", "u64"]
BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "f32": 32, "f64": 64}
RANGE = {"i8": ("-129.0", "128.0"), "u8": ("-1.0", "256.0"), "i16": ("-32769.0", "32768.0"), "u16": ("-1.0", "65536.0"), "i32": ("-2147483649.0", "2147483648.0"), "u32": ("-1.0", "4294967296.0"), "i64": ("-9.2e18", "9.2e18"), "u64": ("-1.0", "1.8e19")}

def f_args(args): return " ".join("%s a%d = %s;" % (t, i, {"f32": "fnumf()", "f64": "fnum()"}.get(t, "(%s)interesting()" % t)) for i, t in enumerate(args))
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed); self.out = []; self.funcs = []; self.calls = []; self.n = 0
        self.len = self.r.choice([33, 64, 67, 100, 129]); self.kinds = set()
    def w(self, s): self.out.append(s)
    def const(self, t):
        r = self.r
        if t in FLT: return r.choice(["0.0", "1.0", "-1.5", "3.25", "0.1", "1e6", "-7.0", "0.5"]) + ("f" if t == "f32" else "")
        v = r.choice([r.randrange(16), r.randrange(256), r.getrandbits(12), r.getrandbits(16), r.getrandbits(32), r.getrandbits(64), 0x7fffffff, 0x80000000, (1 << 63), (1 << 64) - 1, 0x800, 0x7ff, 0xfffff000, 1 << r.randrange(64)])
        return "(%s)%dull" % (t, v)
    # an expression of type t over the readable names env: name -> type
    def expr(self, t, env, d, pure=False):
        r = self.r
        names = [n for n, ty in env.items() if ty == t]
        if d <= 0 or r.random() < 0.12:
            if names and r.random() < 0.8: return r.choice(names)
            if env and r.random() < 0.6: return self.conv(t, *r.choice(list(env.items())))
            return self.const(t)
        e = lambda ty=t, dd=d - 1: self.expr(ty, env, dd, pure)
        if t in FLT:
            f = "f" if t == "f32" else ""; k = r.randrange(15)
            if k < 6: return "(%s %s %s)" % (e(), r.choice("+-*/"), e())
            if k in (6, 8, 11) and r.random() < .85: k = r.choice([0, 9, 10, 12, 13])
            if k < 6: return "(%s %s %s)" % (e(), r.choice("+-*/"), e())
            if k == 6: return "__builtin_sqrt%s(%s)" % (f, e())
            if k == 7: return "__builtin_%s%s(%s)" % (r.choice(["fabs", "fabs", "fabs", "floor", "ceil", "trunc", "rint"]), f, e())
            if k == 8: return "__builtin_copysign%s(%s, %s)" % (f, e(), self.const(t))
            if k == 9: return "__builtin_fma%s(%s, %s, %s)" % (f, e(), e(), e())
            if k == 10: return "(%s %s %s ? %s : %s)" % (e(), r.choice(["<", "<=", ">", ">=", "==", "!="]), e(), e(), e())
            if k == 11: return "(- %s)" % e()
            if k == 12: s = r.choice(INT); return "((%s)%s)" % (t, e(s))
            if k == 13: s = "f64" if t == "f32" else "f32"; return "((%s)%s)" % (t, e(s))
            return "(%s(%s, %s) ? %s : %s)" % (r.choice(["isless", "isunordered", "islessgreater", "isgreaterequal"]), e(), e(), e(), e())
        k = r.randrange(26); T = t if t in WIDE else r.choice(WIDE)
        c = lambda x: "((%s)%s)" % (T, x)
        if k < 9: return "((%s)(%s %s %s))" % (t, c(e()), r.choice(["+", "-", "*", "&", "|", "^", "+", "-"]), c(e()))
        if k < 11: return "((%s)(%s %s (%s & %d)))" % (t, c(e()), r.choice(["<<", ">>"]), e(), BITS[T] - 1)
        if k == 11: return "((%s)(%s %s %d))" % (t, c(e()), r.choice(["<<", ">>"]), r.randrange(BITS[T]))
        if k == 12: return "((%s)%s(%s, %s, %s))" % (t, r.choice(["DIV", "MOD"]), T, e(), e())
        if k == 13: return "((%s)DIV(%s, %s, %s))" % (t, T, e(), "%d" % r.choice([3, 5, 7, 10, 16, 100, 255, 641, 1000, 65537, -3, -8]) if T[0] == "i" else "%du" % r.choice([3, 5, 7, 10, 16, 100, 255, 641, 1000, 65537]))
        if k == 14: s = r.choice(INT); return "((%s)(%s %s %s))" % (t, e(s), r.choice(["<", "<=", ">", ">=", "==", "!="]), e(s))
        if k == 15: return "(%s %s %s ? %s : %s)" % (e(), r.choice(["<", "<=", ">", ">=", "==", "!="]), e(), e(), e())
        if k == 16: return "((%s)~%s)" % (t, e())
        if k == 17: s = r.choice(INT); return "((%s)%s)" % (t, e(s))
        if k == 18: return "((%s)__builtin_%s(%s | 1))" % (t, r.choice(["clzll", "ctzll", "popcountll"]), "(u64)" + e()) if r.random() < .6 else "((%s)__builtin_%s((u32)%s | 1))" % (t, r.choice(["clz", "ctz", "popcount", "parity"]), e())
        if k == 19: return "((%s)__builtin_bswap%d(%s))" % (t, r.choice([16, 32, 64]), e())
        if k == 20: s = r.choice(FLT); return "F2I(%s, %s, %s, %s)" % ((t,) + RANGE[t] + (e(s),))
        if k == 21: n = r.choice([32, 64]); U = "u%d" % n; return "((%s)({ %s a_ = %s; u32 n_ = %s & %d; (%s)((a_ << n_) | (a_ >> ((%d - n_) & %d))); }))" % (t, U, e(), e(), n - 1, U, n, n - 1)
        if k == 22: return "((%s)(((%s)%s * (%s)%s) >> 64))" % ((t,) + r.choice([("i128", "(i64)" + e(), "i128", "(i64)" + e()), ("u128", "(u64)" + e(), "u128", "(u64)" + e())]))
        if k == 23: return "((%s)((%s << %d >> %d)))" % (t, "(u64)" + e(), *(lambda a: (a, r.randrange(a, 64)))(r.randrange(64)))
        if k == 24: s = r.choice(["i64", "u64"]); lo = "(i64)" if s == "i64" else "(u64)"; return "((%s)(%s > %s ? %s : %s))" % (t, lo + e(), lo + e(), e(), e())
        if not pure and self.calls: f, args, ret = r.choice(self.calls); return self.conv(t, "%s(%s)" % (f, ", ".join(self.expr(a, env, d - 2, pure) for a in args)), ret)
        return "((%s)(- %s))" % (t, c(e()))
    def conv(self, t, x, ty):
        if t in INT and ty in FLT: return "F2I(%s, %s, %s, %s)" % ((t,) + RANGE[t] + (x,))
        return "((%s)%s)" % (t, x)
    def name(self, p): self.n += 1; return "%s%d" % (p, self.n)
    def arrays(self):
        self.arr = {}
        for t in INT + FLT:
            for k in range(2):
                n = "g_%s_%d" % (t, k); self.arr[n] = t; self.w("static %s %s[%d] __attribute__((aligned(%d)));" % (t, n, self.len + 8, self.r.choice([8, 16, 32]) ))
        self.w("static void fill(void) {")
        for n, t in self.arr.items(): self.w("\tfor (int i = 0; i < %d; i++) %s[i] = %s;" % (self.len + 8, n, "fnum()" if t == "f64" else "fnumf()" if t == "f32" else "(%s)interesting()" % t))
        self.w("}")
    def begin(self, kind): f = self.name(kind); self.kinds.add(kind); self.funcs.append(f); return f
    # loops GCC can vectorize
    def loop(self):
        r = self.r; f = self.begin("loop"); self.w("NI static void %s(int n) {" % f)
        for _ in range(r.randrange(1, 4)):
            dst = r.choice(list(self.arr)); t = self.arr[dst]; srcs = {}
            fam = r.choice([INT, INT, FLT, INT + FLT]) if t in INT else r.choice([FLT, INT + FLT])
            cands = [a for a in self.arr if self.arr[a] in fam and a != dst]; same = [a for a in cands if BITS[self.arr[a]] == BITS[t]]
            pool = same if same and r.random() < .6 else cands
            for a in r.sample(pool, min(2, len(pool))): srcs["%s[i%s]" % (a, r.choice(["", "", " + 1", " + 3"]))] = self.arr[a]
            if r.random() < .3: srcs["%s[i]" % dst] = t
            if r.random() < .3: srcs["(%s)i" % r.choice(["i32", "u64", "u8"])] = "i32"
            srcs = srcs or {"%s[i]" % dst: t}; k = r.randrange(8)
            if k < 5: self.w("\tfor (int i = 0; i < n; i%s) %s[i] = %s;" % (r.choice(["++", "++", "++", " += 2"]), dst, self.conv(t, self.expr(t, srcs, r.randrange(1, 4), True), t)))
            elif k == 5 and t in INT:
                a = r.choice(INT); self.w("\t{ %s s = %s; for (int i = 0; i < n; i++) s %s= (%s)%s; MIX((u64)s); }" % (a, self.const(a), r.choice(["+", "^", "|", "&", "*", "-"]), a, self.expr(t, srcs, 2, True)))
            elif k == 6: self.w("\t{ %s s = %s; for (int i = 0; i < n; i++) { %s x = %s; if (x %s s) s = x; } MIX(s); }" % (t, "%s[0]" % dst, t, self.expr(t, srcs, 1, True), r.choice("<>")))
            else: c = self.expr(t, srcs, 1, True); self.w("\tfor (int i = 0; i < n; i++) if (%s %s %s) %s[i] = %s;" % (c, r.choice(["<", ">", "==", "!="]), self.const(t), dst, self.expr(t, srcs, 2, True)))
            self.w("\tfor (int i = 0; i < n; i++) MIX(%s[i]);" % dst)
        self.w("}"); return "%s(%d); %s(%d);" % (f, self.len, f, r.randrange(self.len))
    def scalar(self):
        r = self.r; f = self.name("fn"); self.kinds.add("scalar"); args = [r.choice(INT + FLT) for _ in range(r.choice([1, 2, 3, 5, 9, 12]))]; ret = r.choice(INT + FLT)
        self.w("NI static %s %s(%s) {" % (ret, f, ", ".join("%s p%d" % (t, i) for i, t in enumerate(args))))
        env = {"p%d" % i: t for i, t in enumerate(args)}; self.impure = r.random() < .4
        for i in range(r.randrange(1, 5)): t = r.choice(INT + FLT); n = "l%d" % i; self.w("\t%s %s = %s;" % (t, n, self.expr(t, env, 2))); env[n] = t
        for _ in range(r.randrange(1, 5)): self.stmt(env, 2, 1)
        self.w("\treturn %s; }" % self.expr(ret, env, 3))
        if not self.impure: self.calls.append((f, args, ret)); self.calls = self.calls[-6:]
        g = self.begin("scalar"); self.w("NI static void %s(void) { for (int k = 0; k < 12; k++) { %s MIX(%s(%s)); } }" % (g, f_args(args), f, ", ".join("a%d" % i for i in range(len(args))))); return g + "();"
    def stmt(self, env, d, ind):
        r = self.r; p = "\t" * (ind + 0); n = r.choice(list(env)); t = env[n]; k = r.randrange(8) if d > 0 else 0
        if k < 3: self.w(p + "%s = %s;" % (n, self.expr(t, env, 3)))
        elif k == 3: self.w(p + "if (%s %s %s) {" % (self.expr(t, env, 2), r.choice(["<", ">", "==", "!=", "<=", ">="]), self.expr(t, env, 1))); self.stmt(env, d - 1, ind + 1); self.w(p + "} else {"); self.stmt(env, d - 1, ind + 1); self.w(p + "}")
        elif k == 4: v = self.name("k"); self.w(p + "for (int %s = 0; %s < %d; %s++) {" % (v, v, r.randrange(1, 6), v)); self.stmt(env, d - 1, ind + 1); self.w(p + "}")
        elif k == 5:
            s = r.choice(INT); m = r.choice([4, 7, 12, 20]); self.w(p + "switch ((u32)%s %% %d) {" % (self.expr(s, env, 1), m))
            for c in r.sample(range(m), r.randrange(3, m)) if m > 4 else range(m): self.w(p + "case %d: " % c); self.w(p + "%s = %s;" % (n, self.expr(t, env, 1))); self.w(p + ("break;" if r.random() < .7 else "/* fall */;"))
            self.w(p + "}")
        elif k == 6 and self.impure: a = r.choice(list(self.arr)); i = self.expr("u32", env, 1); self.w(p + "%s[%s %% %d] = %s;" % (a, i, self.len, self.expr(self.arr[a], env, 2)))
        else: a = r.choice(list(self.arr)); self.w(p + "%s = %s;" % (n, self.conv(t, "%s[%s %% %d]" % (a, self.expr("u32", env, 1), self.len), self.arr[a])))
    def structs(self):
        r = self.r; f = self.begin("struct"); s = self.name("S"); fields = [(r.choice(INT + FLT), "m%d" % i) for i in range(r.choice([1, 2, 2, 3, 6]))]; packed = r.random() < .3
        self.w("typedef struct %s{ %s } %s;" % ("__attribute__((packed)) " if packed else "", " ".join("%s %s;" % x if r.random() < .8 or x[0] in FLT else "%s %s : %d;" % (x[0], x[1], r.randrange(1, BITS[x[0]] + 1)) for x in fields), s))
        g = self.name("sf"); env = {"a.%s" % n: t for t, n in fields}; env.update({"b->%s" % n: t for t, n in fields}); env["c"] = "u64"
        self.w("NI static %s %s(%s a, u64 c, const %s* b, f64 d, %s e) { %s o = e;" % (s, g, s, s, s, s))
        for t, n in fields: self.w("\to.%s = %s;" % (n, self.expr(t, env, 2)))
        self.w("\treturn o; }")
        init = " ".join("y.%s = %s;" % (n, {"f32": "fnumf()", "f64": "fnum()"}.get(t, "interesting()")) for t, n in fields)
        mixes = " ".join("MIX((%s)x.%s); MIX((%s)y.%s);" % ((t if t in FLT else "u64", n) * 2) for t, n in fields)
        self.w("NI static void %s(void) { %s x, y, z; memset(&x, 0, sizeof x); y = z = x; for (int k = 0; k < 10; k++) { %s u64 q = rnd(); f64 d = fnum(); z = x; x = %s(y, q, &z, d, z); z = x; y = %s(x, k, &z, 1.5, y); %s } }" % (f, s, init, g, g, mixes)); return f + "();"
    def vext(self):
        r = self.r; f = self.begin("vector"); t = r.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]); size = r.choice([16, 32]); n = size * 8 // BITS[t]; V = self.name("V"); M = self.name("M"); mt = "i%d" % BITS[t]
        self.w("typedef %s %s __attribute__((vector_size(%d))); typedef %s %s __attribute__((vector_size(%d)));" % (t, V, size, mt, M, size))
        def ve(d):
            if d <= 0: return r.choice(["a", "b", "c", "a", "b", "(%s){%s}" % (V, ", ".join(["(%s)%s" % (t, r.randrange(-9, 100))] * n))])
            k = r.randrange(9)
            if t in FLT: return "(%s %s %s)" % (ve(d - 1), r.choice("+-*/"), ve(d - 1)) if k < 6 else "((%s)((%s)(%s %s %s) & (%s)%s))" % (V, M, ve(d - 1), r.choice(["<", "<=", "==", "!=", ">"]), ve(d - 1), M, ve(d - 1)) if k < 8 else "(-%s)" % ve(d - 1)
            if k < 4: return "(%s %s %s)" % (ve(d - 1), r.choice(["+", "-", "*", "&", "|", "^"]), ve(d - 1))
            if k == 4: return "(%s %s (%s & %d))" % (ve(d - 1), r.choice(["<<", ">>"]), ve(d - 1), BITS[t] - 1)
            if k == 5: return "(%s %s %d)" % (ve(d - 1), r.choice(["<<", ">>"]), r.randrange(BITS[t]))
            if k == 6: return "((%s)(%s %s %s))" % (V, ve(d - 1), r.choice(["<", "<=", "==", "!=", ">", ">="]), ve(d - 1))
            if k == 7: return "(%s %s ((%s & 63) | 1))" % (ve(d - 1), r.choice("/%"), ve(d - 1))
            return "(~%s)" % ve(d - 1)
        sh = "SHUF(%s, %d, a, b, m)" % (V, n) if r.random() < .5 else "__builtin_shufflevector(a, b, %s)" % ", ".join(str(r.randrange(2 * n)) for _ in range(n))
        self.w("NI static void %s(void) { for (int k = 0; k < 6; k++) { %s a, b, c, o; %s m; for (int i = 0; i < %d; i++) a[i] = %s, b[i] = %s, c[i] = %s, m[i] = rnd();" % ((f, V, M, n) + tuple({"f32": "fnumf()", "f64": "fnum()"}.get(t, "(%s)interesting()" % t) for _ in range(3))))
        for _ in range(3): self.w("\to = %s; for (int i = 0; i < %d; i++) MIX(o[i]);" % (ve(3), n))
        self.w("\to = %s; for (int i = 0; i < %d; i++) MIX(o[i]); a[%s] = o[k %% %d]; o = a %s b; for (int i = 0; i < %d; i++) MIX(o[i]);" % (sh, n, "k %% %d" % n if r.random() < .5 else r.randrange(n), n, r.choice("+-*"), n))
        if t in ("i32", "u32", "i64", "u64"): w = self.name("W"); self.w("\ttypedef f%d %s __attribute__((vector_size(%d))); %s q = __builtin_convertvector(a, %s); for (int i = 0; i < %d; i++) MIX(q[i]);" % (BITS[t], w, size, w, w, n))
        self.w("} }"); return f + "();"
    def library(self):
        r = self.r; f = self.begin("library"); k = r.randrange(9); self.w("NI static void %s(void) {" % f)
        if k == 0: self.w(r'''	static char b[600], d[600], q[4096]; for (int k = 0; k < 20; k++) { int n = rnd() % 300, o = rnd() % 40, m = rnd() % 40; for (int i = 0; i < n; i++) b[o + i] = 1 + rnd() % (k & 1 ? 3 : 255); b[o + n] = 0; memset(d, k, sizeof d); memcpy(d + m, b + o, n + 1); mixu(strlen(b + o)); mixu(strcmp(b + o, d + m) > 0); if (n) d[m + rnd() % n] ^= 1 + (k & 3); int c = strcmp(b + o, d + m); mixu((c > 0) - (c < 0)); c = memcmp(b + o, d + m, n); mixu((c > 0) - (c < 0)); c = strncmp(b + o, d + m, n / 2); mixu((c > 0) - (c < 0)); memmove(b + o + (rnd() % 7), b + o, n); mixb(b, sizeof b); char* p = memchr(b, 2, 500); mixu(p ? p - b : -1); p = strchr(b + o, 3); mixu(p ? p - b : -1); p = strrchr(d + m, 2); mixu(p ? p - d : -1); mixu(strnlen(b + o, 20)); q[0] = 0; strncat(q, d + m, 30); strcat(q, b + o); mixu(strlen(q)); p = strstr(q, "\1\2"); mixu(p ? p - q : -1); mixu(strspn(q, "\1\2\3")); mixu(strcspn(q, "\5\6")); }''')
        elif k == 1: self.w(r'''	char b[400]; for (int k = 0; k < 12; k++) { f64 d = fnum(); int r1 = (int)rnd(), r2 = (int)rnd(); long long r3 = rnd(), r4 = rnd(); f64 r5 = (f64)(i32)rnd() / 100; int r6 = (int)rnd() % 100; snprintf(b, sizeof b, "%%g %%.17g %%a %%e %%.3f|%%10.2f|%%-8d|%%+lld|%%#llx|%%05d|%%s|%%c|%%.*s" + 0, d, d, d, d, d > 1e15 || d < -1e15 ? 0 : d, r5, r1, r3, r4, r6, "text", 'x', 3, "abcdef"); mixb(b, strlen(b)); f64 e = strtod(b, 0); mixd(e); mixf(strtof(b, 0)); char* x; mixu(strtoull("0xdeadbeefcafe", &x, 0)); mixu(strtol("-12345678901234", 0, 10)); int a; long l; f64 y; if (sscanf("17 99999999999 2.5e3", "%%d %%ld %%lf", &a, &l, &y) == 3) { mixu(a); mixu(l); mixd(y); } } printf("%%s\n", b);'''.replace("%%", "%"))
        elif k == 2: self.w(r'''	static i32 v[200]; int n = 1 + rnd() % 199; for (int i = 0; i < n; i++) { u64 q = rnd(); v[i] = q >> (q >> 58 & 31); } qsort(v, n, 4, cmp); for (int i = 1; i < n; i++) if (v[i - 1] > v[i]) mixu(666); mixb(v, 4 * n); for (int i = 0; i < 20; i++) { u64 q = rnd(); i32 key = i & 1 ? v[q % n] : (i32)q; i32* p = bsearch(&key, v, n, 4, cmp); mixu(p ? *p : 1); }''')
        elif k == 3: self.w(r'''	static void* p[64]; static size_t sz[64]; for (int k = 0; k < 400; k++) { int i = rnd() & 63; if (!p[i]) { sz[i] = rnd() % (rnd() & 7 ? 200 : 9000); p[i] = rnd() & 1 ? malloc(sz[i]) : calloc(1, sz[i]); memset(p[i], i, sz[i]); } else if (rnd() & 1) { size_t n = rnd() % 3000, m = n < sz[i] ? n : sz[i]; p[i] = realloc(p[i], n + 1); for (size_t j = 0; j < m; j++) if (((u8*)p[i])[j] != i) mixu(13); sz[i] = n; memset(p[i], i, n); } else { for (size_t j = 0; j < sz[i]; j++) if (((u8*)p[i])[j] != i) mixu(14); free(p[i]); p[i] = 0; } mixu(p[i] != 0); } for (int i = 0; i < 64; i++) { free(p[i]); p[i] = 0; }''')
        elif k == 4: self.w(r'''	static jmp_buf jb; volatile int depth = 0; volatile f64 keep = fnum(); int c = setjmp(jb); mixu(c); mixd(keep); if (depth < 5) { depth++; keep += depth; jump(jb, depth * 3, 4); } mixu(depth); char* s = getenv("VERIF_ENV"); mixu(s ? strlen(s) : 99);''')
        elif k == 5: self.w(r'''	for (int k = 0; k < 20; k++) { f64 x = fnum(), y = fnum(); mixd(fmod(x, y)); mixd(sqrt(fabs(x))); mixd(ldexp(x, (int)(rnd() % 40) - 20)); int e; mixd(frexp(x, &e)); mixu(e); f64 ip; mixd(modf(x, &ip)); mixd(ip); mixd(nextafter(x, y)); if (x != y) { mixd(fmax(x, y)); mixd(fmin(x, y)); } mixd(round(x)); mixd(remainder(x, y)); mixd(fdim(x, y)); mixd(hypot(3, 4)); mixu(ilogb(x)); mixu(fpclassify(x)); mixu(signbit(x) != 0); if (fabs(x) < 1e9) { mixu(lrint(x)); mixu(lround(x)); mixu(llrint(x)); } mixd(scalbn(x, 3)); mixd(logb(x)); mixf(fmodf((f32)(x < 1e30 ? x : 1), 3.5f)); }''')
        elif k == 6: self.w(r'''	for (int k = 0; k < 30; k++) { u64 a1 = rnd(), a0 = interesting(), b1 = interesting(), b0 = interesting(); u128 a = (u128)a1 << 64 | a0, b = (u128)(b1 >> (a0 & 63)) << 64 | b0; if (!b) b = 1; mixu(a / b); mixu(a % b); mixu((a * b) >> 64); mixu((a + b) >> 64); mixu((a << (rnd() & 127)) >> 64); mixu((a >> (rnd() & 127))); i128 c = (i128)a, d = (i128)(b >> 1) | 1; mixu(c / d); mixu(c % d); mixu((c >> (rnd() & 127))); mixu(c < d); mixd((f64)(i64)c); mixd((f64)a); mixu(__builtin_mul_overflow((i64)a, (i64)b, &(i64){0})); i32 q; mixu(__builtin_add_overflow((i32)a, (i32)b, &q)); mixu(q); mixu(__builtin_sub_overflow((i32)a, (i32)b, &q)); mixu(q); }''')
        elif k == 7: self.w(r'''	static u32 w; static u64 x; static u8 b; static u16 h; w = rnd(); x = rnd(); for (int k = 0; k < 20; k++) { u64 v = interesting(); mixu(__atomic_fetch_add(&w, v, 5)); mixu(__atomic_fetch_or(&x, v, 5)); mixu(__atomic_fetch_xor(&w, v, 4)); mixu(__atomic_fetch_and(&x, v | 0xff, 3)); mixu(__atomic_exchange_n(&x, v, 5)); mixu(__atomic_exchange_n(&w, v, 5)); u32 e = k & 1 ? w : 5; mixu(__atomic_compare_exchange_n(&w, &e, v + 1, 0, 5, 5)); mixu(e); u64 f = k & 2 ? x : 7; mixu(__atomic_compare_exchange_n(&x, &f, v, 0, 5, 5)); mixu(__atomic_fetch_add(&b, v, 5)); mixu(__atomic_exchange_n(&h, v, 5)); u8 g = b; mixu(__atomic_compare_exchange_n(&b, &g, v, 0, 5, 5)); mixu(__atomic_sub_fetch(&x, v, 5)); mixu(__atomic_nand_fetch(&w, v, 5)); mixu(__atomic_load_n(&x, 2)); __atomic_store_n(&h, v, 3); mixu(h); }''')
        else: self.w(r'''	mixu(va(3, 1, 2.5, "ab")); mixu(va(9, 7, fnum(), "x", 1, 2.0, "yz", -3, 4.5, "q", 1, 1.0, "", 5, 6.0, "long text", 2, 3.0, "a", 8, 9.0, "b", 6, 5.0, "c")); wchar_t wb[20]; mixu(mbstowcs(wb, "hello", 20)); mixb(wb, 20); mixu(wcslen(wb)); u64 (*t[])(u64) = {p1, p2, p3, p1}; u64 a = rnd(); for (int k = 0; k < 16; k++) a = t[a & 3](a + k); mixu(a); mixu(ack(2, 5)); static void* lab[] = {&&l0, &&l1, &&l2, &&l3}; int n = 0; u64 z = rnd(); goto *lab[z & 3]; l0: z += 3; goto *lab[++n > 40 ? 3 : (z >> 3) & 3]; l1: z ^= z << 5; goto *lab[++n > 40 ? 3 : (z >> 7) & 3]; l2: z *= 3; goto *lab[++n > 40 ? 3 : (z >> 9) & 3]; l3: mixu(z); char big[n * 8 + 16]; memset(big, n, sizeof big); mixb(big, sizeof big); mixb(alloca_test(n + 5), 4);''')
        self.w("}"); return f + "();"
    def program(self):
        r = self.r; self.w(PRELUDE)
        self.w(r'''static int cmp(const void* a, const void* b) { i32 x = *(const i32*)a, y = *(const i32*)b; return (x > y) - (x < y); }
NI static void jump(jmp_buf jb, int v, int d) { volatile f64 x[8]; for (int i = 0; i < 8; i++) x[i] = d * i; if (d) jump(jb, v, d - 1); longjmp(jb, v + (int)x[0]); }
NI static u64 va(int n, ...) { va_list ap; va_start(ap, n); u64 h = n; for (int i = 0; i < n; i += 3) { h = h * 31 + va_arg(ap, int); f64 d = va_arg(ap, f64); u64 u; memcpy(&u, &d, 8); h = h * 31 + u; h = h * 31 + strlen(va_arg(ap, const char*)); } va_end(ap); return h; }
NI static u64 p1(u64 a) { return a * 3 + 1; } NI static u64 p2(u64 a) { return a ^ (a >> 7); } NI static u64 p3(u64 a) { return (a << 13) | (a >> 51); }
NI static u64 ack(u64 m, u64 n) { return m == 0 ? n + 1 : n == 0 ? ack(m - 1, 1) : ack(m - 1, ack(m, n - 1)); }
NI static u8* alloca_test(int n) { static u8 o[4]; u8* p = __builtin_alloca(n * 7); memset(p, n, n * 7); memcpy(o, p + n, 4); return o; }''')
        self.arrays(); calls = []
        for _ in range(r.randrange(8, 16)): calls.append(r.choice([self.loop, self.loop, self.loop, self.scalar, self.scalar, self.vext, self.vext, self.structs, self.library])())
        self.w("int main(int argc, char** argv) { u64 seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1, skip = argc > 2 ? strtoull(argv[2], 0, 16) : 0; report(\"start\"); for (int i = 3; i < argc; i++) mixb(argv[i], strlen(argv[i])); report(\"args\");")
        self.w("for (int round = 0; round < %d; round++) {" % r.choice([1, 2, 3]))
        for i, (f, c) in enumerate(zip(self.funcs, calls)): self.w("\tif (!(skip >> %d & 1)) { S = seed * 1000 + round * 100 + %d; fill(); %s report(\"%s\"); }" % (i, i, c, f))
        self.w("} return (int)(seed & 127); }")
        return "\n".join(self.out) + "\n"

def program(seed):
    g = Gen(seed); s = g.program(); return s, g.funcs
if __name__ == "__main__":
    import sys; print(program(int(sys.argv[1]))[0])
