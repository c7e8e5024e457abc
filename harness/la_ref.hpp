// Independent reference model of the LoongArch64 user-mode instruction set (integer,
// atomics, scalar FP, LSX and LASX subset).  Written from the ISA manual; shares no code
// with libloong.  Decoding uses the binutils-derived table in isa_table.inc.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <limits>
#include <algorithm>
#include <string_view>

namespace ref {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef int16_t i16; typedef uint8_t u8; typedef int8_t i8;
typedef unsigned __int128 u128; typedef __int128 i128;

union alignas(32) V {
	u8 bu[32]; i8 b[32]; u16 hu[16]; i16 h[16]; u32 wu[8]; i32 w[8]; u64 du[4]; i64 d[4];
	float f[8]; double df[4];
};

enum Status { OK, UNDEF, FAULT, SYSCALL, BREAK, INVALID };

struct State {
	u64 r[32] = {}; V v[32] = {}; u8 fcc[8] = {}; u64 pc = 0; u32 fcsr = 0; bool ll = false;
};
// What the last instruction wrote (for comparing only architecturally defined bits).
struct Wr {
	int gpr = -1; int vr = -1; int vbits = 0; int fcc = -1; bool store = false; u64 addr = 0; unsigned size = 0;
	bool gpr_unknown = false; bool nan_ok = false; int lane = 0; // lane: FP lane width in bits for NaN comparison
	int gpr2 = -1;
};
struct Mem {
	virtual bool load(u64 addr, void* p, unsigned n) = 0;
	virtual bool store(u64 addr, const void* p, unsigned n) = 0;
	virtual ~Mem() {}
};

struct Enc { const char* name; u32 match, mask; };
static const Enc enc_table[] = {
#include "isa_table.inc"
};
static constexpr int ENC_N = sizeof(enc_table) / sizeof(enc_table[0]);

template <class T> static inline T sx(u64 v, int bits) { return (T)((i64)(v << (64 - bits)) >> (64 - bits)); }
static inline i64 SX(u64 v, int bits) { return (i64)(v << (64 - bits)) >> (64 - bits); }

struct Ctx { State& s; Mem& m; u32 w; Wr wr; bool jumped = false;
	u32 rd() const { return w & 31; } u32 rj() const { return (w >> 5) & 31; } u32 rk() const { return (w >> 10) & 31; }
	u32 ra() const { return (w >> 15) & 31; }
	u32 bits(int hi, int lo) const { return (w >> lo) & ((hi - lo == 31) ? ~0u : ((1u << (hi - lo + 1)) - 1)); }
	i64 si(int hi, int lo) const { return SX(bits(hi, lo), hi - lo + 1); }
	u64 J() const { return s.r[rj()]; } u64 K() const { return s.r[rk()]; } u64 D() const { return s.r[rd()]; }
	Status set(u64 v) { wr.gpr = rd(); if (rd()) s.r[rd()] = v; return OK; }
	Status setw(u32 v) { return set((u64)(i64)(i32)v); }
	Status jump(u64 t) { s.pc = t; jumped = true; return OK; }
	V& vd() { return s.v[rd()]; } V& vj() { return s.v[rj()]; } V& vk() { return s.v[rk()]; } V& va() { return s.v[ra()]; }
	Status setv(const V& x, int bits, int lane = 0) { for (int i = 0; i < bits / 8; i++) vd().bu[i] = x.bu[i]; wr.vr = rd(); wr.vbits = bits; wr.lane = lane; return OK; }
	Status setf(float f) { vd().f[0] = f; wr.vr = rd(); wr.vbits = 32; wr.lane = 32; return OK; }
	Status setd(double f) { vd().df[0] = f; wr.vr = rd(); wr.vbits = 64; wr.lane = 64; return OK; }
	Status setcc(int c, bool v) { s.fcc[c] = v; wr.fcc = c; return OK; }
};
typedef std::function<Status(Ctx&)> Fn;

// ---- vector element access helpers -------------------------------------------------
static inline i64 es(const V& v, int sz, int i) { switch (sz) { case 8: return v.b[i]; case 16: return v.h[i]; case 32: return v.w[i]; default: return v.d[i]; } }
static inline u64 eu(const V& v, int sz, int i) { switch (sz) { case 8: return v.bu[i]; case 16: return v.hu[i]; case 32: return v.wu[i]; default: return v.du[i]; } }
static inline void ew(V& v, int sz, int i, u64 x) { switch (sz) { case 8: v.bu[i] = (u8)x; break; case 16: v.hu[i] = (u16)x; break; case 32: v.wu[i] = (u32)x; break; default: v.du[i] = x; } }
static inline int tsz(char c) { switch (c) { case 'b': return 8; case 'h': return 16; case 'w': return 32; case 'd': return 64; } return 0; }

// FP comparison conditions (fcond field): bit0 = signalling, conditions by the ISA table
template <class T> static inline bool fcond(int c, T a, T b) {
	bool un = std::isnan(a) || std::isnan(b), lt = !un && a < b, eq = !un && a == b, gt = !un && a > b;
	switch (c & ~1) {
	case 0x00: return false;
	case 0x02: return lt;
	case 0x04: return eq;
	case 0x06: return lt || eq;
	case 0x08: return un;
	case 0x0a: return un || lt;
	case 0x0c: return un || eq;
	case 0x0e: return un || lt || eq;
	case 0x10: return lt || gt;
	case 0x14: return !un;
	case 0x18: return un || lt || gt;
	}
	return false;
}
template <class I, class F> static inline I cvt_trunc(F f) {
	if (std::isnan(f)) return 0;
	F t = std::trunc(f);
	if (t >= std::ldexp((F)1, sizeof(I) * 8 - 1)) return std::numeric_limits<I>::max();
	if (t < -std::ldexp((F)1, sizeof(I) * 8 - 1)) return std::numeric_limits<I>::min();
	return (I)t;
}
static inline bool snan32(u32 x) { return (x & 0x7f800000) == 0x7f800000 && (x & 0x7fffff) && !(x & 0x400000); }
static inline bool snan64(u64 x) { return (x & 0x7ff0000000000000) == 0x7ff0000000000000 && (x & 0xfffffffffffff) && !(x & 0x8000000000000); }
template <class F> static inline F fmaxn(F a, F b) {
	if (std::isnan(a)) return b; if (std::isnan(b)) return a;
	if (a == b) return std::signbit(a) ? b : a;
	return a > b ? a : b;
}
template <class F> static inline F fminn(F a, F b) {
	if (std::isnan(a)) return b; if (std::isnan(b)) return a;
	if (a == b) return std::signbit(a) ? a : b;
	return a < b ? a : b;
}
template <class F> static inline u64 fclassify(F f) {
	typedef typename std::conditional<sizeof(F) == 4, u32, u64>::type U;
	U u; memcpy(&u, &f, sizeof u);
	bool neg = u >> (sizeof(F) * 8 - 1);
	const int mant = sizeof(F) == 4 ? 23 : 52;
	U m = u & (((U)1 << mant) - 1); U e = (u >> mant) & (sizeof(F) == 4 ? 0xff : 0x7ff);
	const U emax = sizeof(F) == 4 ? 0xff : 0x7ff;
	if (e == emax && m) return ((m >> (mant - 1)) & 1) ? 2 : 1;
	int k = (e == emax) ? 0 : (e == 0 ? (m ? 2 : 3) : 1);
	return 1u << (2 + k + (neg ? 0 : 4));
}

class ISA {
public:
	std::unordered_map<std::string, Fn> sem;
	std::vector<const Fn*> fns;                 // per enc index; null: no reference semantics
	std::unordered_map<u32, std::vector<int>> groups; // by top 10 bits
	std::vector<int> order;
	ISA() { build(); fns.resize(ENC_N); for (int i = 0; i < ENC_N; i++) { auto it = sem.find(enc_table[i].name); fns[i] = it == sem.end() ? nullptr : &it->second; }
		for (u32 t = 0; t < 1024; t++) { auto& g = groups[t]; for (int i = 0; i < ENC_N; i++) { u32 mk = enc_table[i].mask & 0xffc00000u; if (((t << 22) & mk) == (enc_table[i].match & mk)) g.push_back(i); } } }
	int decode(u32 w) const { for (int i : groups.find(w >> 22)->second) if ((w & enc_table[i].mask) == enc_table[i].match) return i; return -1; }
	int find(const char* n) const { for (int i = 0; i < ENC_N; i++) if (!strcmp(enc_table[i].name, n)) return i; return -1; }
	// Executes one instruction at s.pc; pc advances when it completes.
	Status step(State& s, Mem& m, u32 w, Wr* out = nullptr, int* idx = nullptr) const {
		int i = decode(w); if (idx) *idx = i;
		if (i < 0) return INVALID;
		if (!fns[i]) return UNDEF;
		Ctx c{s, m, w, {}};
		u64 pc = s.pc;
		Status st = (*fns[i])(c);
		if (st == OK && !c.jumped) s.pc = pc + 4;
		if (out) *out = c.wr;
		return st;
	}
private:
	void def(const char* n, Fn f) { sem[n] = std::move(f); }
	template <class F> void r3(const char* n, F f) { def(n, [f](Ctx& c) { return c.set((u64)f(c.J(), c.K())); }); }
	template <class F> void r3w(const char* n, F f) { def(n, [f](Ctx& c) { return c.setw((u32)f((u32)c.J(), (u32)c.K())); }); }
	template <class F> void r2(const char* n, F f) { def(n, [f](Ctx& c) { return c.set((u64)f(c.J())); }); }
	template <class F> void br2(const char* n, F f) { def(n, [f](Ctx& c) { i64 off = c.si(25, 10) * 4; if (f(c.J(), c.D())) return c.jump(c.s.pc + off); return OK; }); }
	template <class T> void ld(const char* n, int kind) { // 0: si12, 1: rk, 2: si14<<2
		def(n, [kind](Ctx& c) { u64 a = c.J() + (kind == 0 ? (u64)c.si(21, 10) : kind == 1 ? c.K() : (u64)(c.si(23, 10) * 4)); T t;
			c.wr.addr = a; c.wr.size = sizeof(T);
			if (!c.m.load(a, &t, sizeof t)) return FAULT; return c.set((u64)(i64)t); }); }
	template <class T> void st(const char* n, int kind) {
		def(n, [kind](Ctx& c) { u64 a = c.J() + (kind == 0 ? (u64)c.si(21, 10) : kind == 1 ? c.K() : (u64)(c.si(23, 10) * 4)); T t = (T)c.D();
			c.wr.addr = a; c.wr.size = sizeof(T); c.wr.store = true;
			if (!c.m.store(a, &t, sizeof t)) return FAULT; return OK; }); }
	void vldst(const char* n, int bits, int kind, bool store) {
		def(n, [=](Ctx& c) { u64 a = c.J() + (kind == 0 ? (u64)c.si(21, 10) : c.K());
			c.wr.addr = a; c.wr.size = bits / 8; c.wr.store = store;
			if (store) { if (!c.m.store(a, &c.vd(), bits / 8)) return FAULT; return OK; }
			V t = {}; if (!c.m.load(a, &t, bits / 8)) return FAULT; return c.setv(t, bits); }); }
	template <class T, class F> void am(const char* base, const char* suf, F f) {
		for (int db = 0; db < 2; db++) def((std::string(base) + (db ? "_db" : "") + suf).c_str(), [f](Ctx& c) {
			u64 a = c.J(); T old; c.wr.addr = a; c.wr.size = sizeof(T); c.wr.store = true;
			if (!c.m.load(a, &old, sizeof old)) return FAULT;
			T n = (T)f(old, (T)c.K()); if (!c.m.store(a, &n, sizeof n)) return FAULT;
			return c.set((u64)(i64)(typename std::make_signed<T>::type)old); });
	}
	template <class F> void vec3(const std::string& n, int bits, int sz, F f) { // f(a(vj) s/u, b(vk)) element-wise
		def(n.c_str(), [=](Ctx& c) { V x = {}; for (int i = 0; i < bits / sz; i++) ew(x, sz, i, f(c.vj(), c.vk(), c.vd(), i)); return c.setv(x, bits); }); }

	void build();
	void build_fp();
	void build_vec();
};

inline void ISA::build() {
	// ---- integer ----
	r3w("add.w", [](u32 a, u32 b) { return a + b; });
	r3("add.d", [](u64 a, u64 b) { return a + b; });
	r3w("sub.w", [](u32 a, u32 b) { return a - b; });
	r3("sub.d", [](u64 a, u64 b) { return a - b; });
	r3("slt", [](u64 a, u64 b) { return (i64)a < (i64)b; });
	r3("sltu", [](u64 a, u64 b) { return a < b; });
	r3("and", [](u64 a, u64 b) { return a & b; });
	r3("or", [](u64 a, u64 b) { return a | b; });
	r3("xor", [](u64 a, u64 b) { return a ^ b; });
	r3("nor", [](u64 a, u64 b) { return ~(a | b); });
	r3("orn", [](u64 a, u64 b) { return a | ~b; });
	r3("andn", [](u64 a, u64 b) { return a & ~b; });
	r3("maskeqz", [](u64 a, u64 b) { return b == 0 ? 0 : a; });
	r3("masknez", [](u64 a, u64 b) { return b != 0 ? 0 : a; });
	r3w("sll.w", [](u32 a, u32 b) { return a << (b & 31); });
	r3w("srl.w", [](u32 a, u32 b) { return a >> (b & 31); });
	r3w("sra.w", [](u32 a, u32 b) { return (u32)((i32)a >> (b & 31)); });
	r3w("rotr.w", [](u32 a, u32 b) { b &= 31; return b ? (a >> b) | (a << (32 - b)) : a; });
	r3("sll.d", [](u64 a, u64 b) { return a << (b & 63); });
	r3("srl.d", [](u64 a, u64 b) { return a >> (b & 63); });
	r3("sra.d", [](u64 a, u64 b) { return (i64)a >> (b & 63); });
	r3("rotr.d", [](u64 a, u64 b) { b &= 63; return b ? (a >> b) | (a << (64 - b)) : a; });
	r3w("mul.w", [](u32 a, u32 b) { return a * b; });
	r3w("mulh.w", [](u32 a, u32 b) { return (u32)(((i64)(i32)a * (i64)(i32)b) >> 32); });
	r3w("mulh.wu", [](u32 a, u32 b) { return (u32)(((u64)a * b) >> 32); });
	r3("mul.d", [](u64 a, u64 b) { return a * b; });
	r3("mulh.d", [](u64 a, u64 b) { return (u64)(((i128)(i64)a * (i64)b) >> 64); });
	r3("mulh.du", [](u64 a, u64 b) { return (u64)(((u128)a * b) >> 64); });
	r3("mulw.d.w", [](u64 a, u64 b) { return (i64)(i32)a * (i64)(i32)b; });
	r3("mulw.d.wu", [](u64 a, u64 b) { return (u64)(u32)a * (u32)b; });
	// Division: results for a zero divisor are unpredictable in the ISA (never a trap);
	// INT_MIN / -1 wraps.  Division .w operands must be valid 32-bit values else unpredictable.
	auto divdef = [this](const char* n, bool w, bool sgn, bool mod) {
		def(n, [=](Ctx& c) {
			u64 a = c.J(), b = c.K();
			if (w) { // .w forms consume sign-extended 32-bit inputs; the result is sign-extended
				if (sgn) { i32 x = (i32)a, y = (i32)b; if (y == 0) { c.wr.gpr_unknown = true; return c.set(0); }
					u32 q = (x == INT32_MIN && y == -1) ? (mod ? 0u : (u32)INT32_MIN) : (u32)(mod ? x % y : x / y); return c.setw(q); }
				u32 x = (u32)a, y = (u32)b; if (y == 0) { c.wr.gpr_unknown = true; return c.set(0); }
				return c.setw(mod ? x % y : x / y);
			}
			if (sgn) { i64 x = (i64)a, y = (i64)b; if (y == 0) { c.wr.gpr_unknown = true; return c.set(0); }
				if (x == INT64_MIN && y == -1) return c.set(mod ? 0 : (u64)INT64_MIN);
				return c.set((u64)(mod ? x % y : x / y)); }
			if (b == 0) { c.wr.gpr_unknown = true; return c.set(0); }
			return c.set(mod ? a % b : a / b);
		}); };
	divdef("div.w", true, true, false); divdef("mod.w", true, true, true); divdef("div.wu", true, false, false); divdef("mod.wu", true, false, true);
	divdef("div.d", false, true, false); divdef("mod.d", false, true, true); divdef("div.du", false, false, false); divdef("mod.du", false, false, true);

	def("addi.w", [](Ctx& c) { return c.setw((u32)c.J() + (u32)c.si(21, 10)); });
	def("addi.d", [](Ctx& c) { return c.set(c.J() + (u64)c.si(21, 10)); });
	def("addu16i.d", [](Ctx& c) { return c.set(c.J() + ((u64)c.si(25, 10) << 16)); });
	def("slti", [](Ctx& c) { return c.set((i64)c.J() < c.si(21, 10)); });
	def("sltui", [](Ctx& c) { return c.set(c.J() < (u64)c.si(21, 10)); });
	def("andi", [](Ctx& c) { return c.set(c.J() & c.bits(21, 10)); });
	def("ori", [](Ctx& c) { return c.set(c.J() | c.bits(21, 10)); });
	def("xori", [](Ctx& c) { return c.set(c.J() ^ c.bits(21, 10)); });
	def("lu12i.w", [](Ctx& c) { return c.setw(c.bits(24, 5) << 12); });
	def("lu32i.d", [](Ctx& c) { return c.set((u64)(u32)c.D() | ((u64)c.si(24, 5) << 32)); });
	def("lu52i.d", [](Ctx& c) { return c.set((c.J() & 0xFFFFFFFFFFFFFull) | ((u64)c.bits(21, 10) << 52)); });
	def("pcaddi", [](Ctx& c) { return c.set(c.s.pc + ((u64)c.si(24, 5) << 2)); });
	def("pcaddu12i", [](Ctx& c) { return c.set(c.s.pc + ((u64)c.si(24, 5) << 12)); });
	def("pcaddu18i", [](Ctx& c) { return c.set(c.s.pc + ((u64)c.si(24, 5) << 18)); });
	def("pcalau12i", [](Ctx& c) { return c.set((c.s.pc + ((u64)c.si(24, 5) << 12)) & ~0xFFFull); });
	def("slli.w", [](Ctx& c) { return c.setw((u32)c.J() << c.bits(14, 10)); });
	def("srli.w", [](Ctx& c) { return c.setw((u32)c.J() >> c.bits(14, 10)); });
	def("srai.w", [](Ctx& c) { return c.setw((u32)((i32)c.J() >> c.bits(14, 10))); });
	def("rotri.w", [](Ctx& c) { u32 a = (u32)c.J(), n = c.bits(14, 10); return c.setw(n ? (a >> n) | (a << (32 - n)) : a); });
	def("slli.d", [](Ctx& c) { return c.set(c.J() << c.bits(15, 10)); });
	def("srli.d", [](Ctx& c) { return c.set(c.J() >> c.bits(15, 10)); });
	def("srai.d", [](Ctx& c) { return c.set((u64)((i64)c.J() >> c.bits(15, 10))); });
	def("rotri.d", [](Ctx& c) { u64 a = c.J(); u32 n = c.bits(15, 10); return c.set(n ? (a >> n) | (a << (64 - n)) : a); });
	def("alsl.w", [](Ctx& c) { return c.setw(((u32)c.J() << (c.bits(16, 15) + 1)) + (u32)c.K()); });
	def("alsl.wu", [](Ctx& c) { return c.set((u32)(((u32)c.J() << (c.bits(16, 15) + 1)) + (u32)c.K())); });
	def("alsl.d", [](Ctx& c) { return c.set((c.J() << (c.bits(16, 15) + 1)) + c.K()); });
	def("bytepick.w", [](Ctx& c) { u32 sa = c.bits(16, 15) * 8; u64 x = ((u64)(u32)c.K() << 32) | (u32)c.J(); return c.setw((u32)(x >> (32 - sa))); });
	def("bytepick.d", [](Ctx& c) { u32 sa = c.bits(17, 15) * 8; u128 x = ((u128)c.K() << 64) | c.J(); return c.set((u64)(x >> (64 - sa))); });
	auto bs = [this](const char* n, bool w, bool ins) {
		def(n, [=](Ctx& c) {
			u32 msb = w ? c.bits(20, 16) : c.bits(21, 16), lsb = w ? c.bits(14, 10) : c.bits(15, 10);
			if (msb < lsb) return UNDEF;
			u32 len = msb - lsb + 1; u64 m = len == 64 ? ~0ull : ((1ull << len) - 1);
			if (ins) { u64 v = (c.D() & ~(m << lsb)) | ((c.J() & m) << lsb); return w ? c.setw((u32)v) : c.set(v); }
			u64 v = (c.J() >> lsb) & m; return w ? c.setw((u32)v) : c.set(v);
		}); };
	bs("bstrins.w", true, true); bs("bstrins.d", false, true); bs("bstrpick.w", true, false); bs("bstrpick.d", false, false);
	r2("ext.w.b", [](u64 a) { return (i64)(i8)a; });
	r2("ext.w.h", [](u64 a) { return (i64)(i16)a; });
	auto clz = [](u64 v, int n) { int k = 0; for (int i = n - 1; i >= 0 && !((v >> i) & 1); i--) k++; return (u64)k; };
	auto ctz = [](u64 v, int n) { int k = 0; for (int i = 0; i < n && !((v >> i) & 1); i++) k++; return (u64)k; };
	r2("clo.w", [=](u64 a) { return clz(~a, 32); }); r2("clz.w", [=](u64 a) { return clz(a, 32); });
	r2("cto.w", [=](u64 a) { return ctz(~a, 32); }); r2("ctz.w", [=](u64 a) { return ctz(a, 32); });
	r2("clo.d", [=](u64 a) { return clz(~a, 64); }); r2("clz.d", [=](u64 a) { return clz(a, 64); });
	r2("cto.d", [=](u64 a) { return ctz(~a, 64); }); r2("ctz.d", [=](u64 a) { return ctz(a, 64); });
	auto rev = [](u64 v, int unit, int group, int total) { // reverse `unit`-bit pieces inside each `group`-bit group
		u64 o = 0; for (int g = 0; g < total / group; g++) for (int k = 0; k < group / unit; k++) {
			u64 m = unit == 64 ? ~0ull : ((1ull << unit) - 1); u64 x = (v >> (g * group + k * unit)) & m;
			o |= x << (g * group + (group / unit - 1 - k) * unit); } return o; };
	r2("revb.2h", [=](u64 a) { return (i64)(i32)rev(a, 8, 16, 32); });
	r2("revb.4h", [=](u64 a) { return rev(a, 8, 16, 64); });
	r2("revb.2w", [=](u64 a) { return rev(a, 8, 32, 64); });
	r2("revb.d", [=](u64 a) { return rev(a, 8, 64, 64); });
	r2("revh.2w", [=](u64 a) { return rev(a, 16, 32, 64); });
	r2("revh.d", [=](u64 a) { return rev(a, 16, 64, 64); });
	r2("bitrev.4b", [=](u64 a) { return (i64)(i32)rev(a, 1, 8, 32); });
	r2("bitrev.8b", [=](u64 a) { return rev(a, 1, 8, 64); });
	r2("bitrev.w", [=](u64 a) { return (i64)(i32)rev(a, 1, 32, 32); });
	r2("bitrev.d", [=](u64 a) { return rev(a, 1, 64, 64); });
	def("cpucfg", [](Ctx& c) { c.wr.gpr_unknown = true; return c.set(0); });
	def("rdtime.d", [](Ctx& c) { c.wr.gpr_unknown = true; c.wr.gpr2 = c.rj(); return c.set(0); });
	def("dbar", [](Ctx&) { return OK; }); def("ibar", [](Ctx&) { return OK; }); def("preld", [](Ctx&) { return OK; });
	def("syscall", [](Ctx&) { return SYSCALL; }); def("break", [](Ctx&) { return BREAK; });
	// loads/stores
	ld<i8>("ld.b", 0); ld<i16>("ld.h", 0); ld<i32>("ld.w", 0); ld<i64>("ld.d", 0); ld<u8>("ld.bu", 0); ld<u16>("ld.hu", 0); ld<u32>("ld.wu", 0);
	ld<i8>("ldx.b", 1); ld<i16>("ldx.h", 1); ld<i32>("ldx.w", 1); ld<i64>("ldx.d", 1); ld<u8>("ldx.bu", 1); ld<u16>("ldx.hu", 1); ld<u32>("ldx.wu", 1);
	ld<i32>("ldptr.w", 2); ld<i64>("ldptr.d", 2);
	st<u8>("st.b", 0); st<u16>("st.h", 0); st<u32>("st.w", 0); st<u64>("st.d", 0);
	st<u8>("stx.b", 1); st<u16>("stx.h", 1); st<u32>("stx.w", 1); st<u64>("stx.d", 1);
	st<u32>("stptr.w", 2); st<u64>("stptr.d", 2);
	// atomics
	#define AM(T, S) \
	am<T>("amswap", S, [](T, T b) { return b; }); am<T>("amadd", S, [](T a, T b) { return (T)(a + b); }); \
	am<T>("amand", S, [](T a, T b) { return (T)(a & b); }); am<T>("amor", S, [](T a, T b) { return (T)(a | b); }); am<T>("amxor", S, [](T a, T b) { return (T)(a ^ b); });
	AM(u32, ".w") AM(u64, ".d")
	#undef AM
	am<i32>("ammax", ".w", [](i32 a, i32 b) { return std::max(a, b); }); am<i64>("ammax", ".d", [](i64 a, i64 b) { return std::max(a, b); });
	am<i32>("ammin", ".w", [](i32 a, i32 b) { return std::min(a, b); }); am<i64>("ammin", ".d", [](i64 a, i64 b) { return std::min(a, b); });
	am<u32>("ammax", ".wu", [](u32 a, u32 b) { return std::max(a, b); }); am<u64>("ammax", ".du", [](u64 a, u64 b) { return std::max(a, b); });
	am<u32>("ammin", ".wu", [](u32 a, u32 b) { return std::min(a, b); }); am<u64>("ammin", ".du", [](u64 a, u64 b) { return std::min(a, b); });
	auto ll = [this](const char* n, bool d) { def(n, [d](Ctx& c) { u64 a = c.J() + (u64)(c.si(23, 10) * 4); c.wr.addr = a; c.wr.size = d ? 8 : 4;
		i64 v; if (d) { if (!c.m.load(a, &v, 8)) return FAULT; } else { i32 t; if (!c.m.load(a, &t, 4)) return FAULT; v = t; } c.s.ll = true; return c.set((u64)v); }); };
	ll("ll.w", false); ll("ll.d", true);
	auto sc = [this](const char* n, bool d) { def(n, [d](Ctx& c) { u64 a = c.J() + (u64)(c.si(23, 10) * 4); c.wr.addr = a; c.wr.size = d ? 8 : 4; c.wr.store = true;
		if (!c.s.ll) return c.set(0);
		u64 v = c.D(); if (!c.m.store(a, &v, d ? 8 : 4)) return FAULT; c.s.ll = false; return c.set(1); }); };
	sc("sc.w", false); sc("sc.d", true);
	// branches
	br2("beq", [](u64 a, u64 b) { return a == b; }); br2("bne", [](u64 a, u64 b) { return a != b; });
	br2("blt", [](u64 a, u64 b) { return (i64)a < (i64)b; }); br2("bge", [](u64 a, u64 b) { return (i64)a >= (i64)b; });
	br2("bltu", [](u64 a, u64 b) { return a < b; }); br2("bgeu", [](u64 a, u64 b) { return a >= b; });
	auto o21 = [](Ctx& c) { return SX(((u64)c.bits(4, 0) << 16) | c.bits(25, 10), 21) * 4; };
	auto o26 = [](Ctx& c) { return SX(((u64)c.bits(9, 0) << 16) | c.bits(25, 10), 26) * 4; };
	def("beqz", [=](Ctx& c) { return c.J() == 0 ? c.jump(c.s.pc + o21(c)) : OK; });
	def("bnez", [=](Ctx& c) { return c.J() != 0 ? c.jump(c.s.pc + o21(c)) : OK; });
	def("bceqz", [=](Ctx& c) { return c.s.fcc[c.bits(7, 5)] == 0 ? c.jump(c.s.pc + o21(c)) : OK; });
	def("bcnez", [=](Ctx& c) { return c.s.fcc[c.bits(7, 5)] != 0 ? c.jump(c.s.pc + o21(c)) : OK; });
	def("b", [=](Ctx& c) { return c.jump(c.s.pc + o26(c)); });
	def("bl", [=](Ctx& c) { u64 pc = c.s.pc; c.s.r[1] = pc + 4; c.wr.gpr = 1; return c.jump(pc + o26(c)); });
	def("jirl", [](Ctx& c) { u64 t = c.J() + (u64)(c.si(25, 10) * 4); u64 pc = c.s.pc; c.set(pc + 4); return c.jump(t); });
	build_fp();
	build_vec();
}

inline void ISA::build_fp() {
	#define FP2(N, F) \
	def(N ".s", [](Ctx& c) { float a = c.vj().f[0], b = c.vk().f[0]; return c.setf([](auto a, auto b) { return F; }(a, b)); }); \
	def(N ".d", [](Ctx& c) { double a = c.vj().df[0], b = c.vk().df[0]; return c.setd([](auto a, auto b) { return F; }(a, b)); });
	FP2("fadd", a + b) FP2("fsub", a - b) FP2("fmul", a * b) FP2("fdiv", a / b)
	#undef FP2
	// the treatment of signalling NaN operands and of two zeroes is left unspecified here
	#define FPM(N, F) \
	def(N ".s", [](Ctx& c) { float a = c.vj().f[0], b = c.vk().f[0]; if (snan32(c.vj().wu[0]) || snan32(c.vk().wu[0]) || (a == 0 && b == 0)) return UNDEF; return c.setf(F(a, b)); }); \
	def(N ".d", [](Ctx& c) { double a = c.vj().df[0], b = c.vk().df[0]; if (snan64(c.vj().du[0]) || snan64(c.vk().du[0]) || (a == 0 && b == 0)) return UNDEF; return c.setd(F(a, b)); });
	FPM("fmax", fmaxn) FPM("fmin", fminn)
	#undef FPM
	#define FP3(N, F) \
	def(N ".s", [](Ctx& c) { float a = c.vj().f[0], b = c.vk().f[0], d = c.va().f[0]; return c.setf(F); }); \
	def(N ".d", [](Ctx& c) { double a = c.vj().df[0], b = c.vk().df[0], d = c.va().df[0]; return c.setd(F); });
	FP3("fmadd", std::fma(a, b, d)) FP3("fmsub", std::fma(a, b, -d)) FP3("fnmadd", -std::fma(a, b, d)) FP3("fnmsub", -std::fma(a, b, -d))
	#undef FP3
	// sign operations act on the bits
	def("fabs.s", [](Ctx& c) { V x = c.vd(); x.wu[0] = c.vj().wu[0] & 0x7fffffffu; return c.setv(x, 32); });
	def("fabs.d", [](Ctx& c) { V x = c.vd(); x.du[0] = c.vj().du[0] & ~(1ull << 63); return c.setv(x, 64); });
	def("fneg.s", [](Ctx& c) { V x = c.vd(); x.wu[0] = c.vj().wu[0] ^ 0x80000000u; return c.setv(x, 32); });
	def("fneg.d", [](Ctx& c) { V x = c.vd(); x.du[0] = c.vj().du[0] ^ (1ull << 63); return c.setv(x, 64); });
	def("fmov.s", [](Ctx& c) { V x = c.vd(); x.wu[0] = c.vj().wu[0]; return c.setv(x, 32); });
	def("fmov.d", [](Ctx& c) { V x = c.vd(); x.du[0] = c.vj().du[0]; return c.setv(x, 64); });
	def("fclass.s", [](Ctx& c) { V x = c.vd(); x.wu[0] = (u32)fclassify(c.vj().f[0]); return c.setv(x, 32); });
	def("fclass.d", [](Ctx& c) { V x = c.vd(); x.du[0] = fclassify(c.vj().df[0]); return c.setv(x, 64); });
	def("fsqrt.s", [](Ctx& c) { return c.setf(std::sqrt(c.vj().f[0])); }); def("fsqrt.d", [](Ctx& c) { return c.setd(std::sqrt(c.vj().df[0])); });
	def("ffint.d.l", [](Ctx& c) { return c.setd((double)c.vj().d[0]); }); def("ffint.d.w", [](Ctx& c) { return c.setd((double)c.vj().w[0]); });
	def("ffint.s.w", [](Ctx& c) { return c.setf((float)c.vj().w[0]); }); def("ffint.s.l", [](Ctx& c) { return c.setf((float)c.vj().d[0]); });
	def("fcvt.s.d", [](Ctx& c) { return c.setf((float)c.vj().df[0]); }); def("fcvt.d.s", [](Ctx& c) { return c.setd((double)c.vj().f[0]); });
	def("ftintrz.w.s", [](Ctx& c) { V x = c.vd(); x.w[0] = cvt_trunc<i32>(c.vj().f[0]); return c.setv(x, 32); });
	def("ftintrz.w.d", [](Ctx& c) { V x = c.vd(); x.w[0] = cvt_trunc<i32>(c.vj().df[0]); return c.setv(x, 32); });
	def("ftintrz.l.s", [](Ctx& c) { V x = c.vd(); x.d[0] = cvt_trunc<i64>(c.vj().f[0]); return c.setv(x, 64); });
	def("ftintrz.l.d", [](Ctx& c) { V x = c.vd(); x.d[0] = cvt_trunc<i64>(c.vj().df[0]); return c.setv(x, 64); });
	static const char* conds[] = {"caf","saf","clt","slt","ceq","seq","cle","sle","cun","sun","cult","sult","cueq","sueq","cule","sule","cne","sne",nullptr,nullptr,"cor","sor",nullptr,nullptr,"cune","sune"};
	for (int i = 0; i < 26; i++) if (conds[i]) for (int dbl = 0; dbl < 2; dbl++) {
		std::string suf = std::string(conds[i]) + (dbl ? ".d" : ".s");
		def(("fcmp." + suf).c_str(), [=](Ctx& c) { bool r = dbl ? fcond<double>(i, c.vj().df[0], c.vk().df[0]) : fcond<float>(i, c.vj().f[0], c.vk().f[0]); return c.setcc(c.bits(2, 0), r); });
		for (int x = 0; x < 2; x++) { int bits = x ? 256 : 128;
			def(((x ? "xvfcmp." : "vfcmp.") + suf).c_str(), [=](Ctx& c) { V o = {}; if (dbl) for (int k = 0; k < bits / 64; k++) o.du[k] = fcond<double>(i, c.vj().df[k], c.vk().df[k]) ? ~0ull : 0;
				else for (int k = 0; k < bits / 32; k++) o.wu[k] = fcond<float>(i, c.vj().f[k], c.vk().f[k]) ? ~0u : 0; return c.setv(o, bits); }); }
	}
	def("fsel", [](Ctx& c) { V x = c.s.fcc[c.bits(17, 15)] ? c.vk() : c.vj(); return c.setv(x, 64); });
	// moves
	def("movfr2gr.s", [](Ctx& c) { return c.setw(c.vj().wu[0]); }); def("movfr2gr.d", [](Ctx& c) { return c.set(c.vj().du[0]); });
	def("movgr2fr.w", [](Ctx& c) { V x = c.vd(); x.wu[0] = (u32)c.J(); return c.setv(x, 32); });
	def("movgr2fr.d", [](Ctx& c) { V x = c.vd(); x.du[0] = c.J(); return c.setv(x, 64); });
	def("movfr2cf", [](Ctx& c) { return c.setcc(c.bits(2, 0), c.vj().du[0] & 1); });
	def("movcf2fr", [](Ctx& c) { V x = c.vd(); x.du[0] = c.s.fcc[c.bits(7, 5)]; return c.setv(x, 64); });
	def("movgr2cf", [](Ctx& c) { return c.setcc(c.bits(2, 0), c.J() & 1); });
	def("movcf2gr", [](Ctx& c) { return c.set(c.s.fcc[c.bits(7, 5)]); });
	def("movfcsr2gr", [](Ctx& c) { c.wr.gpr_unknown = true; return c.set(0); });
	auto fld = [this](const char* n, int bytes, int kind, bool store) {
		def(n, [=](Ctx& c) { u64 a = c.J() + (kind == 0 ? (u64)c.si(21, 10) : c.K()); c.wr.addr = a; c.wr.size = bytes; c.wr.store = store;
			if (store) { if (!c.m.store(a, &c.vd(), bytes)) return FAULT; return OK; }
			V t = {}; if (!c.m.load(a, &t, bytes)) return FAULT; return c.setv(t, bytes * 8); }); };
	fld("fld.s", 4, 0, false); fld("fld.d", 8, 0, false); fld("fst.s", 4, 0, true); fld("fst.d", 8, 0, true);
	fld("fldx.s", 4, 1, false); fld("fldx.d", 8, 1, false); fld("fstx.s", 4, 1, true); fld("fstx.d", 8, 1, true);
}

inline void ISA::build_vec() {
	vldst("vld", 128, 0, false); vldst("vst", 128, 0, true); vldst("vldx", 128, 1, false); vldst("vstx", 128, 1, true);
	vldst("xvld", 256, 0, false); vldst("xvst", 256, 0, true); vldst("xvldx", 256, 1, false); vldst("xvstx", 256, 1, true);
	for (int x = 0; x < 2; x++) {
		const int bits = x ? 256 : 128; const std::string p = x ? "xv" : "v";
		for (char t : {'b', 'h', 'w', 'd'}) {
			const int sz = tsz(t); const std::string T = std::string(".") + t, TU = T + "u";
			const u64 ones = ~0ull;
			vec3(p + "add" + T, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) + eu(b, sz, i); });
			vec3(p + "sub" + T, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) - eu(b, sz, i); });
			vec3(p + "mul" + T, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) * eu(b, sz, i); });
			vec3(p + "madd" + T, bits, sz, [=](V& a, V& b, V& d, int i) { return eu(d, sz, i) + eu(a, sz, i) * eu(b, sz, i); });
			vec3(p + "msub" + T, bits, sz, [=](V& a, V& b, V& d, int i) { return eu(d, sz, i) - eu(a, sz, i) * eu(b, sz, i); });
			vec3(p + "max" + T, bits, sz, [=](V& a, V& b, V&, int i) { return (u64)std::max(es(a, sz, i), es(b, sz, i)); });
			vec3(p + "min" + T, bits, sz, [=](V& a, V& b, V&, int i) { return (u64)std::min(es(a, sz, i), es(b, sz, i)); });
			vec3(p + "max" + TU, bits, sz, [=](V& a, V& b, V&, int i) { return std::max(eu(a, sz, i), eu(b, sz, i)); });
			vec3(p + "min" + TU, bits, sz, [=](V& a, V& b, V&, int i) { return std::min(eu(a, sz, i), eu(b, sz, i)); });
			vec3(p + "seq" + T, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) == eu(b, sz, i) ? ones : 0; });
			vec3(p + "slt" + T, bits, sz, [=](V& a, V& b, V&, int i) { return es(a, sz, i) < es(b, sz, i) ? ones : 0; });
			vec3(p + "sle" + T, bits, sz, [=](V& a, V& b, V&, int i) { return es(a, sz, i) <= es(b, sz, i) ? ones : 0; });
			vec3(p + "slt" + TU, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) < eu(b, sz, i) ? ones : 0; });
			vec3(p + "sle" + TU, bits, sz, [=](V& a, V& b, V&, int i) { return eu(a, sz, i) <= eu(b, sz, i) ? ones : 0; });
			auto imm5 = [&](const std::string& n, auto f) { def(n.c_str(), [=](Ctx& c) { V o = {}; i64 si = c.si(14, 10); u64 ui = c.bits(14, 10); for (int i = 0; i < bits / sz; i++) ew(o, sz, i, f(c.vj(), i, si, ui)); return c.setv(o, bits); }); };
			imm5(p + "addi" + TU, [=](V& a, int i, i64, u64 u) { return eu(a, sz, i) + u; });
			imm5(p + "subi" + TU, [=](V& a, int i, i64, u64 u) { return eu(a, sz, i) - u; });
			imm5(p + "seqi" + T, [=](V& a, int i, i64 s, u64) { return es(a, sz, i) == s ? ones : 0; });
			imm5(p + "slti" + T, [=](V& a, int i, i64 s, u64) { return es(a, sz, i) < s ? ones : 0; });
			imm5(p + "slei" + T, [=](V& a, int i, i64 s, u64) { return es(a, sz, i) <= s ? ones : 0; });
			const int lg = sz == 8 ? 3 : sz == 16 ? 4 : sz == 32 ? 5 : 6;
			auto sh = [&](const std::string& n, auto f) { def(n.c_str(), [=](Ctx& c) { V o = {}; u64 ui = c.bits(10 + lg - 1, 10); for (int i = 0; i < bits / sz; i++) ew(o, sz, i, f(c.vj(), i, ui)); return c.setv(o, bits); }); };
			sh(p + "slli" + T, [=](V& a, int i, u64 u) { return eu(a, sz, i) << u; });
			sh(p + "srli" + T, [=](V& a, int i, u64 u) { return eu(a, sz, i) >> u; });
			sh(p + "srai" + T, [=](V& a, int i, u64 u) { return (u64)(es(a, sz, i) >> u); });
			sh(p + "bitrevi" + T, [=](V& a, int i, u64 u) { return eu(a, sz, i) ^ (1ull << u); });
			sh(p + "bitseti" + T, [=](V& a, int i, u64 u) { return eu(a, sz, i) | (1ull << u); });
			sh(p + "bitclri" + T, [=](V& a, int i, u64 u) { return eu(a, sz, i) & ~(1ull << u); });
			auto un = [&](const std::string& n, auto f) { def(n.c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / sz; i++) ew(o, sz, i, f(c.vj(), i)); return c.setv(o, bits); }); };
			un(p + "pcnt" + T, [=](V& a, int i) { return (u64)__builtin_popcountll(eu(a, sz, i)); });
			un(p + "clz" + T, [=](V& a, int i) { u64 v = eu(a, sz, i), k = 0; for (int j = sz - 1; j >= 0 && !((v >> j) & 1); j--) k++; return k; });
			un(p + "clo" + T, [=](V& a, int i) { u64 v = eu(a, sz, i), k = 0; for (int j = sz - 1; j >= 0 && ((v >> j) & 1); j--) k++; return k; });
			un(p + "neg" + T, [=](V& a, int i) { return (u64)0 - eu(a, sz, i); });
			// permutations inside each 128-bit lane
			const int n = 128 / sz;
			auto perm = [&](const std::string& nm, auto f) { def(nm.c_str(), [=](Ctx& c) { V o = {}; for (int L = 0; L < bits / 128; L++) for (int i = 0; i < n; i++) {
				auto [fromk, src] = f(i); ew(o, sz, L * n + i, eu(fromk ? c.vk() : c.vj(), sz, L * n + src)); } return c.setv(o, bits); }); };
			perm(p + "ilvl" + T, [=](int i) { return std::pair<bool, int>(!(i & 1), i / 2); });
			perm(p + "ilvh" + T, [=](int i) { return std::pair<bool, int>(!(i & 1), n / 2 + i / 2); });
			perm(p + "pickev" + T, [=](int i) { return std::pair<bool, int>(i < n / 2, 2 * (i % (n / 2))); });
			perm(p + "pickod" + T, [=](int i) { return std::pair<bool, int>(i < n / 2, 2 * (i % (n / 2)) + 1); });
			perm(p + "packev" + T, [=](int i) { return std::pair<bool, int>(!(i & 1), i & ~1); });
			perm(p + "packod" + T, [=](int i) { return std::pair<bool, int>(!(i & 1), i | 1); });
			def((p + "replgr2vr" + T).c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / sz; i++) ew(o, sz, i, c.J()); return c.setv(o, bits); });
			def((p + "replve" + T).c_str(), [=](Ctx& c) { V o = {}; u64 k = c.K() % n; for (int L = 0; L < bits / 128; L++) for (int i = 0; i < n; i++) ew(o, sz, L * n + i, eu(c.vj(), sz, L * n + (int)k)); return c.setv(o, bits); });
			const int il = sz == 8 ? 4 : sz == 16 ? 3 : sz == 32 ? 2 : 1;
			if (!x) {
				def(("vreplvei" + T).c_str(), [=](Ctx& c) { V o = {}; int k = c.bits(10 + il - 1, 10); for (int i = 0; i < n; i++) ew(o, sz, i, eu(c.vj(), sz, k)); return c.setv(o, 128); });
				def(("vinsgr2vr" + T).c_str(), [=](Ctx& c) { V o = c.vd(); ew(o, sz, c.bits(10 + il - 1, 10), c.J()); return c.setv(o, 128); });
				def(("vpickve2gr" + T).c_str(), [=](Ctx& c) { return c.set((u64)es(c.vj(), sz, c.bits(10 + il - 1, 10))); });
				def(("vpickve2gr" + TU).c_str(), [=](Ctx& c) { return c.set(eu(c.vj(), sz, c.bits(10 + il - 1, 10))); });
			} else if (sz >= 32) {
				const int xl = il + 1;
				def(("xvpickve2gr" + T).c_str(), [=](Ctx& c) { return c.set((u64)es(c.vj(), sz, c.bits(10 + xl - 1, 10))); });
				def(("xvpickve2gr" + TU).c_str(), [=](Ctx& c) { return c.set(eu(c.vj(), sz, c.bits(10 + xl - 1, 10))); });
				def(("xvpickve" + T).c_str(), [=](Ctx& c) { V o = {}; ew(o, sz, 0, eu(c.vj(), sz, c.bits(10 + xl - 1, 10))); return c.setv(o, 256); });
				def(("xvinsve0" + T).c_str(), [=](Ctx& c) { V o = c.vd(); ew(o, sz, c.bits(10 + xl - 1, 10), eu(c.vj(), sz, 0)); return c.setv(o, 256); });
				def(("xvinsgr2vr" + T).c_str(), [=](Ctx& c) { V o = c.vd(); ew(o, sz, c.bits(10 + xl - 1, 10), c.J()); return c.setv(o, 256); });
			}
			def((p + "setanyeqz" + T).c_str(), [=](Ctx& c) { bool r = false; for (int i = 0; i < bits / sz; i++) r |= eu(c.vj(), sz, i) == 0; return c.setcc(c.bits(2, 0), r); });
			def((p + "setallnez" + T).c_str(), [=](Ctx& c) { bool r = true; for (int i = 0; i < bits / sz; i++) r &= eu(c.vj(), sz, i) != 0; return c.setcc(c.bits(2, 0), r); });
		}
		def((p + "seteqz.v").c_str(), [=](Ctx& c) { bool z = true; for (int i = 0; i < bits / 64; i++) z &= c.vj().du[i] == 0; return c.setcc(c.bits(2, 0), z); });
		def((p + "setnez.v").c_str(), [=](Ctx& c) { bool z = true; for (int i = 0; i < bits / 64; i++) z &= c.vj().du[i] == 0; return c.setcc(c.bits(2, 0), !z); });
		auto lv = [&](const char* nm, auto f) { def((p + nm).c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 64; i++) o.du[i] = f(c.vj().du[i], c.vk().du[i]); return c.setv(o, bits); }); };
		lv("and.v", [](u64 a, u64 b) { return a & b; }); lv("or.v", [](u64 a, u64 b) { return a | b; }); lv("xor.v", [](u64 a, u64 b) { return a ^ b; });
		lv("nor.v", [](u64 a, u64 b) { return ~(a | b); }); lv("orn.v", [](u64 a, u64 b) { return a | ~b; }); lv("andn.v", [](u64 a, u64 b) { return ~a & b; });
		auto li = [&](const char* nm, auto f) { def((p + nm).c_str(), [=](Ctx& c) { V o = {}; u8 im = (u8)c.bits(17, 10); for (int i = 0; i < bits / 8; i++) o.bu[i] = f(c.vj().bu[i], im); return c.setv(o, bits); }); };
		li("andi.b", [](u8 a, u8 b) { return (u8)(a & b); }); li("ori.b", [](u8 a, u8 b) { return (u8)(a | b); }); li("xori.b", [](u8 a, u8 b) { return (u8)(a ^ b); }); li("nori.b", [](u8 a, u8 b) { return (u8)~(a | b); });
		def((p + "bitsel.v").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 64; i++) o.du[i] = (c.vj().du[i] & ~c.va().du[i]) | (c.vk().du[i] & c.va().du[i]); return c.setv(o, bits); });
		def((p + "shuf.b").c_str(), [=](Ctx& c) { V o = {}; bool ok = true; for (int L = 0; L < bits / 128; L++) for (int i = 0; i < 16; i++) { int k = c.va().bu[L * 16 + i]; if (k >= 32) { ok = false; continue; }
			o.bu[L * 16 + i] = k < 16 ? c.vk().bu[L * 16 + k] : c.vj().bu[L * 16 + k - 16]; }
			if (!ok) return UNDEF; return c.setv(o, bits); });
		auto hadd = [&](const char* nm, int sz, bool sg) { def((p + nm).c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / (2 * sz); i++) {
			u64 a = sg ? (u64)es(c.vj(), sz, 2 * i + 1) : eu(c.vj(), sz, 2 * i + 1), b = sg ? (u64)es(c.vk(), sz, 2 * i) : eu(c.vk(), sz, 2 * i); ew(o, 2 * sz, i, a + b); } return c.setv(o, bits); }); };
		hadd("haddw.h.b", 8, true); hadd("haddw.w.h", 16, true); hadd("haddw.d.w", 32, true); hadd("haddw.hu.bu", 8, false); hadd("haddw.wu.hu", 16, false); hadd("haddw.du.wu", 32, false);
		def((p + "haddw.q.d").c_str(), [=](Ctx& c) { V o = {}; for (int L = 0; L < bits / 128; L++) { i128 s = (i128)c.vj().d[2 * L + 1] + (i128)c.vk().d[2 * L]; o.du[2 * L] = (u64)s; o.du[2 * L + 1] = (u64)((u128)s >> 64); } return c.setv(o, bits); });
		def((p + "mskltz.b").c_str(), [=](Ctx& c) { V o = {}; for (int L = 0; L < bits / 128; L++) { u64 m = 0; for (int i = 0; i < 16; i++) m |= (u64)(c.vj().b[L * 16 + i] < 0) << i; o.du[2 * L] = m; } return c.setv(o, bits); });
		def((p + "msknz.b").c_str(), [=](Ctx& c) { V o = {}; for (int L = 0; L < bits / 128; L++) { u64 m = 0; for (int i = 0; i < 16; i++) m |= (u64)(c.vj().bu[L * 16 + i] != 0) << i; o.du[2 * L] = m; } return c.setv(o, bits); });
		def((p + "frstpi.b").c_str(), [=](Ctx& c) { V o = c.vd(); u32 im = c.bits(14, 10) % 16; for (int L = 0; L < bits / 128; L++) { int i = 0; while (i < 16 && c.vj().b[L * 16 + i] >= 0) i++; o.bu[L * 16 + im] = (u8)i; } return c.setv(o, bits); });
		// vldi
		def((p + "ldi").c_str(), [=](Ctx& c) { u32 im = c.bits(17, 5); V o = {}; u64 q = 0;
			if (!(im & 0x1000)) { i64 v = SX(im & 0x3ff, 10); int sz = 8 << ((im >> 10) & 3); for (int i = 0; i < bits / sz; i++) ew(o, sz, i, (u64)v); return c.setv(o, bits); }
			u64 t = im & 0xff; u64 b6 = (t >> 6) & 1, s7 = t >> 7;
			u32 fp32 = (u32)((s7 << 31) | ((b6 ^ 1) << 30) | ((b6 ? 0x1fu : 0u) << 25) | ((t & 0x3f) << 19));
			u64 fp64 = (s7 << 63) | ((b6 ^ 1) << 62) | ((b6 ? 0xffull : 0ull) << 54) | ((t & 0x3f) << 48);
			auto rw = [](u64 w) { return w | (w << 32); }; auto rh = [](u64 h) { return h | (h << 16) | (h << 32) | (h << 48); };
			switch ((im >> 8) & 15) {
			case 0: q = rw(t); break; case 1: q = rw(t << 8); break; case 2: q = rw(t << 16); break; case 3: q = rw(t << 24); break;
			case 4: q = rh(t); break; case 5: q = rh(t << 8); break; case 6: q = rw((t << 8) | 0xff); break; case 7: q = rw((t << 16) | 0xffff); break;
			case 8: q = rh(t | (t << 8)); break; case 9: for (int i = 0; i < 8; i++) if ((t >> i) & 1) q |= 0xffull << (8 * i); break;
			case 10: q = rw(fp32); break; case 11: q = fp32; break; case 12: q = fp64; break;
			default: return UNDEF; }
			for (int i = 0; i < bits / 64; i++) o.du[i] = q; return c.setv(o, bits); });
		// vector FP
		auto f2 = [&](const char* nm, auto f) {
			def((p + nm + ".s").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 32; i++) o.f[i] = f(c.vj().f[i], c.vk().f[i]); return c.setv(o, bits, 32); });
			def((p + nm + ".d").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 64; i++) o.df[i] = f(c.vj().df[i], c.vk().df[i]); return c.setv(o, bits, 64); }); };
		f2("fadd", [](auto a, auto b) { return a + b; }); f2("fsub", [](auto a, auto b) { return a - b; }); f2("fmul", [](auto a, auto b) { return a * b; }); f2("fdiv", [](auto a, auto b) { return a / b; });
		auto f3 = [&](const char* nm, auto f) {
			def((p + nm + ".s").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 32; i++) o.f[i] = f(c.vj().f[i], c.vk().f[i], c.va().f[i]); return c.setv(o, bits, 32); });
			def((p + nm + ".d").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 64; i++) o.df[i] = f(c.vj().df[i], c.vk().df[i], c.va().df[i]); return c.setv(o, bits, 64); }); };
		f3("fmadd", [](auto a, auto b, auto d) { return std::fma(a, b, d); }); f3("fmsub", [](auto a, auto b, auto d) { return std::fma(a, b, -d); });
		f3("fnmadd", [](auto a, auto b, auto d) { return -std::fma(a, b, d); }); f3("fnmsub", [](auto a, auto b, auto d) { return -std::fma(a, b, -d); });
		def((p + "ftintrz.w.s").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 32; i++) o.w[i] = cvt_trunc<i32>(c.vj().f[i]); return c.setv(o, bits); });
		def((p + "ftintrz.l.d").c_str(), [=](Ctx& c) { V o = {}; for (int i = 0; i < bits / 64; i++) o.d[i] = cvt_trunc<i64>(c.vj().df[i]); return c.setv(o, bits); });
	}
	def("xvpermi.q", [](Ctx& c) { u32 im = c.bits(17, 10); if (im & 0xCC) return UNDEF; V d = c.vd(), j = c.vj(), o = {};
		for (int i = 0; i < 2; i++) { u32 k = (im >> (4 * i)) & 3; const V& s = k > 1 ? d : j; o.du[2 * i] = s.du[2 * (k & 1)]; o.du[2 * i + 1] = s.du[2 * (k & 1) + 1]; } return c.setv(o, 256); });
	def("xvpermi.d", [](Ctx& c) { u32 im = c.bits(17, 10); V j = c.vj(), o = {}; for (int i = 0; i < 4; i++) o.du[i] = j.du[(im >> (2 * i)) & 3]; return c.setv(o, 256); });
}
} // namespace ref
