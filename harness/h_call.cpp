// Call monitor: functions called from the host into the guest and, re-entrantly, from system calls.
// The same C source runs natively as the reference; the entry state of each call is recorded by the
// guest itself; a suspended program's registers, stack and counters are compared around every nested call.
#include "lh.hpp"
#include <libloong/debug.hpp>
#include "../guest/calls.h"
extern "C" {
#include "../guest/calls.c"
}
using namespace vh; using namespace loongarch;
static Machine* M; static u64 nested, native_nested; static int depth_now; static std::vector<long> trail, native_trail;
enum Kind { K_NEST, K_DEEP, K_TIMEOUT, K_TIMEOUT_NT, K_FAULT, K_SIMPLE, K_FP, K_N };
static Kind kind_of(long seed) { return (Kind)((u64)seed * 0x9E3779B97F4A7C15ull >> 40) >= 0 ? (Kind)(((u64)seed * 0x9E3779B97F4A7C15ull >> 40) % K_N) : K_NEST; }
static uint32_t cut(long d) { return d > 4 ? 4 : (uint32_t)d; }
extern "C" long host_call(long d, long seed) { // reference
	native_nested++; long r = 0;
	switch (kind_of(seed)) { case K_NEST: r = f_nest(cut(d), (u64)seed); break; case K_DEEP: r = d ? f_deep((uint32_t)(seed & 63), (u64)seed & ~3ull) : 4; break; case K_TIMEOUT: r = -1001; break; case K_TIMEOUT_NT: r = -1002; break; case K_FAULT: r = -1003; break; case K_SIMPLE: r = f_ext((int8_t)seed, (uint8_t)seed, (int16_t)seed, (uint16_t)seed, (int32_t)seed, (uint32_t)(seed >> 9), seed, (u64)seed); break; default: r = f_ret32((uint32_t)seed); }
	native_trail.push_back(r); return r;
}
template <class T> static u64 image(const T& x) { return hash(&x, sizeof x); }
struct Snap { u64 r[32]; ref::V v[32]; u64 pc, fcsr, counter, max; uint8_t cf[8]; };
static Snap snap(Machine& m) { Snap s; memset(&s, 0, sizeof s); auto& R = m.cpu.registers(); for (int i = 0; i < 32; i++) { s.r[i] = R.get(i); memcpy(&s.v[i], &R.getvr(i), 32); } s.pc = R.pc; s.fcsr = R.fcsr(); for (int i = 0; i < 8; i++) s.cf[i] = R.cf(i); s.counter = m.instruction_counter(); s.max = m.max_instructions(); return s; }
static void same(const Snap& a, const Snap& b, const char* what) {
	for (int i = 1; i < 32; i++) if (i != 4 && a.r[i] != b.r[i]) { viol(fmt("nested:register:%s", what), fmt("r%d was %#llx before the nested call and %#llx after", i, (long long)a.r[i], (long long)b.r[i])); return; }
	if (memcmp(a.v, b.v, sizeof a.v) || memcmp(a.cf, b.cf, 8) || a.fcsr != b.fcsr) viol(fmt("nested:fpregister:%s", what), "floating-point or vector state differs after the nested call");
	if (a.pc != b.pc) viol(fmt("nested:pc:%s", what), fmt("%#llx became %#llx", (long long)a.pc, (long long)b.pc));
	if (a.max != b.max || a.counter != b.counter) viol(fmt("nested:counters:%s", what), fmt("counter %llu/%llu became %llu/%llu", (long long)a.counter, (long long)a.max, (long long)b.counter, (long long)b.max));
}
static const char* kn[] = {"nest", "deep", "timeout", "timeout-nothrow", "fault", "simple", "fp"};
static void on_call(Machine& m) {
	auto [d, seed] = m.sysargs<long, long>(); nested++; depth_now++; Kind k = kind_of(seed); Snap before = snap(m); long r = 0; const u64 sp = m.cpu.reg(3); std::string stack((const char*)m.memory.arena_ptr() + sp, std::min<u64>(4096, m.memory.stack_address() - sp)); seen("nesting", fmt("%d %s", depth_now, kn[k]));
	try { switch (k) {
	case K_NEST: r = m.preempt<true, true>(2000000, "f_nest", cut(d), (u64)seed); break;
	case K_DEEP: r = d ? (long)m.preempt<true, true>(2000000, m.address_of("f_deep"), (uint32_t)(seed & 63), (u64)seed & ~3ull) : 4; break;
	case K_TIMEOUT: try { m.preempt<true, true>(100 + (seed & 1023), "f_spin", -1L); viol("nested:no-timeout", "an endless function returned"); } catch (const MachineException& e) { if (e.type() != MACHINE_TIMEOUT) viol("nested:timeout-type", fmt("%d %s", e.type(), e.what())); r = -1001; } break;
	case K_TIMEOUT_NT: m.preempt<false, true>(100 + (seed & 1023), "f_spin", -1L); r = -1002; break;
	case K_FAULT: try { m.preempt<true, true>(5000, "f_fault", (long)(seed & 3)); viol("nested:no-fault", fmt("faulting function %ld returned", seed & 3)); } catch (const MachineException& e) { seen("nested_faults", fmt("%d", e.type())); r = -1003; } break;
	case K_SIMPLE: r = m.preempt<true, true>(5000, "f_ext", (int8_t)seed, (uint8_t)seed, (int16_t)seed, (uint16_t)seed, (int32_t)seed, (uint32_t)(seed >> 9), (int64_t)seed, (u64)seed); break;
	default: r = (long)(int32_t)m.preempt<true, true>(5000, "f_ret32", (uint32_t)seed); } }
	catch (const std::exception& e) { viol(fmt("nested:exception:%s", kn[k]), fmt("depth %d: %s", depth_now, e.what())); }
	Snap after = snap(m); same(before, after, kn[k]); vstat("nested_calls"); if (memcmp(stack.data(), m.memory.arena_ptr() + sp, stack.size())) viol(fmt("nested:stack:%s", kn[k]), "the suspended program's stack changed during the nested call");
	trail.push_back(r); m.set_result(r); depth_now--;
}
static std::string rstr(Rng& r) { u64 n = r.chance(1, 6) ? r.below(3000) : r.below(40); std::string s; while (n--) s += (char)(1 + r.below(255)); return s; }
static float rf(Rng& r) { return (float)(int32_t)r.next() / 256.0f; } static double rd(Rng& r) { return (double)(int64_t)(r.next() >> 14) / 1024.0; }
static int mode; static const char* mn[] = {"vmcall", "vmcall-limited", "timed_vmcall", "preempt", "preempt-saving"};
template <class Ret, class... A> static Ret go(const char* fn, const A&... a) {
	if constexpr (!std::is_integral_v<Ret>) { if (mode == 4) mode = 3; }
	switch (mode) {
	case 0: return M->vmcall<Ret>(fn, A(a)...); case 1: return M->vmcall<Ret, 5000000>(M->address_of(fn), A(a)...);
	case 2: M->timed_vmcall(M->address_of(fn), 5000000, A(a)...); return M->return_value<Ret>();
	case 3: M->cpu.reg(3) = M->memory.stack_address() - 16 * 5; M->preempt<true, false>(5000000, fn, A(a)...); return M->return_value<Ret>();
	default: { M->cpu.reg(3) = M->memory.stack_address() - 16 * 9; Snap b = snap(*M); Ret x = (Ret)M->preempt<true, true>(5000000, fn, A(a)...); same(b, snap(*M), "top"); return x; } }
}
template <class Ret> static bool eq(Ret a, Ret b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class Ret, class... A> static void call(const char* fn, Ret expect, const A&... a) {
	vstat(fmt("calls.%s", mn[mode])); seen("calls", std::string(fn) + mn[mode]); at(status->caseno, fmt("%s by %s", fn, mn[mode])); seen("arguments", hash(fn, strlen(fn), (image(a) ^ ... ^ 0ull)));
	try { Ret got = go<Ret>(fn, a...); if (!eq(got, expect)) viol(fmt("result:%s:%s", fn, mn[mode]), fmt("%s returned %.17g (%llx), natively %.17g (%llx)", fn, (double)got, (long long)got, (double)expect, (long long)expect)); }
	catch (const std::exception& e) { viol(fmt("exception:%s:%s", fn, mn[mode]), e.what()); }
}
// the recorded entry state of a call
struct Want { std::vector<u64> i, f, st; };
static void dump_check(const char* what, const Want& w, const std::vector<std::pair<int, std::string>>& blobs) {
	u64 area = M->address_of("dump_area"); const uint8_t* p = M->memory.arena_ptr() + area; auto q = [&](int o) { u64 v; memcpy(&v, p + o, 8); return v; }; const u64 sp = q(64), top = M->memory.stack_address(); vstat("entry_states"); seen("entry_signatures", what);
	if (sp & 15) viol("entry:sp", fmt("%s: sp %#llx is not 16-byte aligned", what, (long long)sp)); if (sp > top || top - sp > 300000) viol("entry:sp-range", fmt("%s: sp %#llx, stack top %#llx", what, (long long)sp, (long long)top));
	if (q(72) != M->memory.exit_address()) viol("entry:ra", what);
	for (size_t k = 0; k < w.i.size(); k++) { bool blob = false; for (auto& [ix, s] : blobs) if (ix == (int)k) { blob = true; u64 a = q(8 * k); if (a < sp || a > top || s.size() > top - a || memcmp(M->memory.arena_ptr() + a, s.data(), s.size())) viol("entry:blob", fmt("%s: argument %zu at %#llx (sp %#llx) does not hold the passed bytes", what, k, (long long)a, (long long)sp)); } if (!blob && q(8 * k) != w.i[k]) viol("entry:int", fmt("%s: a%zu is %#llx, expected %#llx", what, k, (long long)q(8 * k), (long long)w.i[k])); }
	for (size_t k = 0; k < w.f.size(); k++) if (q(88 + 8 * k) != w.f[k] && !(w.f[k] >> 32 == 0xffffffffu && (uint32_t)w.f[k] == (uint32_t)q(88 + 8 * k))) viol("entry:fp", fmt("%s: fa%zu is %#llx, expected %#llx", what, k, (long long)q(88 + 8 * k), (long long)w.f[k]));
	for (size_t k = 0; k < w.st.size(); k++) { u64 v; memcpy(&v, M->memory.arena_ptr() + sp + 8 * k, 8); if (v != w.st[k]) viol("entry:stack", fmt("%s: stack argument %zu is %#llx, expected %#llx", what, k, (long long)v, (long long)w.st[k])); }
	for (size_t a = 0; a < blobs.size(); a++) for (size_t b = 0; b < a; b++) { u64 x = q(8 * blobs[a].first), y = q(8 * blobs[b].first); if (x < y + blobs[b].second.size() && y < x + blobs[a].second.size()) viol("entry:overlap", what); }
}
static u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; } static u64 fbits(float d) { uint32_t u; memcpy(&u, &d, 4); return 0xffffffff00000000ull | u; }
enum class E8 : int8_t { A = -3, B = 100 }; enum class EU : uint32_t { A = 0x90000000u, B = 7 };
static void entries(Rng& r) {
	M->cpu.registers(); switch (r.below(6)) {
	case 0: { int8_t a = r.next(); uint8_t b = r.next(); int16_t c = r.next(); uint16_t d = r.next(); int32_t e = r.next(); uint32_t f = r.next(); go<long>("dump", a, b, c, d, e, f, E8::A, EU::A); dump_check("integers", {{(u64)(int64_t)a, b, (u64)(int64_t)c, d, (u64)(int64_t)e, (u64)(int64_t)(int32_t)f, (u64)-3ll, 0xffffffff90000000ull}, {}, {}}, {}); break; }
	case 1: { std::string a = rstr(r), b = rstr(r); const char* pb = b.c_str(); int64_t c = r.next(); go<long>("dump", a, c, pb, true); dump_check("strings", {{0, (u64)c, 0, 1}, {}, {}}, {{0, std::string(a.c_str(), a.size() + 1)}, {2, std::string(pb, strlen(pb) + 1)}}); break; }
	case 2: { double a = rd(r), c = rd(r); float b = rf(r); u64 d = r.next(); go<long>("dump", a, d, b, c); dump_check("floats", {{d}, {dbits(a), fbits(b), dbits(c)}, {}}, {}); break; }
	case 3: { S1 s; memset(&s, 0, sizeof s); s.a = r.next(); s.c = r.next(); S3 t; for (auto& x : t.v) x = r.next(); t.w = rd(r); int32_t k = r.next(); go<long>("dump", s, k, t); dump_check("structs", {{0, (u64)(int64_t)k, 0}, {}, {}}, {{0, std::string((char*)&s, sizeof s)}, {2, std::string((char*)&t, sizeof t)}}); break; }
	case 4: { u64 v[11]; for (auto& x : v) x = r.next(); go<long>("dump", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], (uint32_t)v[9], (int8_t)v[10]); dump_check("eleven integers", {{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]}, {}, {v[8], (u64)(int64_t)(int32_t)v[9], (u64)(int64_t)(int8_t)v[10]}}, {}); break; }
	default: { double d[10]; for (auto& x : d) x = rd(r); int64_t a = r.next(); go<long>("dump", d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], a, d[8], d[9]); dump_check("ten doubles", {{(u64)a, dbits(d[8]), dbits(d[9])}, {dbits(d[0]), dbits(d[1]), dbits(d[2]), dbits(d[3]), dbits(d[4]), dbits(d[5]), dbits(d[6]), dbits(d[7])}, {}}, {}); break; } }
}
static void one(Rng& r) {
	mode = r.below(5); uint32_t U[4]; for (auto& u : U) u = (uint32_t)r.interesting(); u64 Q[4]; for (auto& q : Q) q = r.interesting(); auto i8 = [&] { return (int8_t)r.next(); };
	static const bool dbg = kv("debugger") == "1"; int kind = dbg ? 15 : r.below(16); if (kind == 15 && !dbg) kind = 16;
	switch (kind) {
	case 0: { int8_t a = i8(); uint8_t b = i8(); int16_t c = r.next(); uint16_t d = r.chance(1, 3) ? 0xfffe : r.next(); call("f_ext", f_ext(a, b, c, d, (int32_t)U[0], U[1], Q[0], Q[1]), a, b, c, d, (int32_t)U[0], U[1], (int64_t)Q[0], Q[1]); break; }
	case 1: call("f_u32", f_u32(U[0], U[1], (int32_t)U[2]), U[0], U[1], (int32_t)U[2]); break;
	case 2: { bool a = r.next() & 1; char b = i8(); signed char c = i8(); call("f_bool", f_bool(a, b, c), a, b, c); break; }
	case 3: { int8_t a = i8(), k = i8(); uint8_t d = i8(); uint16_t f = r.next(); int16_t m = r.next(); call("f_many", f_many(a, U[0], Q[0], d, (int32_t)U[1], f, Q[1], Q[2], (int32_t)U[2], U[3], k, Q[3], m), a, U[0], (int64_t)Q[0], d, (int32_t)U[1], f, (int64_t)Q[1], Q[2], (int32_t)U[2], U[3], k, Q[3], m); break; }
	case 4: { double a = rd(r), c = rd(r), e = rd(r), g = rd(r); float b = rf(r), d = rf(r), f = rf(r), h = rf(r); call("f_fp8", f_fp8(a, b, c, d, e, f, g, h), a, b, c, d, e, f, g, h); break; }
	case 5: { double a = rd(r), c = rd(r), e = rd(r), g = rd(r), i = rd(r), k = rd(r); float b = rf(r), d = rf(r), f = rf(r), h = rf(r), j = rf(r); call("f_fp11", f_fp11(a, b, c, d, e, f, g, h, i, j, k), a, b, c, d, e, f, g, h, i, j, k); break; }
	case 6: { double b = rd(r), f = rd(r), j = rd(r), n = rd(r), rr = rd(r); float d = rf(r), h = rf(r), l = rf(r), p = rf(r), s = rf(r); uint8_t g = i8(); int8_t q = i8(); call("f_mix", f_mix((int32_t)U[0], b, U[1], d, Q[0], f, g, h, Q[1], j, (int32_t)U[2], l, U[3], n, Q[2], p, q, rr, s, U[0]), (int32_t)U[0], b, U[1], d, (int64_t)Q[0], f, g, h, (int64_t)Q[1], j, (int32_t)U[2], l, U[3], n, (int64_t)Q[2], p, q, rr, s, U[0]); break; }
	case 7: { float a = rf(r); call("f_retf", f_retf(a, U[0]), a, U[0]); break; }
	case 8: call("f_ret32", f_ret32(U[0]), U[0]); call("f_retu32", f_retu32(U[1]), U[1]); call("f_ret8", f_ret8((int32_t)U[2]), (int32_t)U[2]); call("f_retu16", f_retu16((int32_t)U[3]), (int32_t)U[3]); break;
	case 9: { std::string a = rstr(r), b = rstr(r); const char* pb = b.c_str(); call("f_str", f_str(a.c_str(), U[0], pb), a, U[0], pb); break; }
	case 10: { S1 a{(int32_t)U[0], rf(r), Q[0], (int16_t)U[1]}; S2 b{(uint8_t)U[2]}; S3 c; for (auto& v : c.v) v = r.next(); c.w = rd(r); call("f_struct", f_struct(&a, U[3], &b, &c), a, U[3], b, c); break; }
	case 11: { std::string s[9]; for (auto& x : s) x = rstr(r); call("f_strmany", f_strmany(s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str(), s[4].c_str(), s[5].c_str(), s[6].c_str(), s[7].c_str(), s[8].c_str(), U[0]), s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], U[0]); break; }
	case 12: case 13: { uint32_t d = r.below(6); u64 s = r.next(); trail.clear(); native_trail.clear(); nested = native_nested = 0; call("f_nest", f_nest(d, s), d, s); if (trail != native_trail) viol("nested:history", fmt("%zu nested results, natively %zu", trail.size(), native_trail.size())); seen("nest_histories", hash(trail.data(), trail.size() * 8)); if (r.chance(1, 200)) sample(fmt("f_nest(%u): %zu re-entrant calls agreed with native execution", d, trail.size())); break; }
	case 14: { // limits and faults leave a machine that can be called again
		std::string how; int t = -1; try { switch (mode) { case 0: t = -2; M->vmcall("f_fault", (long)r.below(4)); break; case 1: M->vmcall<long, 3000>("f_spin", -1L); break; case 2: M->timed_vmcall(M->address_of("f_spin"), 1 + r.below(5000), -1L); break; case 3: M->cpu.reg(3) = M->memory.stack_address(); M->preempt<true, false>(1 + r.below(5000), "f_spin", -1L); break; default: M->cpu.reg(3) = M->memory.stack_address(); M->preempt<true, true>(1 + r.below(5000), "f_spin", -1L); } how = "returned"; } catch (const MachineException& e) { how = e.what(); if (t == -1 && e.type() != MACHINE_TIMEOUT) viol("timeout:type", how); } catch (const std::exception& e) { viol("timeout:host-exception", e.what()); }
		if (how == "returned") viol(fmt("%s:%s", t == -2 ? "fault" : "timeout", mn[mode]), "the call returned"); vstat("failed_calls"); seen("failures", how + mn[mode]);
		if (mode == 1 || mode == 2) { long n = r.below(200); M->memory.write<u64>(M->address_of("counter_cell"), 5); call("f_spin", 77l, n); if (M->memory.read<u64>(M->address_of("counter_cell")) != 5 + (u64)n) viol("spin:cell", "loop count"); } break; }
	case 15: { // calls by the debugger: string arguments only, its own budget
		DebugMachine d(*M); d.verbose_instructions = d.verbose_registers = false; int n = r.range(1, 12); std::vector<std::string> a; for (int i = 0; i < n; i++) a.push_back(i ? rstr(r) : std::string(1, (char)('0' + n)) + rstr(r)); const char* v[12]; for (int i = 0; i < 12; i++) v[i] = i < n ? a[i].c_str() : "";
		long want = f_str12(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]), got = 0; std::string how = "returned"; if (r.chance(1, 4)) M->set_instruction_counter(r.chance(1, 2) ? 2000000 : r.below(2000000));
		try { got = d.vmcall(M->address_of("f_str12"), 1000000, a); } catch (const std::exception& e) { how = e.what(); } vstat("debugger_calls"); seen("calls", fmt("debug f_str12 %d", n)); if (how != "returned" || got != want) viol("debugger:call", fmt("%d strings: %s, result %lx, natively %lx", n, how.c_str(), got, want)); if (M->instruction_limit_reached()) viol("debugger:limit", "a call that returned is reported as a timeout"); break; }
	default: entries(r); }
}
int main(int argc, char** argv) {
	init(argc, argv); std::ifstream f(kv("guest"), std::ios::binary); static std::string bin((std::istreambuf_iterator<char>(f)), {}); if (bin.empty()) { fprintf(stderr, "no guest program\n"); return 2; }
	static MachineOptions o; o.memory_max = 16 << 20; o.stack_size = 1 << 20; o.brk_size = 1 << 16; o.use_shared_execute_segments = false; static Machine m{std::string_view(bin), o}; M = &m; m.set_options(std::make_shared<MachineOptions>(o));
	Machine::install_syscall_handler(500, [](Machine& m) { m.stop(); }); Machine::install_syscall_handler(502, on_call); m.memory.set_exit_address(m.address_of("fast_exit"));
	run_cases(opt.cases ? opt.cases : 300, [&](u64, Rng& r) { for (int i = 0; i < 40; i++) one(r); });
	return finish();
}
