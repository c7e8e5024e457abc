// Host hook monitor: programs that make random system calls (and read the clock) while a model knows which
// handler each number has.  Every handler checks, online, that it is the one installed for the number the
// guest gave, that it runs on the right machine with exactly the guest's registers and pc, reads its arguments
// by random types, and then answers, changes registers, throws, stops, calls on, reinstalls handlers or runs
// another machine; what the guest sees of it afterwards is checked at the next call and at the end.
#include "lh.hpp"
using namespace vh; using namespace loongarch;
static const u64 SIZE = 0x20000, RO = 0x8000, TEXT = 0x8000, DATA = 0x10000, STR = 0x18000; static const int NH = 8, MAX = LA_SYSCALLS_MAX, END = 500;
static std::map<unsigned, int> table; static int unknown = -1; // the model: -1 is the built-in one
enum Color : int32_t { C_A, C_B, C_NEG = -5 }; enum class Tiny : uint8_t { A, B };
struct Rec { int32_t a; double b; char c[5]; }; struct Two { uint16_t x; uint8_t y; };
struct Odd { int tag; };
typedef __int128 i128;
struct Mon; static void handled(Machine& m, int id, bool unk, int num); static uint64_t clock_of(Machine& m);
template <int N> static void H(Machine& m) { handled(m, N, false, 0); }
template <int N> static void U(Machine& m, int num) { handled(m, N, true, num); }
static Machine::syscall_t* const hs[NH] = {H<0>, H<1>, H<2>, H<3>, H<4>, H<5>, H<6>, H<7>};
static Machine::unknown_syscall_t* const us[3] = {U<0>, U<1>, U<2>};
static void finish_call(Machine& m);
static int live = 0, deepest = 0;
struct Mon {
	Rng& r; std::unique_ptr<Machine> M; std::vector<uint32_t> w; std::vector<std::string> what; u64 R[32]; u64 F[32]; u64 pc = TEXT; int mode; u64 max_calls; bool failed = false, over = false; std::string log; u64 calls = 0; int throwing = -1; // what the last handler threw
	bool stop_asked = false; int pending = -2, pend_unk = 0, pend_num = 0; // a call a handler makes itself: who must get it
	u64 clock = 0, clock_reads = 0; std::set<int> touched;
	Mon(Rng& r, int mode) : r(r), mode(mode) { MachineOptions o; o.memory_max = SIZE; o.use_shared_execute_segments = r.chance(1, 2); M = std::make_unique<Machine>(std::string_view{}, o); M->set_options(std::make_shared<MachineOptions>(o)); M->memory.allocate_custom_arena(SIZE, RO, DATA); M->set_userdata(this); Machine::install_syscall_handler(END, finish_call);
		std::vector<uint8_t> mem(SIZE - DATA - 16); for (auto& b : mem) b = r.chance(1, 12) ? 0 : (uint8_t)r.range(1, 255); M->memory.copy_to_guest(DATA, mem.data(), mem.size()); memset((char*)M->memory.arena_ptr() + SIZE - 16, 0, 16); build(); }
	void emit(uint32_t x) { w.push_back(x); }
	u64 number() { switch (r.below(10)) { case 0: return 0; case 1: return MAX - 1 - r.below(2); case 2: return MAX + r.below(3); case 3: { static const u64 t[] = {0x7fffffff, 0xffffffff80000000, ~0ull, 0xfffffffffffffe00, 0x10000, 0x400, 0x3ff}; return t[r.below(7)]; } case 4: return r.below(MAX); case 5: return 490; default: { auto it = table.begin(); std::advance(it, r.below(table.size())); return it->first; } } }
	void build() { int n = r.range(1, 10); u64 tab = DATA; 
		for (int i = 0; i < n; i++) { u64 at = tab + i * 64; u64 v[8]; for (auto& x : v) x = r.chance(1, 2) ? r.interesting() : r.chance(5, 6) ? STR + r.below(0x7ff0) : SIZE - r.below(24); if (r.chance(1, 3)) v[1] = r.below(200); if (r.chance(1, 4)) v[2] = r.below(20); v[7] = number(); if (v[7] == END) v[7] = 499; M->memory.copy_to_guest(at, v, 64);
			for (int k = 0; k < 8; k++) if (k == 7 || r.chance(2, 3)) emit(0x28C00000u | (i * 64 + k * 8) << 10 | 23 << 5 | (4 + k)); // ld.d
			for (int k = r.below(4); k--;) emit(lh::addi_d(12 + r.below(8), 12 + r.below(8), r.range(-2048, 2047)));
			switch (r.below(8)) { case 0: emit(0x002A0000u | (uint32_t)r.below(0x8000)); break; case 1: emit(0x00006800u | (12 + r.below(8))); break; case 2: emit(0x18000000u | 2 << 5 | 1); emit(lh::SYSCALL0 | (uint32_t)(r.chance(1, 4) ? 490 : r.range(1, END - 1))); break; default: emit(lh::SYSCALL0); } }
		int back = -(int)w.size(); emit(lh::addi_d(24, 24, -1)); back--; emit(0x44000000u | ((uint32_t)back & 0xffff) << 10 | 24 << 5 | (((uint32_t)back >> 16) & 0x1f)); // bnez s1
		emit(lh::addi_d(11, 0, END)); emit(lh::SYSCALL0); emit(lh::SYSCALL0);
		M->memory.copy_into_arena_unsafe(TEXT, w.data(), w.size() * 4); M->memory.evict_execute_segments(); M->cpu.init_slowpath_execute_area(w.data(), TEXT, w.size() * 4); if (mode) M->cpu.init_execute_area(w.data(), TEXT, w.size() * 4);
		auto& G = M->cpu.registers(); for (int i = 0; i < 32; i++) { R[i] = i ? r.interesting() : 0; F[i] = r.chance(1, 3) ? 0x3ff0000000000000 + r.next() % 1000 : r.next(); G.get(i) = 0; if (i) G.get(i) = R[i]; G.getvr(i).du[0] = F[i]; } set(23, DATA); set(24, r.range(1, 3)); G.pc = TEXT; }
	void set(int i, u64 v) { R[i] = v; M->cpu.reg(i) = v; }
	void bad(const std::string& k, const std::string& d) { if (!failed) viol(fmt("%s:mode%d", k.c_str(), mode), d + " | " + (log.size() > 600 ? "..." + log.substr(log.size() - 600) : log)); failed = true; }
	// the model runs the program up to the next call
	uint32_t advance(bool to_clock = false) { for (int k = 0; k < 10000; k++) { if (pc < TEXT || pc >= TEXT + w.size() * 4) return 0; uint32_t x = w[(pc - TEXT) / 4]; if ((x >> 15) == (lh::SYSCALL0 >> 15) || (x >> 15) == (0x002A0000u >> 15)) return x; int rd = x & 31, rj = x >> 5 & 31; pc += 4;
			if ((x >> 22) == (0x28C00000u >> 22)) { u64 a = R[rj] + ((int64_t)(x << 10) >> 0, (int64_t)((int32_t)(x << 10) >> 20)); u64 v; memcpy(&v, M->memory.arena_ptr() + a, 8); R[rd] = v; }
			else if ((x >> 22) == (0x02C00000u >> 22)) R[rd] = R[rj] + (int64_t)((int32_t)(x << 10) >> 20);
			else if ((x >> 25) == (0x18000000u >> 25)) R[rd] = pc - 4 + (int64_t)((int32_t)(x << 7) >> 12) * 4;
			else if ((x & 0xffffffe0u) == 0x00006800u) { if (!clock_reads) { bad("clock", "the clock was not read"); return 0; } clock_reads--; R[rd] = clock; if (to_clock) return x; }
			else { int32_t off = (int32_t)((x >> 10 & 0xffff) | (x & 0x1f) << 16); off = off << 11 >> 11; if (R[rj]) pc = pc - 4 + (int64_t)off * 4; } }
		return 0; }
	bool compare(const char* where) { auto& G = M->cpu.registers(); for (int i = 0; i < 32; i++) if (G.get(i) != R[i]) { bad("register", fmt("%s: r%d is %#llx, expected %#llx", where, i, (long long)G.get(i), (long long)R[i])); return false; }
		for (int i = 0; i < 32; i++) if (G.getvr(i).du[0] != F[i]) { bad("register", fmt("%s: f%d is %#llx, expected %#llx", where, i, (long long)G.getvr(i).du[0], (long long)F[i])); return false; } return true; }
	// --- typed arguments ---
	bool readable(u64 a, u64 n) { return a >= RO && a <= SIZE && n <= SIZE - a; }
	bool legal = true, unsure = false; // of the arguments asked for so far, in the model
	template <class T> T want(int& i, int& f) {
		if constexpr (std::is_floating_point_v<T>) { T v; memcpy(&v, &F[f++], sizeof v); return v; }
		else if constexpr (std::is_same_v<T, std::string_view>) { u64 a = R[4 + i], n = R[5 + i]; i += 2; if (n == 0 && !readable(a, 1)) unsure = true; if (!readable(a, n)) { legal = false; return {}; } return {(const char*)M->memory.arena_ptr() + a, (size_t)n}; }
		else if constexpr (std::is_same_v<T, std::string>) { u64 a = R[4 + i++]; if (a == SIZE) unsure = true; if (!readable(a, 1)) { legal = false; return {}; } auto p = (const char*)M->memory.arena_ptr() + a; return std::string(p, strnlen(p, std::min<u64>(SIZE - a, 4096))); }
		else if constexpr (std::is_pointer_v<T>) { u64 a = R[4 + i++]; if (!readable(a, sizeof(std::remove_pointer_t<T>))) { legal = false; return nullptr; } return (T)(M->memory.arena_ptr() + a); }
		else if constexpr (sizeof(T) == 16 && std::is_same_v<T, i128>) { i128 v = (i128)((unsigned __int128)R[5 + i] << 64 | R[4 + i]); i += 2; return v; }
		else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) return (T)R[4 + i++];
		else { T v; memset((void*)&v, 0, sizeof v); u64 a = R[4 + i++]; if (!readable(a, sizeof v)) { legal = false; return v; } memcpy((void*)&v, M->memory.arena_ptr() + a, sizeof v); return v; } }
	template <class T> static bool same(const T& a, const T& b) { if constexpr (std::is_same_v<T, std::string>) return a == b; else if constexpr (std::is_same_v<T, std::string_view>) return a.data() == b.data() && a.size() == b.size(); else if constexpr (std::is_scalar_v<T> || std::is_same_v<T, i128>) return !memcmp(&a, &b, sizeof a); else if constexpr (std::is_same_v<T, Rec>) return a.a == b.a && !memcmp(&a.b, &b.b, 8) && !memcmp(a.c, b.c, 5); else return a.x == b.x && a.y == b.y; }
	template <class... A> void args(const char* sig) { legal = true; unsure = false; int i = 0, f = 10; f = 0; std::tuple<A...> e{want<A>(i, f)...}; log += fmt(" args(%s)", sig); seen("signatures", fmt("%s %d", sig, legal)); vstat(legal ? "args_read" : "args_refused"); bool threw = false;
		try { auto got = M->template sysargs<A...>(); if (legal) check(e, got, sig, std::index_sequence_for<A...>{}); } catch (const MachineException& x) { threw = true; if (x.type() != PROTECTION_FAULT) bad("args:type", fmt("%s: exception %d", sig, x.type())); }
		if (threw == legal && !unsure) bad("args:legal", fmt("%s: %s", sig, threw ? "legal arguments were refused" : "illegal arguments were accepted")); }
	template <class E, class G, size_t... I> void check(const E& e, const G& g, const char* sig, std::index_sequence<I...>) { ((same(std::get<I>(e), std::get<I>(g)) || (bad("args:value", fmt("%s: argument %d is another one", sig, (int)I)), 0)), ...); }
	void ask() { switch (r.below(12)) { case 0: args<int, unsigned, long>("int,unsigned,long"); break; case 1: args<int8_t, uint16_t, int16_t, uint8_t, int64_t>("i8,u16,i16,u8,i64"); break; case 2: args<float, int, double, long>("float,int,double,long"); break; case 3: args<std::string_view, int>("view,int"); break; case 4: args<std::string, double>("string,double"); break;
		case 5: args<int, Rec, float>("int,Rec,float"); break; case 6: args<Color, Tiny, uint32_t>("Color,Tiny,u32"); break; case 7: args<const u64*, int>("const u64*,int"); break; case 8: args<i128, int>("i128,int"); break; case 9: args<int, std::string_view, std::string_view, u64>("int,view,view,u64"); break; case 10: args<Two, const char*, double, float>("Two,const char*,double,float"); break;
		default: args<long, long, long, long, long, long, long>("7 longs"); } }
	template <class T> void give(T v, const char* n) { M->set_result(v); log += fmt(" result %s", n); seen("results", n); vstat("results"); if (std::is_same_v<T, float>) { u64 g = M->cpu.registers().getvr(0).du[0]; uint32_t b; memcpy(&b, &v, 4); F[0] = (g & 0xffffffff00000000) | b; } else if (std::is_same_v<T, double>) memcpy(&F[0], &v, 8); }
	void answer() { u64 x = r.interesting(); 
		switch (r.below(13)) { case 0: give<int>((int)x, "int"); R[4] = (int64_t)(int)x; break; case 1: give<unsigned>((unsigned)x, "unsigned"); R[4] = (int64_t)(int)x; break; case 2: give<int64_t>(x, "i64"); R[4] = x; break; case 3: give<u64>(x, "u64"); R[4] = x; break; case 4: give<int16_t>((int16_t)x, "i16"); R[4] = (int64_t)(int16_t)x; break; case 5: give<uint8_t>((uint8_t)x, "u8"); R[4] = (uint8_t)x; break; case 6: give<uint16_t>((uint16_t)x, "u16"); R[4] = (uint16_t)x; break;
		case 7: give<bool>(x & 1, "bool"); R[4] = x & 1; break; case 8: { float f; uint32_t b = (uint32_t)x & 0xff7fffff; memcpy(&f, &b, 4); give<float>(f, "float"); break; } case 9: { double f; u64 b = x & 0xffefffffffffffff; memcpy(&f, &b, 8); give<double>(f, "double"); break; } case 10: give<Color>(C_NEG, "Color"); R[4] = -5; break; case 11: { u64 hi = r.interesting(); give<i128>((i128)((unsigned __int128)hi << 64 | x), "i128"); R[4] = x; R[5] = hi; } break; default: give<int8_t>((int8_t)x, "i8"); R[4] = (int64_t)(int8_t)x; }
		if (M->cpu.reg(4) != R[4] || M->cpu.reg(5) != R[5]) bad("result", fmt("a0 is %#llx, expected %#llx", (long long)M->cpu.reg(4), (long long)R[4])); if (M->template return_value<u64>() != R[4]) bad("result", "return_value"); }
	// who must get a call with this number
	void expect(u64 n, int& id, int& unk, int& num) { uint32_t k = (uint32_t)n; auto it = table.find(k); if (it != table.end()) { id = it->second; unk = 0; } else { id = unknown; unk = 1; num = (int)k; } }
	void got(int id, bool unk, int num) {
		if (failed) { M->stop(); return; }
		if (++calls > max_calls) { bad("calls", "the program makes calls without end"); M->stop(); return; }
		if (pending > -2) { // called by a handler
			int p = pending; pending = -2; if (id != p || unk != (bool)pend_unk || (unk && num != pend_num)) bad("nested", fmt("handler %d%s (%d) answered, expected %d%s (%d)", id, unk ? "u" : "", num, p, pend_unk ? "u" : "", pend_num)); if (r.chance(1, 2)) answer(); vstat("nested_calls"); return; }
		if (throwing >= 0) { bad("exception", "the program went on behind an exception of a handler"); return; }
		uint32_t x = advance(); if (!x) { if (!failed) bad("call", "a system call where there is none"); M->stop(); return; }
		const bool brk = (x >> 15) == (0x002A0000u >> 15); const unsigned imm = brk ? 0 : x & 0x3ff; u64 n = brk ? 0 : imm ? imm : R[11]; int e, u, en = 0; expect(n, e, u, en); log += fmt(" %llx:%s(%lld)->%d%s", (long long)(pc - TEXT), brk ? "break" : imm ? "immediate" : "syscall", (long long)n, id, unk ? "u" : ""); seen("numbers", n); seen("calls", fmt("%d %lld %d", brk + 2 * (imm != 0), n < (u64)MAX + 4 ? (long long)n : -1, u)); vstat(u ? "unknown_calls" : "known_calls");
		if (id != e || unk != (bool)u) bad("handler", fmt("handler %d%s got call %lld, expected %d%s", id, unk ? "u" : "", (long long)n, e, u ? "u" : ""));
		else if (unk && num != en && !((brk || imm) && num == (int)R[11])) bad("number", fmt("the unknown handler got %d instead of %d", num, en));
		if (M->cpu.pc() != pc) bad("pc", fmt("pc is %#llx, expected %#llx", (long long)M->cpu.pc(), (long long)pc)); compare("in the handler"); if (failed) { M->stop(); return; }
		pc += 4; act(id); }
	void install() { unsigned k = r.chance(1, 6) ? MAX + r.below(3) : r.chance(1, 6) ? ~0u : r.below(MAX); if (k == (unsigned)END || k == 490) return; int id = r.below(NH); Machine::install_syscall_handler(k, hs[id]); if (k < (unsigned)MAX) table[k] = id; log += fmt(" install %u=%d", k, id); vstat("installs"); }
	void act(int id) { switch (r.below(12)) {
		case 0: case 1: answer(); break; case 2: case 3: ask(); break; case 4: ask(); answer(); break;
		case 5: for (int k = r.range(1, 4); k--;) { int i = r.range(4, 22); set(i, r.interesting()); } if (r.chance(1, 2)) { int i = r.below(32); F[i] = r.next(); M->cpu.registers().getvr(i).du[0] = F[i]; } log += " regs"; break;
		case 6: { throwing = r.below(3); log += fmt(" throw%d", throwing); vstat("thrown"); if (throwing == 0) throw MachineException(SYSTEM_CALL_FAILED_T, "thrown by a handler", 77 + id); if (throwing == 1) throw std::runtime_error(fmt("handler %d", id)); throw Odd{id}; }
		case 7: M->stop(); stop_asked = true; log += " stop"; vstat("stops"); break;
		case 8: { u64 n = number(); if (n == (u64)END) n = 1; expect(n, pending, pend_unk, pend_num); bool un = r.chance(1, 4) && n < (u64)MAX; if (pend_unk && (pending < 0 || n < (u64)MAX)) { pending = -2; break; } /* the stub of a missing handler reports a7 */ log += fmt(" calls(%lld)", (long long)n); int p = pending; try { if (un) M->unchecked_system_call((unsigned)n); else M->system_call((unsigned)n); } catch (...) { bad("nested", "exception"); } if (pending != -2 && p > -2 && !failed) bad("nested", fmt("nobody got call %lld", (long long)n)); pending = -2; break; }
		case 9: install(); break;
		case 10: if (r.chance(1, 3)) { unknown = r.below(3); Machine::set_unknown_syscall_handler(us[unknown]); log += fmt(" unknown=%d", unknown); } else install(); break;
		default: if (live < 4) { log += " other{"; Mon o(r, r.below(4)); o.run(); log += "}"; if (o.failed) failed = true; vstat("nested_machines"); } } }
	static const ExceptionType SYSTEM_CALL_FAILED_T = ILLEGAL_OPERATION;
	void run() { struct Depth { Depth() { deepest = std::max(deepest, ++live); } ~Depth() { live--; } } d; max_calls = 60; u64 pieces = 0; clock = r.next(); M->cpu.registers().pc = TEXT;
		while (!over && !failed && ++pieces < 2000) { stop_asked = false; bool thrown = false; u64 budget = mode == 2 ? r.range(1, 30) : 100000; int tag = -1, data = 0;
			try { if (mode == 0) { M->set_instruction_counter(0); M->set_max_instructions(budget); M->cpu.simulate_precise(); } else if (mode == 3) M->cpu.simulate_inaccurate(M->cpu.pc()); else M->simulate(budget, 0); }
			catch (const MachineException& e) { thrown = true; data = (int)e.data(); if (e.type() == UNIMPLEMENTED_SYSCALL && throwing < 0) { if (failed) return; uint32_t x = advance(); int id, u = 0, num = 0; const bool brk = x && (x >> 15) == (0x002A0000u >> 15); const unsigned imm = !x || brk ? 0 : x & 0x3ff; if (x) expect(brk ? 0 : imm ? imm : R[11], id, u, num); log += fmt(" %llx:unimplemented(%d)", (long long)(pc - TEXT), data); vstat("unimplemented"); calls++; if (!x || !u || id != -1) { bad("handler", fmt("call %lld reached no handler", (long long)R[11])); return; } if (data != num && !((brk || imm) && data == (int)R[11])) bad("number", fmt("the exception names %d instead of %d", data, num)); throwing = 0; tag = 0; pc += 4; }
				else { tag = 0; if (e.type() != SYSTEM_CALL_FAILED_T) { bad("exception", fmt("machine exception %d: %s", e.type(), e.what())); return; } } }
			catch (const Odd&) { thrown = true; tag = 2; } catch (const std::exception& e) { thrown = true; tag = 1; }
			if (failed) return;
			if (thrown) { if (tag != throwing) { bad("exception", fmt("exception of kind %d, thrown %d", tag, throwing)); return; } throwing = -1; if (M->cpu.pc() != pc - 4) { bad("exception:pc", fmt("pc is %#llx, expected %#llx", (long long)M->cpu.pc(), (long long)pc - 4)); return; } if (!compare("behind an exception")) return; M->cpu.registers().pc = pc; }
			else if (throwing >= 0) { bad("exception", "an exception of a handler was lost"); return; }
			else if (stop_asked || over) { if (!M->stopped()) bad("stop", "stopped() is false"); if (M->cpu.pc() != pc) { bad("stop:pc", fmt("pc is %#llx behind a stop, expected %#llx", (long long)M->cpu.pc(), (long long)pc)); return; } if (!compare("behind a stop")) return; }
			else if (mode != 2) { bad("stop", "the run returned without being asked to"); return; } }
		if (!over && !failed) bad("end", "the program does not end"); seen("histories", log); vstat(fmt("mode%d", mode)); if (r.chance(1, 400)) sample(log.substr(0, 400)); }
	void finished() { uint32_t x = advance(); if (failed) { M->stop(); return; } if (!x || R[11] != END) bad("end", "the program ended early"); else if (M->cpu.pc() != pc) bad("pc", "pc at the end"); else compare("at the end"); pc += 4; over = true; M->stop(); }
};
static Mon* owner(Machine& m) { Mon* o = m.get_userdata<Mon>(); if (!o || o->M.get() != &m) { viol("userdata", "a handler got another machine's user pointer"); fflush(stdout); _exit(3); } return o; }
static void handled(Machine& m, int id, bool unk, int num) { owner(m)->got(id, unk, num); }
static void finish_call(Machine& m) { Mon* o = owner(m); if (o->pending > -2) { o->bad("nested", "the end handler answered"); return; } o->finished(); }
static uint64_t clock_of(Machine& m) { Mon* o = owner(m); if (o->clock_reads) { o->bad("clock", "read twice by one instruction"); } o->clock_reads++; o->clock = o->clock * 5 + 1; o->advance(true); return o->clock; }
int main(int argc, char** argv) {
	init(argc, argv);
	// handlers installed before there is any machine stay installed
	Machine::install_syscall_handler(490, hs[7]); table[490] = 7; if (opt.seed % 2) { Machine::set_unknown_syscall_handler(us[2]); unknown = 2; } Machine::set_rdtime(clock_of);
	static Machine::syscall_t* stub[MAX]; static Machine::unknown_syscall_t* first; const int first_unknown = unknown;
	{ MachineOptions o; o.memory_max = SIZE; Machine m(std::string_view{}, o); for (int i = 0; i < MAX; i++) stub[i] = Machine::get_syscall_handlers()[i]; first = Machine::get_unknown_syscall_handler(); }
	run_cases(opt.cases ? opt.cases : 500, [&](u64, Rng& r) {
		for (auto it = table.begin(); it != table.end();) if (it->first != 490) { Machine::install_syscall_handler(it->first, stub[it->first]); it = table.erase(it); } else ++it; // every case starts from the same table
		if (unknown != first_unknown) { Machine::set_unknown_syscall_handler(first); unknown = first_unknown; }
		for (int i = 0; i < 12; i++) { unsigned k = r.below(MAX); if (k != 490 && k != (unsigned)END) { table[k] = r.below(NH); Machine::install_syscall_handler(k, hs[table[k]]); } }
		for (int i = 0; i < 4; i++) { Mon m(r, i); m.run(); } });
	vstat("deepest_nesting", deepest); return finish(); }
