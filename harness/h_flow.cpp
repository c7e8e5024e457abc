#include <thread>
#include <atomic>
// Control-flow monitor: random programs with every kind of control transfer, over text segments
// from a few words to beyond the reach of each branch encoding, run through the precise, accurate
// and inaccurate interpreters, in one go and in arbitrary instruction-limited slices.
// Oracle: an independent reference run.  At every stop the machine must be exactly where the
// reference is after the number of instructions the machine says it executed.
#include "lh.hpp"
#include <libloong/debug.hpp>
#include <sys/mman.h>
using namespace vh; using namespace loongarch;
static ref::ISA isa;
static u64 TEXT = 0x10000, DATA, DLEN = 0x4000; static const u64 DBASE_OFF = 0x1000;
using ref::i64;
static const int R_FUEL = 31, R_TMP = 30;
enum { S_STOP = 500, S_MIX = 501, S_JUMP = 502, S_PAUSE = 503 };

struct Prog { std::vector<uint32_t> w; ref::State init; u64 fill; std::vector<u64> jump_targets; size_t size; std::vector<std::pair<u64, std::string>> marks; };
struct Event { u64 pc, nr, h; bool operator==(const Event& o) const { return pc == o.pc && nr == o.nr && h == o.h; } };
static Prog* cur; static std::vector<Event> log_m; static u64 pauses; static std::vector<u64> counters_seen; static bool mark_stop;

static u64 mixregs(const u64* r) { u64 h = 77; for (int i = 1; i < 32; i++) h = (h ^ r[i]) * 0x9E3779B97F4A7C15ull + (h >> 29); return h; }
static u64 result_of(u64 h) { return h ^ (h >> 17); }
static void on_sys(Machine& m, int nr) {
	u64 r[32]; for (int i = 0; i < 32; i++) r[i] = m.cpu.reg(i);
	u64 h = mixregs(r); log_m.push_back({m.cpu.pc(), (u64)nr, h}); counters_seen.push_back(m.instruction_counter());
	if (nr == S_MIX || nr == 0) m.cpu.reg(REG_A0) = result_of(h);
	else if (nr == S_JUMP) { if (!cur->jump_targets.empty()) { m.cpu.reg(REG_A0) = 1; u64 t = cur->jump_targets[h % cur->jump_targets.size()]; m.cpu.registers().pc = t - 4; } }
	else if (nr == S_PAUSE) { pauses++; m.stop(); }
	else if (nr == S_STOP) { mark_stop = true; m.stop(); }
}
// reference runner with an event log
struct RefMem : ref::Mem { std::vector<uint8_t> d; bool stray = false; bool load(u64 a, void* p, unsigned n) override { if (a < DATA || a + n > DATA + DLEN) { if (a < (1ull << 40) || a + n < n) stray = true; return false; } memcpy(p, &d[a - DATA], n); return true; }
	bool store(u64 a, const void* p, unsigned n) override { if (a < DATA || a + n > DATA + DLEN) { if (a < (1ull << 40) || a + n < n) stray = true; return false; } memcpy(&d[a - DATA], p, n); return true; } };
enum End { RUNNING, STOPPED, FAULTED, BADREF };
static std::set<std::string> sup_names; static bool unsupported(uint32_t w) { int i = isa.decode(w); return i >= 0 && !sup_names.count(ref::enc_table[i].name); }
struct RefRun { ref::State s; RefMem m; u64 steps = 0; End end = RUNNING; int fault = 0; u64 fault_pc = 0; bool by_jirl = false, by_imm = false; std::vector<Event> log; std::vector<uint8_t> taken; std::vector<u64> pause_at; // taken[i]: step i was a taken transfer
	void reset(const Prog& p) { s = p.init; s.pc = TEXT; m.d.assign(DLEN, 0); Rng r(p.fill); for (size_t i = 0; i < DLEN; i += 8) { u64 v = r.next(); memcpy(&m.d[i], &v, 8); } steps = 0; end = RUNNING; by_jirl = by_imm = false; log.clear(); taken.clear(); pause_at.clear(); }
	static bool mark_null(const Prog& p, u64 pc) { uint32_t w = p.w[(pc - TEXT) / 4]; return (w >> 10) == 0xa3000 && ((w >> 5) & 31) == R_TMP; } // the planted null-page load
	void step(const Prog& p) { m.stray = false;
		if (s.pc & 3) { end = FAULTED; fault = MISALIGNED_INSTRUCTION; fault_pc = s.pc; return; }
		u64 idx = (s.pc - TEXT) / 4; if (s.pc < TEXT || idx >= p.w.size()) { end = FAULTED; fault = EXECUTION_SPACE_PROTECTION_FAULT; fault_pc = s.pc; return; }
		uint32_t w = p.w[idx]; u64 pc = s.pc; by_jirl = (w >> 26) == 0x13; by_imm = false; ref::Wr wr; ref::Status st = isa.step(s, m, w, &wr); s.r[0] = 0;
		if (unsupported(w) || wr.gpr_unknown || w == 0x00150000) { end = BADREF; return; }
		if (st == ref::SYSCALL || st == ref::BREAK) { u64 h = mixregs(s.r); const unsigned imm = st == ref::BREAK ? 0 : w & 0x3ff; u64 nr = st == ref::BREAK ? 0 : imm ? imm : s.r[11]; log.push_back({pc, nr, h}); s.pc = pc + 4;
			if (nr == S_MIX || nr == 0) s.r[4] = result_of(h); else if (nr == S_JUMP) { if (!p.jump_targets.empty()) { s.r[4] = 1; s.pc = p.jump_targets[h % p.jump_targets.size()]; } }
			else if (nr == S_PAUSE) pause_at.push_back(steps + 1); else if (nr == S_STOP) end = STOPPED; else { end = BADREF; }
			if (imm) { s.pc = s.r[1]; by_jirl = by_imm = true; } // a call that returns to its caller
		} else if (st == ref::FAULT) { if (m.stray && !mark_null(p, pc)) { end = BADREF; return; } end = FAULTED; fault = PROTECTION_FAULT; fault_pc = pc; return; }
		else if (st == ref::INVALID) { end = FAULTED; fault = ILLEGAL_OPCODE; fault_pc = pc; return; }
		else if (st != ref::OK) { end = BADREF; return; }
		taken.push_back(s.pc != pc + 4); steps++; }
};
static RefRun full, lock_;

static std::vector<int> pool, pools[4]; static bool nofault, equiv; static int veccls;
static uint32_t body(Rng& r) {
	for (;;) { int i = pool[r.below(pool.size())]; const auto& e = ref::enc_table[i]; std::string n = e.name; uint32_t w = e.match | ((uint32_t)r.next() & ~e.mask);
		auto setf = [&](int lo, uint32_t v) { uint32_t m = (31u << lo) & ~e.mask; w = (w & ~m) | ((v << lo) & m); };
		auto cls = lh::mem_class(n); if (cls == lh::M_IMM) { setf(5, 25 + r.below(2)); if (n.find("ptr.") != std::string::npos) { w &= ~(0x3fffu << 10); w |= ((uint32_t)r.range(-100, 100) & 0x3fff) << 10; } else w = (w & ~(0xfffu << 10)) | (((uint32_t)r.range(-500, 500) & 0xfff) << 10); } else if (cls == lh::M_IDX) { setf(5, 25); setf(10, 27); } else if (cls == lh::M_ATOMIC) { setf(5, 29); if (n[0] != 'a') w = (w & ~(0x3fffu << 10)) | ((uint32_t)r.range(-20, 20) & 0x3fff) << 10; }
		const bool store = n.rfind("st", 0) == 0; uint32_t rd = w & 31; if (!store && (rd >= 25 || rd == 11)) setf(0, 4 + r.below(7));
		if (isa.decode(w) == i) return w; }
}
static bool high() { return TEXT >= 0x70000000; } // the text lies around or above 2 or 4 GiB
static void li(std::vector<uint32_t>& o, int rd, u64 v, bool wide = false) { // 32-bit positive constants, or any
	o.push_back(0x14000000u | (uint32_t)((v >> 12) & 0xfffff) << 5 | rd); o.push_back(0x03800000u | (uint32_t)(v & 0xfff) << 10 | rd << 5 | rd);
	if (wide || high()) { o.push_back(0x16000000u | (uint32_t)((v >> 32) & 0xfffff) << 5 | rd); o.push_back(0x03000000u | (uint32_t)(v >> 52) << 10 | rd << 5 | rd); } }
static uint32_t enc16(uint32_t op, i64 off, int rj, int rd) { return op | (uint32_t)((off >> 2) & 0xffff) << 10 | rj << 5 | rd; }
static uint32_t enc21(uint32_t op, i64 off, int rj) { uint32_t o = (off >> 2) & 0x1fffff; return op | (o & 0xffff) << 10 | rj << 5 | (o >> 16); }
static uint32_t enc26(uint32_t op, i64 off) { uint32_t o = (off >> 2) & 0x3ffffff; return op | (o & 0xffff) << 10 | (o >> 16); }


static std::map<std::string, u64> term_hits;
static void gen(Rng& r, Prog& p, size_t words) {
	p = Prog(); p.fill = r.next(); p.size = words;
	const int filltype = r.below(4); // 0: illegal, 1: nop runs, 2: random, 3: mixed arithmetic
	if (words <= 1 << 14) { p.w.resize(words); for (auto& w : p.w) w = filltype == 0 ? 0 : filltype == 1 ? 0x03400000 : filltype == 2 ? (uint32_t)r.next() : body(r); }
	else p.w.assign(words, filltype == 0 ? 0 : 0x03400000);
	auto& s = p.init; for (int i = 1; i < 32; i++) s.r[i] = r.interesting();
	s.r[25] = DATA + DLEN / 2 + r.range(-100, 100); s.r[26] = DATA + DLEN / 2 + 8 * r.range(-100, 100); s.r[27] = r.range(-700, 700); s.r[28] = s.r[27]; s.r[29] = equiv ? DATA + DLEN / 2 + 8 * r.range(-50, 50) : s.r[25]; s.r[R_FUEL] = r.range(3, 120);
	for (int i = 0; i < 8; i++) s.fcc[i] = r.below(2);
	if (equiv) for (auto& v : s.v) lh::rand_vec(r, v);
	// block starts
	const int slot = 40; int nb = std::min<size_t>(r.range(2, 24), words / slot); std::vector<u64> at; std::set<u64> used;
	at.push_back(0); used.insert(0);
	static const i64 reach[] = {1 << 13, 1 << 15, 1 << 20, 1 << 22}; // distances (in words) near encoding limits
	for (int t = 0; t < nb * 20 && (int)at.size() < nb; t++) { u64 x; switch (r.below(5)) { case 0: x = words - slot; break; case 1: { x = at[r.below(at.size())] + (r.chance(1, 2) ? 1 : -1) * (reach[r.below(4)] + r.range(-64, 64)); break; } case 2: x = at.back() + slot + r.below(8); break; default: x = r.below(words - slot); }
		if (x > words - slot) continue; auto it = used.lower_bound(x); if (it != used.end() && *it < x + slot) continue; if (it != used.begin() && *std::prev(it) + slot > x) continue; used.insert(x); at.push_back(x); }
	nb = at.size();
	auto addr = [&](int b) { return TEXT + at[b] * 4; };
	for (int b = 0; b < nb; b++) if (r.chance(1, 3)) p.jump_targets.push_back(addr(b));
	for (int b = 0; b < nb; b++) {
		std::vector<uint32_t> o; u64 base = addr(b); auto here = [&] { return base + o.size() * 4; };
		o.push_back(lh::addi_d(R_FUEL, R_FUEL, -1)); o.push_back(enc21(0x44000000, 12, R_FUEL)); o.push_back(lh::addi_d(11, 0, S_STOP)); o.push_back(0x002b0000);
		int nbod = r.below(8); for (int i = 0; i < nbod; i++) o.push_back(body(r));
		int terms = r.range(1, 3);
		for (int t = 0; t < terms; t++) {
			int to = r.below(nb); u64 tgt = addr(to); const bool last = t == terms - 1; int kind = r.below(last ? 14 : 16); i64 off;
			int ra = 4 + r.below(8), rb = r.chance(1, 5) ? ra : 4 + r.below(8); if (r.chance(1, 6)) rb = 0; if (r.chance(1, 6)) ra = 0;
			std::string nm;
			static const char* cn[] = {"beq", "bne", "blt", "bge", "bltu", "bgeu"};
			if (kind < 6) { off = (i64)(tgt - here()); if (off < -131072 || off > 131068) { t--; if (r.chance(1, 30)) break; continue; } nm = cn[kind]; o.push_back(enc16(0x58000000u + ((uint32_t)kind << 26), off, ra, rb)); p.marks.push_back({here() - 4, nm}); }
			else if (kind < 10) { off = (i64)(tgt - here()); if (off < -(1 << 22) || off > (1 << 22) - 4) { if (r.chance(1, 30)) break; t--; continue; }
				static const char* zn[] = {"beqz", "bnez", "bceqz", "bcnez"}; nm = zn[kind - 6];
				if (kind < 8) o.push_back(enc21(kind == 6 ? 0x40000000 : 0x44000000, off, ra)); else o.push_back(enc21(0x48000000, off, r.below(8) | (kind == 9 ? 8 : 0))); p.marks.push_back({here() - 4, nm}); }
			else if (kind < 12) { off = (i64)(tgt - here()); if (off < -(1 << 27) || off > (1 << 27) - 4) { if (r.chance(1, 30)) break; t--; continue; } o.push_back(enc26(kind == 10 ? 0x50000000 : 0x54000000, off)); nm = kind == 10 ? "b" : "bl"; p.marks.push_back({here() - 4, nm}); }
			else if (kind < 14) { // jirl: register target with an immediate, all link registers, base == link
				i64 imm = r.chance(1, 2) ? 0 : r.range(-32768, 32767); int link = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 1 : r.chance(1, 4) ? R_TMP : 4 + r.below(8);
				u64 v = tgt - (u64)(imm * 4); if (!nofault && r.chance(1, 40)) v += 1 + r.below(3); // misaligned target
				if (!high() && v >> 31) { imm = 0; v = tgt; }
				li(o, R_TMP, v); o.push_back(enc16(0x4c000000, imm * 4, R_TMP, link)); nm = "jirl"; p.marks.push_back({here() - 4, nm}); }
			else if (kind == 14 && r.chance(1, 3)) { u64 v = tgt; if (!nofault && r.chance(1, 40)) v += 1 + r.below(3); li(o, 1, v); o.push_back(0x002b0000 | ((v & 3) || r.chance(1, 2) ? S_MIX : S_PAUSE)); nm = "syscall imm"; p.marks.push_back({here() - 4, nm}); }
			else if (kind == 14) { int nr = (int[]){S_MIX, S_MIX, S_JUMP, S_PAUSE}[r.below(4)]; o.push_back(lh::addi_d(11, 0, nr)); o.push_back(0x002b0000); nm = "syscall"; p.marks.push_back({here() - 4, nm}); }
			else { o.push_back(0x002a0000 | (r.chance(1, 2) ? (uint32_t)r.below(0x8000) : 0)); nm = "break"; p.marks.push_back({here() - 4, nm}); }
			int nb2 = r.below(3); for (int i = 0; i < nb2 && o.size() < 30; i++) o.push_back(body(r));
			if (o.size() > (high() ? 26 : 30)) break;
		}
		if (!nofault && r.chance(1, 60)) { // end in a fault
			switch (r.below(3)) { case 0: o.push_back(0xffffffffu); break; case 1: if (r.chance(1, 3)) { li(o, R_TMP, addr(r.below(nb)) + (r.chance(1, 2) ? r.range(1, 8) << 32 : 1ull << r.range(31, 63)), true); vstat("far_jumps"); } // only the upper bits lead out of the text
				else li(o, R_TMP, r.chance(1, 4) ? TEXT + words * 4 : r.chance(1, 4) ? TEXT - 4 : r.chance(1, 2) ? TEXT + words * 4 + 4 * r.below(100) : r.below(TEXT / 4) * 4); o.push_back(enc16(0x4c000000, 0, R_TMP, r.below(2))); break;
				default: o.push_back(lh::addi_d(R_TMP, 0, (int)r.below(2000))); o.push_back(0x28c00000u | R_TMP << 5 | 4); } }
		else if (r.chance(5, 6) || b == nb - 1 || words > 1 << 14) { u64 tgt = addr(r.below(nb)); i64 off = (i64)(tgt - here()); if (off >= -(1 << 27) && off < (1 << 27)) o.push_back(enc26(0x50000000, off)); else { li(o, R_TMP, tgt); o.push_back(enc16(0x4c000000, 0, R_TMP, 0)); } }
		for (size_t i = 0; i < o.size() && at[b] + i < words; i++) p.w[at[b] + i] = o[i];
	}
}
static std::unique_ptr<Machine> mach; static MachineOptions mopts;
static std::string where(const Prog& p, u64 pc) { if (pc >= TEXT && pc < TEXT + 4 * p.w.size()) { uint32_t w = p.w[(pc - TEXT) / 4]; int i = isa.decode(w); return fmt("%#llx:%08x(%s)", (long long)pc, w, i < 0 ? "?" : ref::enc_table[i].name); } return fmt("%#llx", (long long)pc); }
static std::string cmp_state(const ref::State& s, const RefMem& mm, bool pc) {
	Machine& m = *mach; for (int i = 0; i < 32; i++) if (m.cpu.reg(i) != s.r[i]) return fmt("r%d=%#llx expected %#llx", i, (long long)m.cpu.reg(i), (long long)s.r[i]);
	if (pc && m.cpu.pc() != s.pc) return fmt("pc=%#llx expected %#llx", (long long)m.cpu.pc(), (long long)s.pc);
	if (memcmp((uint8_t*)m.memory.arena_ptr() + DATA, mm.d.data(), DLEN)) return "guest data differs";
	return ""; }
static const char* mn[] = {"precise", "accurate", "sliced", "inaccurate", "precise-sliced", "debugger"};
// the debugger prints to standard output: collect it in a file
struct Capture { int old, fd; Capture() { fflush(stdout); old = dup(1); fd = memfd_create("trace", 0); dup2(fd, 1); }
	std::string end() { if (old < 0) return ""; fflush(stdout); dup2(old, 1); close(old); old = -1; off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); if (pread(fd, s.data(), n, 0) != n) s.clear(); close(fd); return s; }
	~Capture() { end(); } };
static const char* rn[32] = {"zero","ra","tp","sp","a0","a1","a2","a3","a4","a5","a6","a7","t0","t1","t2","t3","t4","t5","t6","t7","t8","r21","fp","s0","s1","s2","s3","s4","s5","s6","s7","s8"};
// instruction line: where and what, in the words of the decoder's printer; then the registers after it
static std::string judge_trace(const Prog& p, const std::string& t, bool insns, bool regs, bool brief) {
	RefRun q; q.reset(p); size_t at = 0, n = 0; auto line = [&](std::string& l) { if (at >= t.size()) return false; size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size(); l = t.substr(at, e - at); at = e + 1; return true; }; std::string l;
	for (;; n++) { const bool more = q.end == RUNNING; if (more && q.steps >= full.steps && full.end == STOPPED) break; if (!more) break; u64 pc = q.s.pc; u64 before = q.steps; const u64 idx = (pc - TEXT) / 4; const bool inside = pc >= TEXT && idx < p.w.size() && !(pc & 3);
		if (insns && inside) { if (!line(l)) return fmt("the trace ends after %zu instructions", n); std::string want = brief ? "" : fmt("PC: 0x%llx  ", (long long)pc); auto save = mach->cpu.registers().pc; mach->cpu.registers().pc = pc; la_instruction w; w.whole = p.w[idx]; want += mach->cpu.to_string(w); mach->cpu.registers().pc = save; if (l != want) return fmt("trace line %zu is \"%s\", expected \"%s\"", n, l.c_str(), want.c_str()); vstat("trace_lines"); }
		if (insns && (pc & 3)) line(l); // shown before the fetch fails
		q.step(p); if (q.steps == before) break;
		if (full.end == FAULTED && full.fault == MISALIGNED_INSTRUCTION && q.steps == full.steps && !q.by_imm) break; // the faulting jump itself
		if (regs) { u64 npc = 0; bool ok = line(l) && sscanf(l.c_str(), "PC: 0x%llx", (unsigned long long*)&npc) == 1; if (!ok || npc != q.s.pc) return fmt("register dump %zu starts with \"%s\", expected pc %#llx", n, l.c_str(), (long long)q.s.pc);
			for (int i = 0; i < 32; i += 4) { if (!line(l)) return "a register dump is cut short"; char nm[4][16]; unsigned long long v[4]; if (sscanf(l.c_str(), "%15s : 0x%llx %15s : 0x%llx %15s : 0x%llx %15s : 0x%llx", nm[0], v, nm[1], v + 1, nm[2], v + 2, nm[3], v + 3) != 8) return "a register dump line reads \"" + l + "\"";
				for (int k = 0; k < 4; k++) { if (strncmp(nm[k], rn[i + k], strlen(rn[i + k]))) return fmt("register %d is printed as %s", i + k, nm[k]); if (v[k] != q.s.r[i + k]) return fmt("register %s is printed as %#llx after instruction %zu, expected %#llx", nm[k], v[k], n, (long long)q.s.r[i + k]); } }
			line(l); vstat("register_dumps"); } }
	if (at < t.size()) return fmt("the trace goes on after %zu instructions: \"%s\"", n, t.substr(at, 60).c_str());
	return ""; }
static bool prepared_fast;
#ifdef LA_BINARY_TRANSLATION
static bool jit_options; static std::thread jit_thread; static std::atomic<bool> jit_busy{false};
#endif
static void prepare_fast(const Prog& p, Rng& r) {
	Machine& m = *mach;
#ifdef LA_BINARY_TRANSLATION
	if (jit_thread.joinable()) jit_thread.join();
	m.memory.evict_execute_segments();
	memset((uint8_t*)m.memory.arena_ptr() + TEXT, 0, DATA - TEXT); m.memory.copy_into_arena_unsafe(TEXT, p.w.data(), p.w.size() * 4); // the translator reads guest memory
	int live = 0;
	if (jit_options) {
		auto o = std::make_shared<MachineOptions>(mopts);
		o->translate_use_register_caching = r.chance(1, 2);
		if (r.chance(1, 4)) o->translate_blocks_max = 1 + r.below(3);
		if (r.chance(1, 4)) o->translate_instr_max = r.below(p.w.size() * 2 + 2);
		live = r.below(4); // 1: patched before the run, 2: while it runs, 3: not patched
		if (live) o->translate_background_callback = [live](const std::function<void()>& step) { if (live == 1) step(); else if (live == 2) { jit_busy = true; jit_thread = std::thread([step] { step(); jit_busy = false; }); } };
		m.set_options(o);
	}
	auto& seg = m.cpu.init_execute_area(p.w.data(), TEXT, p.w.size() * 4);
	if (jit_options) m.set_options(std::make_shared<MachineOptions>(mopts)); // drops the callback
	vstat(live == 1 ? seg.is_binary_translated() ? "patched" : "not_patched" : live == 2 ? "patched_while_running" : live == 3 ? "never_patched" : seg.is_binary_translated() ? "translated" : "not_translated");
#else
	(void)r; m.memory.evict_execute_segments(); m.cpu.init_execute_area(p.w.data(), TEXT, p.w.size() * 4);
#endif
	prepared_fast = true; }
static std::string run(const Prog& p, int mode, Rng& r) {
	Machine& m = *mach; const bool precise = mode == 0 || mode == 4 || mode == 5; DebugMachine dbg(m); bool ti = false, tr = false; std::unique_ptr<Capture> cap;
	if (mode == 5) { if (full.steps <= 2000 && r.chance(1, 2)) { ti = r.chance(3, 4); tr = !ti || (full.steps <= 400 && r.chance(1, 2)); dbg.short_output = ti && r.chance(1, 5); } dbg.verbose_instructions = ti; dbg.verbose_registers = tr; if (ti || tr) cap.reset(new Capture); }
	if (precise) m.cpu.init_slowpath_execute_area(p.w.data(), TEXT, p.w.size() * 4);
	else if (!prepared_fast) prepare_fast(p, r);
	lh::set_state(m, p.init); m.cpu.registers().pc = TEXT;
	{ RefRun t; t.reset(p); memcpy((uint8_t*)m.memory.arena_ptr() + DATA, t.m.d.data(), DLEN); }
	log_m.clear(); counters_seen.clear(); pauses = 0; mark_stop = false; m.set_instruction_counter(0); lock_.reset(p);
	int caught = -1; std::string what; u64 counter = 0, slices = 0; std::string err;
	try {
		for (;;) {
			u64 limit; if (mode == 2 || mode == 4 || mode == 5) { u64 left = full.steps > counter ? full.steps - counter : 1; limit = counter + (r.chance(1, 3) ? r.range(1, 5) : 1 + r.below(left + left / 4 + 2)); } else limit = UINT64_MAX;
			bool ret = true; u64 pp = pauses;
			if (mode == 5) dbg.simulate(limit); else if (precise) { m.set_max_instructions(limit); m.cpu.simulate_precise(); }
			else if (mode == 3) m.cpu.simulate_inaccurate(m.cpu.pc());
			else ret = m.simulate(limit, counter);
			slices++;
			if (mode != 3) { // exactness of the instruction accounting at this stop
				counter = m.instruction_counter();
				if (precise) { if (mark_stop || pauses != pp) {} else if (counter != limit) return fmt("stopped at %llu instructions with limit %llu", (long long)counter, (long long)limit); }
				const bool stopped = mark_stop || pauses != pp;
				if (counter > full.steps) return fmt("claims %llu instructions, program has %llu", (long long)counter, (long long)full.steps);
				while (lock_.steps < counter && lock_.end == RUNNING) lock_.step(p);
				if (lock_.steps != counter) return fmt("claims %llu instructions but the program ends after %llu", (long long)counter, (long long)lock_.steps);
				err = cmp_state(lock_.s, lock_.m, true); if (!err.empty()) return fmt("after %llu instructions (limit %llu): ", (long long)counter, (long long)limit) + err;
				if (lock_.log.size() != log_m.size()) return fmt("%zu system calls seen after %llu instructions, expected %zu", log_m.size(), (long long)counter, lock_.log.size());
				if (!stopped) {
					if (counter < limit) return fmt("stopped after %llu instructions, limit %llu not reached", (long long)counter, (long long)limit);
					if (!m.instruction_limit_reached()) return "the limit stopped the run but it is not reported as reached";
					if (!precise && ret) return "a run that hit its limit reports a normal stop";
					for (u64 i = limit ? limit - 1 : 0; i + 1 < counter; i++) if (lock_.taken[i]) return fmt("limit %llu passed at a taken transfer (instruction %llu), stopped only after %llu", (long long)limit, (long long)i, (long long)counter);
					vstat("limit_stops"); vstat("overshoot", counter - limit);
				} else { if (m.instruction_limit_reached()) return "a normal stop is reported as limit reached"; if (!ret) return "a normal stop reports a timeout"; }
			}
			if (mark_stop) break;
			if (pauses != pp) vstat("resumed_after_stop");
			if (slices > 3000) return "does not end";
		}
	} catch (const MachineException& e) { caught = e.type(); what = e.what(); }
	catch (const std::exception& e) { return std::string("host exception ") + e.what(); }
	vstat(std::string("slices.") + mn[mode], slices);
	if (cap) { std::string t = cap->end(); err = judge_trace(p, t, ti, tr, dbg.short_output); if (!err.empty()) return err; vstat("traced_programs"); }
	// system-call history
	for (size_t i = 0; i < std::min(full.log.size(), log_m.size()); i++) if (!(full.log[i] == log_m[i])) return fmt("system call %zu: pc %#llx nr %llu, expected pc %#llx nr %llu%s", i, (long long)log_m[i].pc, (long long)log_m[i].nr, (long long)full.log[i].pc, (long long)full.log[i].nr, log_m[i].h == full.log[i].h ? "" : ", registers differ");
	if (full.end == FAULTED) {
		if (caught == -1) return fmt("expected fault %d at %s, ran on", full.fault, where(p, full.fault_pc).c_str());
		bool ok = caught == full.fault;
		if (full.fault == ILLEGAL_OPCODE) ok = caught == ILLEGAL_OPCODE || caught == UNIMPLEMENTED_INSTRUCTION;
		if (full.fault == EXECUTION_SPACE_PROTECTION_FAULT && precise) ok = true; // stepping decodes from readable memory
		if (full.fault == EXECUTION_SPACE_PROTECTION_FAULT && !full.by_jirl && caught == ILLEGAL_OPCODE) ok = true; // running off the end of the text
		if (!ok) return fmt("fault %d (%s), expected %d at %s", caught, what.c_str(), full.fault, where(p, full.fault_pc).c_str());
		vstat(fmt("faults.%d", full.fault));
		if (!precise || full.fault != EXECUTION_SPACE_PROTECTION_FAULT) { err = cmp_state(full.s, full.m, false); if (!err.empty()) return "at fault " + where(p, full.fault_pc) + " caught " + what + fmt(" pc=%#llx: ", (long long)m.cpu.pc()) + err; }
		return "";
	}
	if (caught != -1) return fmt("unexpected fault %d (%s) near %s", caught, what.c_str(), where(p, m.cpu.pc()).c_str());
	if (log_m.size() != full.log.size()) return fmt("%zu system calls, expected %zu", log_m.size(), full.log.size());
	if (mode != 3) for (size_t i = 0; i < counters_seen.size() && mode != 2 && mode < 4; i++) { vstat("counter_reads"); }
	err = cmp_state(full.s, full.m, true); if (!err.empty()) return "at end: " + err;
	return "";
}
// ---- equivalence: all interpreters over the whole instruction set, judged against each other
struct Snap { std::vector<Event> log; u64 r[32]; uint8_t v[32][32]; int fcc[8]; std::vector<uint8_t> mem; u64 pc = 0, count = 0; int fault = -1; bool timeout = false; std::string what; };
static Snap equiv_run(const Prog& p, int mode, u64 limit, Rng& r) {
	Machine& m = *mach; const bool precise = mode == 0; Snap o;
	if (precise) { memset((uint8_t*)m.memory.arena_ptr() + TEXT, 0, DATA - TEXT); m.cpu.init_slowpath_execute_area(p.w.data(), TEXT, p.w.size() * 4); }
	else if (!prepared_fast) prepare_fast(p, r);
	lh::set_state(m, p.init); m.cpu.registers().pc = TEXT;
	{ RefRun t; t.reset(p); memcpy((uint8_t*)m.memory.arena_ptr() + DATA, t.m.d.data(), DLEN); }
	log_m.clear(); counters_seen.clear(); pauses = 0; mark_stop = false; m.set_instruction_counter(0); u64 counter = 0;
	try { for (;;) { u64 pp = pauses;
			if (precise) { m.set_max_instructions(limit); m.cpu.simulate_precise(); } else if (mode == 3) m.cpu.simulate_inaccurate(m.cpu.pc()); else m.simulate(mode == 2 ? std::min(limit, counter + r.range(1, 40)) : limit, counter);
			if (mode != 3) counter = m.instruction_counter();
			if (mark_stop) break;
			if (pauses == pp && mode != 3 && counter >= limit) { o.timeout = true; break; } }
	} catch (const MachineException& e) { o.fault = e.type(); o.what = e.what(); }
	catch (const std::exception& e) { o.fault = 1000; o.what = e.what(); }
	o.log = log_m; o.count = counter; o.pc = m.cpu.pc(); for (int i = 0; i < 32; i++) { o.r[i] = m.cpu.reg(i); memcpy(o.v[i], &m.cpu.registers().getvr(i), 32); } for (int i = 0; i < 8; i++) o.fcc[i] = m.cpu.registers().cf(i) != 0;
	auto* d = (uint8_t*)m.memory.arena_ptr() + DATA; o.mem.assign(d, d + DLEN); return o;
}
static std::string differ(const Snap& a, const Snap& b, bool counts) { const Snap& o = b;
	for (size_t i = 0; i < std::min(a.log.size(), b.log.size()); i++) if (!(a.log[i] == b.log[i])) return fmt("system call #%zu: pc %#llx nr %llu vs pc %#llx nr %llu%s", i, (long long)a.log[i].pc, (long long)a.log[i].nr, (long long)b.log[i].pc, (long long)b.log[i].nr, a.log[i].h == b.log[i].h ? "" : ", registers differ");
	if (a.log.size() != b.log.size()) return fmt("number of system calls: %zu vs %zu (ended at %#llx count %llu fault %d vs %#llx count %llu fault %d)", a.log.size(), b.log.size(), (long long)a.pc, (long long)a.count, a.fault, (long long)b.pc, (long long)b.count, b.fault);
	auto ft = [](int f) { return f == UNIMPLEMENTED_INSTRUCTION ? (int)ILLEGAL_OPCODE : f; };
	if (ft(a.fault) != ft(b.fault)) return fmt("fault: %d vs %d (%s%s)", a.fault, b.fault, a.what.c_str(), b.what.c_str());
	for (int i = 0; i < 32; i++) if (a.r[i] != b.r[i]) return fmt("register r%d: %#llx vs %#llx", i, (long long)a.r[i], (long long)b.r[i]);
	for (int i = 0; i < 32; i++) if (memcmp(a.v[i], b.v[i], veccls < 2 ? 8 : veccls == 2 ? 16 : 32)) { std::string h; for (int b = 31; b >= 0; b--) h += fmt("%02x", a.v[i][b]); h += " vs "; for (int b = 31; b >= 0; b--) h += fmt("%02x", o.v[i][b]); return fmt("vector register %d: ", i) + h; }
	for (int i = 0; i < 8; i++) if (a.fcc[i] != b.fcc[i]) return fmt("condition flag %d", i);
	if (a.mem != b.mem) return "guest memory";
	if (a.fault == -1 && counts && a.count != b.count) return fmt("instruction count: %llu vs %llu", (long long)a.count, (long long)b.count);
	if (a.fault == -1 && a.pc != b.pc) return fmt("final pc: %#llx vs %#llx", (long long)a.pc, (long long)b.pc);
	return ""; }
static void equiv_case(const Prog& p, Rng& r) {
	const u64 limit = 60000; prepared_fast = false; Snap base = equiv_run(p, 0, limit, r);
	if (base.timeout) { vstat("discarded"); return; }
	if (base.fault == EXECUTION_SPACE_PROTECTION_FAULT || base.pc < TEXT || base.pc >= TEXT + p.w.size() * 4) { // stepping decodes from readable memory; the others agree with each other
		vstat("left_text"); Snap a = equiv_run(p, 1, limit * 2, r); for (int mode : {3, 2}) { Snap o = equiv_run(p, mode, limit * 2, r); std::string e = differ(a, o, mode != 3); vstat("left_compared"); if (!e.empty()) { viol(std::string("equiv-left:") + mn[mode] + ":" + e.substr(0, e.find_first_of("0123456789:#")), fmt("%zu words, program leaves its text at %#llx: accurate vs %s: ", p.w.size(), (long long)base.pc, mn[mode]) + e); return; } }
		return; }
	vstat(fmt("end.%d", base.fault)); vstat("instructions", base.count); seen("equiv_programs", hash(p.w.data(), std::min<size_t>(p.w.size(), 1 << 16) * 4)); seen("end_states", hash(base.r, sizeof base.r, hash(base.v, sizeof base.v)));
	for (int mode : {1, 3, 2}) { Snap o = equiv_run(p, mode, limit * 2, r); std::string e = differ(base, o, mode != 3); vstat(std::string("compared.") + mn[mode]);
		if (!e.empty()) { viol(std::string("equiv:") + mn[mode] + ":" + e.substr(0, e.find_first_of("0123456789:#")), fmt("%s program, %zu words, %llu instructions: precise vs %s: ", (const char*[]){"integer", "float", "lsx", "lasx"}[veccls], p.w.size(), (long long)base.count, mn[mode]) + e); break; } }
}
static u64 ref_len(const Prog& p) { full.reset(p); while (full.end == RUNNING && full.steps < 400000) full.step(p); return full.steps; }

int main(int argc, char** argv) {
	init(argc, argv); nofault = kv("nofault") == "1"; equiv = kv("equiv") == "1";
#ifdef LA_BINARY_TRANSLATION
	jit_options = kv("jit") == "1";
#endif
	const size_t maxwords = strtoull(kv("maxwords", "4096").c_str(), 0, 0), minwords = strtoull(kv("minwords", "80").c_str(), 0, 0);
	if (kv("text") != "") TEXT = strtoull(kv("text").c_str(), 0, 0);
	DATA = (TEXT + maxwords * 4 + 0x10000) & ~0xfffull; u64 arena = DATA + DLEN + 0x10000; if (kv("arena") != "") arena = strtoull(kv("arena").c_str(), 0, 0);
	mach = lh::make_machine(mopts, arena, 0x1000, 0x2000);
	Machine::install_syscall_handler(0, [](Machine& m) { on_sys(m, 0); }); Machine::install_syscall_handler(S_STOP, [](Machine& m) { on_sys(m, S_STOP); }); Machine::install_syscall_handler(S_MIX, [](Machine& m) { on_sys(m, S_MIX); });
	Machine::install_syscall_handler(S_JUMP, [](Machine& m) { on_sys(m, S_JUMP); }); Machine::install_syscall_handler(S_PAUSE, [](Machine& m) { on_sys(m, S_PAUSE); });
	sup_names = lh::supported_names(isa, kv("supported")); const auto& sup = sup_names;
	for (int i = 0; i < ref::ENC_N; i++) { std::string n = ref::enc_table[i].name; if (!isa.fns[i] || !sup.count(n) || (!equiv && lh::group_of(n) != "int")) continue;
		static const std::set<std::string> skip = {"b","bl","jirl","beq","bne","blt","bge","bltu","bgeu","beqz","bnez","bceqz","bcnez","syscall","break"}; if (skip.count(n) || (!equiv && (n.rfind("div", 0) == 0 || n.rfind("mod", 0) == 0 || lh::mem_class(n) == lh::M_ATOMIC)) || n.rfind("rdtime", 0) == 0 || n == "cpucfg" || n.rfind("bstr", 0) == 0) continue; pool.push_back(i);
		if (equiv) { int c = lh::group_of(n) == "int" ? 0 : lh::group_of(n) == "fp" ? 1 : n[0] == 'v' ? 2 : 3; for (int k = 0; k < 4; k++) if (k == c || c == 0) pools[k].push_back(i); } }
	run_cases(opt.cases ? opt.cases : 500, [&](u64 k, Rng& r) {
		Prog p; size_t words = maxwords; if (maxwords > minwords) { double f = (double)r.below(1000) / 999; words = (size_t)(minwords * pow((double)maxwords / minwords, f)); }
		if (equiv) { veccls = r.below(4); pool = pools[veccls]; }
		gen(r, p, words); cur = &p;
		if (equiv) { equiv_case(p, r); return; }
		ref_len(p);
		if (full.end == BADREF || full.end == RUNNING) { vstat("discarded"); return; }
		if (status) snprintf(status->text, 4000, "words %zu steps %llu end %d", words, (long long)full.steps, full.end);
		prepared_fast = false; std::set<u64> pcs;
		for (auto& ev : full.log) pcs.insert(ev.pc);
		// coverage: which transfers the reference executed, taken or not, and how far
		{ RefRun t; t.reset(p); std::map<u64, std::string> mk(p.marks.begin(), p.marks.end()); u64 n = std::min<u64>(full.steps, 5000); for (u64 i = 0; i < n && t.end == RUNNING; i++) { u64 pc = t.s.pc; t.step(p); auto it = mk.find(pc); if (it != mk.end()) { u64 d = t.s.pc > pc ? t.s.pc - pc : pc - t.s.pc; int lg = 0; while (d >> lg > 1) lg++; seen("transfers", it->second + (t.s.pc == pc + 4 ? " not taken" : t.s.pc > pc ? " fwd" : " back") + fmt(" 2^%d", t.s.pc == pc + 4 ? 0 : lg)); vstat("executed." + it->second); } } }
		seen("programs", hash(p.w.data(), std::min<size_t>(p.w.size(), 1 << 16) * 4)); vstat("ref_instructions", full.steps);
		std::vector<int> modes = {1, 2, 3, 0, 4}; if (kv("modes") != "") { modes.clear(); for (char c : kv("modes")) modes.push_back(c - '0'); }
		auto more = [&](size_t i) { if (i < modes.size()) return true;
#ifdef LA_BINARY_TRANSLATION
			if (jit_thread.joinable() && i < 5000) { if (!jit_busy) { jit_thread.join(); vstat("patched_between", i); } modes.push_back(modes[i % 3]); return true; } // until it has been patched
#endif
			return false; };
		for (size_t mi = 0; more(mi); mi++) { const int mode = modes[mi]; if ((mode == 0 || mode >= 4) && (full.steps > 20000 || (full.end == FAULTED && full.fault == EXECUTION_SPACE_PROTECTION_FAULT))) continue;
			std::string e = run(p, mode, r); vstat(std::string("runs.") + mn[mode]);
			if (!e.empty()) { // name the violation after the kind of program point involved
				std::string key = std::string(mn[mode]) + ":" + e.substr(0, e.find_first_of("0123456789:(#=")); viol(key, fmt("%zu words, %llu steps: ", words, (long long)full.steps) + e); break; } }
		if (r.chance(1, 300)) sample(fmt("%zu words of text, %llu instructions, %zu system calls, ended %s", words, (long long)full.steps, full.log.size(), full.end == STOPPED ? "by stop" : "in a fault"));
	});
#ifdef LA_BINARY_TRANSLATION
	if (jit_thread.joinable()) jit_thread.join();
#endif
	return finish();
}
