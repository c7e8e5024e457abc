// Containment monitor: hostile machine code with hostile registers, symbols, options and system calls, in every
// interpreter.  Sanitizers, guard pages around the guest's memory and a seccomp filter watch the host; after each run
// the read-only part of guest memory, r0, the counts and a second run in a differently filled host heap are compared.
#include "lh.hpp"
#include "elfgen.hpp"
#include "sandbox.hpp"
#include <libloong/debug.hpp>
#include <libloong/native/heap.hpp>
#include <libloong/posix/threads.hpp>
#include <malloc.h>
#include <fcntl.h>
static const bool MASKED = LA_MASKED_MEMORY_BITS != 0;
using namespace vh; using namespace loongarch; typedef std::string S;
static ref::ISA isa; static std::vector<int> pool; static const u64 TEXT = 0x10000;
static const std::vector<int> SYS = {93, 94, 64, 66, 63, 56, 57, 80, 29, 25, 78, 79, 73, 214, 222, 226, 233, 215, 96, 99, 98, 178, 123, 172, 174, 175, 176, 177, 261, 113, 169, 101, 130, 131, 132, 134, 135, 278, 167, 124, 422, 220, 435, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511};
static const std::set<int> RANDOM_SYS = {278, 113, 169, 101, 80, 79, 261, 123, 172};
static const char* FN[] = {"malloc", "calloc", "realloc", "free", "memcpy", "memset", "memcmp", "memmove", "memchr", "strlen", "strnlen", "strcmp", "strncmp", "__memcpy_aligned", "__strlen_lsx", "main", "_start", "exit"};
struct Prog { int small = 0; S bin; std::vector<uint32_t> w; u64 mem, data, dlen; MachineOptions o; bool det, accel, heap, threads, custom; std::vector<S> args; u64 budget; int style, dbg; bool has_time; };
static u64 hostile(Rng& r, const Prog& p) { switch (r.below(12)) { case 0: return r.interesting(); case 1: return p.mem - r.below(80); case 2: return p.mem + r.below(64); case 3: return r.below(0x40); case 4: return p.data + r.below(p.dlen); case 5: return p.data - r.below(24); case 6: return p.data + p.dlen - r.below(40); case 7: return TEXT + r.below(p.w.size() + 8) * 4; case 8: return 0 - r.below(70); case 9: return p.mem * r.below(4) / 3 + r.below(32) - 16; case 10: return r.below(p.mem + 0x10000); default: return p.data + r.below(p.dlen & ~7ull); } }
static uint32_t op(const char* n, Rng& r) { static std::map<S, int> m; if (m.empty()) for (int i = 0; i < ref::ENC_N; i++) m.emplace(ref::enc_table[i].name, i); const auto& e = ref::enc_table[m.at(n)]; return e.match | ((uint32_t)r.next() & ~e.mask); }
static void code(Prog& p, Rng& r) {
	static const std::vector<S> br = {"b", "bl", "beq", "bne", "blt", "bge", "bltu", "bgeu", "beqz", "bnez", "bceqz", "bcnez", "jirl"};
	const size_t n = r.chance(1, 6) ? r.range(1, 12) : r.range(16, 900); int mix = r.below(4); p.has_time = false;
	while (p.w.size() < n) {
		const u64 k = r.below(100);
		if (k < 6 || (mix == 1 && k < 30)) { int nr = p.det ? 0 : SYS[r.below(SYS.size())]; if (p.det) do nr = SYS[r.below(SYS.size())]; while (RANDOM_SYS.count(nr)); if (r.chance(1, 20)) nr = r.below(520);
			if (p.det && RANDOM_SYS.count(nr)) continue; p.w.push_back(lh::addi_d(11, 0, nr)); if (r.chance(1, 3)) p.w.push_back(op("addi.d", r) & ~0x3ffu | (uint32_t)(25 << 5) | (4 + r.below(6))); if (r.chance(1, 3)) p.w.push_back(lh::addi_d(4 + r.below(6), 0, r.range(-20, 300))); p.w.push_back(lh::SYSCALL0); }
		else if (k < 14 || (mix == 2 && k < 30)) { const S& b = br[r.below(br.size())]; uint32_t w = op(b.c_str(), r); if (r.chance(7, 8)) { int64_t off = r.chance(3, 4) ? r.range(1, 40) : r.range(-20, 40); if (b == "b" || b == "bl") w = (w & 0xfc000000) | ((uint32_t)off & 0xffff) << 10 | ((uint32_t)(off >> 16) & 0x3ff); else if (b == "jirl") w = (w & ~0x03fffc00u) | ((uint32_t)off & 0xf) << 10; else if (b == "beqz" || b == "bnez") w = (w & 0xfc0003e0) | ((uint32_t)off & 0xffff) << 10 | ((uint32_t)(off >> 16) & 0x1f); else if (b[1] == 'c') w = (w & 0xfc0003e0) | ((uint32_t)off & 0xffff) << 10 | ((uint32_t)(off >> 16) & 0x1f); else w = (w & ~0x03fffc00u) | ((uint32_t)off & 0xffff) << 10; } p.w.push_back(w); }
		else if (k < 16) p.w.push_back((uint32_t)r.next());
		else if (k == 16) p.w.push_back(op("break", r));
		else { const auto& e = ref::enc_table[pool[r.below(pool.size())]]; uint32_t w = e.match | ((uint32_t)r.next() & ~e.mask); if (lh::mem_class(e.name) != lh::M_NONE && r.chance(1, 2)) { uint32_t m = (31u << 5) & ~e.mask; w = (w & ~m) | ((uint32_t)(25 + r.below(2)) << 5 & m); } p.w.push_back(w); }
	}
	if (r.chance(1, 3)) p.w.push_back(0x4c000020);
}
static Prog make(Rng& r) {
	Prog p; p.det = r.chance(1, 2); code(p, r); elfgen::Image im; S text((const char*)p.w.data(), p.w.size() * 4); p.data = (TEXT + text.size() + 0xfff + r.below(3) * 0x1000) & ~0xfffull; p.dlen = r.range(16, 0x3000);
	im.segs.push_back({TEXT, elfgen::R | elfgen::X, text, text.size()}); if (r.chance(1, 3)) { S ro(0x200, 'r'); im.segs.push_back({p.data, elfgen::R, ro, ro.size()}); p.data += 0x1000; } S d; for (u64 i = 0; i < p.dlen; i++) d += (char)(r.chance(1, 3) ? 0 : r.next()); im.segs.push_back({p.data, elfgen::R | elfgen::W, d, p.dlen + r.below(3) * 0x700}); p.dlen = im.segs.back().memsz;
	im.entry = TEXT + (r.chance(1, 4) ? r.below(p.w.size()) * 4 : 0); im.text_addr = TEXT; im.text_size = text.size(); im.sections = true;
	p.accel = r.chance(1, 2); p.heap = r.chance(1, 2); if (p.accel || p.heap) for (int i = r.below(8); i > 0; i--) im.syms.push_back({FN[r.below(sizeof FN / sizeof *FN)], r.chance(5, 6) ? TEXT + r.below(p.w.size()) * 4 : r.chance(1, 2) ? hostile(r, (p.mem = 0x40000, p)) : TEXT + r.below(text.size()), r.below(64)});
	p.bin = im.build(); p.o.memory_max = p.data + p.dlen + (r.chance(1, 12) ? r.range(0x3000, 0x100000) : r.range(0x3000, 0x8000)); if (r.chance(1, 2)) p.o.memory_max = (p.o.memory_max + 0xfff) & ~0xfffull; if (MASKED) p.o.memory_max = (1ull << LA_MASKED_MEMORY_BITS) + (r.chance(1, 2) ? 0 : r.below(0x10000)); p.o.stack_size = r.chance(1, 2) ? 0x2000 : r.range(0x1000, 0x3000); p.o.brk_size = r.chance(1, 2) ? 0 : 0x1000; p.o.use_shared_execute_segments = r.chance(1, 4);
	p.o.verbose_syscalls = r.chance(1, 6); p.threads = r.chance(2, 3); p.custom = r.chance(2, 3); for (int i = r.below(4); i > 0; i--) p.args.push_back(S(r.below(50), 'a')); p.args.push_back("p"); p.budget = r.chance(1, 4) ? r.range(1, 300) : r.range(300, 20000); if (MASKED && p.custom && r.chance(1, 8)) { p.small = 1 + r.below(LA_OVER_ALLOCATE_SIZE); p.o.memory_max = 1ull << LA_MASKED_MEMORY_BITS; } p.style = r.below(4); p.dbg = r.chance(1, 2) ? 0 : r.below(16); p.mem = p.o.memory_max; return p;
}
struct Quiet { FILE* f = stdout; static FILE* null() { static char buf[1 << 16]; static FILE* n = [] { FILE* f = fopen("/dev/null", "w"); setvbuf(f, buf, _IOFBF, sizeof buf); return f; }(); return n; } Quiet() { stdout = null(); } ~Quiet() { stdout = f; } }; // the debugger prints
static u64 ticks; // the clock of repeatable programs
struct Res { std::vector<u64> v; S text; bool finished = false; u64 hash() const { return vh::hash(v.data(), v.size() * 8); } };
static u64 memhash(const uint8_t* b, u64 n) { u64 h[4] = {1, 2, 3, 4}; u64 i = 0; for (; i + 32 <= n; i += 32) for (int k = 0; k < 4; k++) { u64 v; memcpy(&v, b + i + 8 * k, 8); h[k] = (h[k] ^ v) * 0x9E3779B97F4A7C15ull; h[k] ^= h[k] >> 31; } return vh::hash(h, 32) ^ vh::hash(b + i, n - i); }
static Res run(Prog& p, Rng r, int style) {
	Res x; ticks = 0; Machine::set_rdtime(p.det ? [](Machine&) -> u64 { return ticks += 3; } : nullptr); char* region = nullptr; size_t rlen = 0; MachineOptions o = p.o; std::unique_ptr<Machine> M;
	if (p.custom) { // guard pages on both sides of everything the library may use
		size_t over = LA_OVER_ALLOCATE_SIZE, use = (o.memory_max + over + 0xfff) & ~0xfffull; rlen = use + 0x40000; region = (char*)mmap(nullptr, rlen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (region == MAP_FAILED) _exit(97);
		if (mprotect(region + 0x20000, use, PROT_READ | PROT_WRITE)) _exit(97); o.custom_arena_size = o.memory_max + over; if (p.small) o.custom_arena_size -= p.small; o.custom_arena_pointer = region + 0x20000 + (use - o.custom_arena_size) / 16 * 16; }
	std::vector<uint8_t> ro; u64 rodata_end = 0;
	auto rec = [&](u64 v) { x.v.push_back(v); };
	try {
		M = std::make_unique<Machine>(std::string_view(p.bin), o); if (p.small && M->memory.arena_ptr() == o.custom_arena_pointer) viol("small-arena", fmt("%llu bytes accepted as an arena of %llu bytes that every address wraps into", (long long)o.custom_arena_size, (long long)o.memory_max)); M->set_options(std::make_shared<MachineOptions>(o)); M->setup_linux_syscalls(); if (p.threads) M->setup_posix_threads();
		if (p.accel) M->setup_accelerated_syscalls(); if (p.heap) { u64 n = r.range(0x100, 0x2000), b = M->memory.mmap_allocate(n); M->setup_accelerated_heap(b, n); }
		M->setup_linux(p.args, {"A=b"}); vstat("loaded");
		{ u64 a = M->cpu.reg(3), v; auto word = [&](u64 i) { v = M->memory.read<uint64_t>(a + 8 * i); return v; }; u64 i = word(0) + 2; while (word(i)) i++; for (i++; word(i); i += 2) if (v == 25) { u64 q = word(i + 1); M->memory.write<uint64_t>(q, 0); M->memory.write<uint64_t>(q + 8, 0); } } // the random bytes of the stack
	} catch (const std::exception& e) { vstat("not_loaded"); if (p.small) vstat("small_arenas_refused"); seen("load_failures", S(e.what()).substr(0, 30)); x.text = e.what(); M.reset(); if (region) munmap(region, rlen); return x; }
	p.mem = M->memory.arena_size(); rodata_end = M->memory.data_start(); const uint8_t* base = M->memory.arena_ptr(); ro.assign(base, base + std::min<u64>(rodata_end, p.mem)); if (!p.heap && M->has_arena()) viol("heap", "an arena nobody asked for");
	for (int round = 0; round < 12; round++) {
		auto& R = M->cpu.registers(); if (round) { if (r.chance(2, 3)) R.pc = TEXT + r.below(p.w.size()) * 4; else R.pc = hostile(r, p); }
		ref::State st; for (int i = 0; i < 32; i++) { st.r[i] = i ? hostile(r, p) : 0; lh::rand_vec(r, st.v[i]); } for (int i = 0; i < 8; i++) st.fcc[i] = r.next() & 1; st.fcsr = 0; if (r.chance(1, 2)) st.r[3] = p.mem - 0x800 - r.below(64) * 16; if (round && r.chance(1, 2)) { for (int i = r.below(4); i >= 0; i--) M->cpu.reg(1 + r.below(31)) = hostile(r, p); } else lh::set_state(*M, st); M->cpu.reg(25) = p.data + (r.below(p.dlen) & ~7ull); M->cpu.reg(26) = p.data + r.below(p.dlen);
		int exc = -1; u64 data = 0, start = 0, budget = p.budget, slices = 0; bool limited = true; S what;
		try {
			Quiet q;
			if (style == 0) { M->simulate(budget); }
			else if (style == 1) { u64 used = 0; do { u64 k = std::min<u64>(budget - used, r.range(1, 400)); M->simulate(used + k, used); used = M->instruction_counter(); slices++; } while (M->instruction_limit_reached() && used < budget); }
			else if (style == 2) { M->set_instruction_counter(0); M->set_max_instructions(budget); if (!p.dbg) M->cpu.simulate_precise(); else { DebugMachine d(*M); d.verbose_instructions = p.dbg & 1; d.verbose_registers = p.dbg & 2; d.short_output = p.dbg & 4; d.simulate(p.dbg > 1 ? std::min<u64>(budget, 300) : budget); vstat("debugged"); } }
			else { limited = false; M->cpu.simulate_inaccurate(M->cpu.pc()); }
		} catch (const MachineException& e) { exc = e.type(); data = e.data(); what = e.what(); vstat("exceptions"); seen("exceptions", fmt("%d %s", exc, what.substr(0, 24).c_str())); }
		catch (const std::exception& e) { exc = 500; what = e.what(); vstat("other_exceptions"); seen("exceptions", what.substr(0, 24)); }
		const bool lim = exc < 0 && limited && M->instruction_limit_reached(); x.finished = !lim; const u64 n = M->instruction_counter(); vstat("rounds"); vstat("instructions", n); if (lim) vstat("budget_ends"); else if (exc < 0) vstat("stops");
		if (M->cpu.reg(0)) { viol("r0", fmt("r0 holds %#llx", (long long)M->cpu.reg(0))); M->cpu.reg(0) = 0; }
		if (!MASKED && memcmp(base, ro.data(), ro.size())) { // masked accesses are confined but not checked
		 u64 i = 0; while (base[i] == ro[i]) i++; viol("rodata", fmt("read-only byte %#llx changed from %02x to %02x", (long long)i, ro[i], base[i])); memcpy((void*)base, ro.data(), ro.size()); }
		if (limited && exc < 0 && n > budget + p.w.size() + 64) viol("overrun", fmt("%llu instructions with a budget of %llu", (long long)n, (long long)budget));
		if (trapped >= 0) { viol("host-syscall", fmt("host system call %d(%#llx, %#llx)", (int)trapped, (long long)trap_arg[0], (long long)trap_arg[1])); trapped = -1; }
		rec(exc); rec(exc == 500 ? 0 : data); rec(limited ? n : 0); rec(M->cpu.pc()); for (int i = 0; i < 32; i++) { rec(M->cpu.reg(i)); } for (int i = 0; i < 32; i++) for (int k = 0; k < 4; k++) { u64 v; memcpy(&v, (char*)&M->cpu.registers().getvr(i) + 8 * k, 8); rec(v); } for (int i = 0; i < 8; i++) rec(M->cpu.registers().cf(i)); rec(M->cpu.registers().fcsr()); rec(memhash(base, p.mem)); x.text += fmt("round %d: %s at %#llx after %llu; ", round, exc >= 0 ? what.c_str() : lim ? "limit" : "stop", (long long)M->cpu.pc(), (long long)n);
		if (style == 3 && exc < 0 && !x.finished) break;
	}
	M.reset(); if (region) munmap(region, rlen); return x;
}
__attribute__((noinline)) static void junk_stack(uint8_t b) { volatile char a[60000]; memset((char*)a, b, sizeof a); asm volatile("" ::"r"(a) : "memory"); }
int main(int argc, char** argv) {
	Quiet::null(); init(argc, argv); int keep = dup(1), nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0); stdout = fdopen(keep, "w"); setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	auto sup = lh::supported_names(isa, kv("supported")); for (int i = 0; i < ref::ENC_N; i++) if (sup.count(ref::enc_table[i].name)) pool.push_back(i);
	if (!opt.status.empty()) seen_file = fopen((opt.status + ".seen").c_str(), "wb");
	if (kv("filter", "1") != "0") { if (install_filter()) vstat("seccomp_filters"); else vstat("no_seccomp"); }
	run_cases(opt.cases, [&](u64 k, Rng& r) {
		Prog p = make(r); if (status) snprintf(status->text, 4000, "style %d words %zu", p.style, p.w.size()); u64 s = r.next(); int style = p.style;
		if (style == 3) { Res a = run(p, Rng(s), 0); vstat("runs"); if (!a.finished || a.text.find("limit") != S::npos) { vstat("would_not_end"); return; } }
		mallopt(M_PERTURB, 0xA5); junk_stack(0x3c); Res a = run(p, Rng(s), style); vstat("runs"); vstat(fmt("style.%d", style)); seen("programs", p.bin); seen("outcomes", fmt("%llx", (long long)a.hash()));
		if (p.det && !a.v.empty()) { mallopt(M_PERTURB, 0x5A); junk_stack(0xc3); Res b = run(p, Rng(s), style); vstat("repeated"); if (a.v != b.v) { size_t i = 0; while (i < a.v.size() && i < b.v.size() && a.v[i] == b.v[i]) i++; viol("not-repeatable", fmt("item %zu of the state differs: %#llx, then %#llx | %s | %s", i % 174, (long long)(i < a.v.size() ? a.v[i] : 0), (long long)(i < b.v.size() ? b.v[i] : 0), a.text.c_str(), b.text.c_str())); } }
		if (k % 5003 == 11) sample(fmt("%zu words, style %d: %s", p.w.size(), style, a.text.c_str()));
	});
	return finish();
}
