// Whole-program monitor: compiled programs run in every way the emulator offers, compared section by section with
// what the same source printed natively.  A section is everything up to a line "<function> <16 hex digits>".
//   --list FILE: one program per line: elf <tab> native output <tab> native exit code <tab> arguments <tab> functions
#include "lh.hpp"
#include <libloong/native/heap.hpp>
#include <libloong/posix/threads.hpp>
#include <sstream>
using namespace vh; using namespace loongarch; typedef std::string S;
struct Prog { S elf, path, ref; int code; std::vector<S> args, fns; };
struct Sec { S name, text; };
static ref::ISA isa; static std::set<S> sup; static int out_fd, mem_fd;
static S slurp(const S& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::vector<S> split(const S& s, char c) { std::vector<S> v; size_t a = 0; while (a <= s.size()) { size_t b = s.find(c, a); if (b == S::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
// guest output goes to file descriptor 1: keep it apart from the protocol
static void capture() { fflush(stdout); if (ftruncate(mem_fd, 0)) _exit(97); lseek(mem_fd, 0, SEEK_SET); dup2(mem_fd, 1); }
static S captured() { dup2(out_fd, 1); off_t n = lseek(mem_fd, 0, SEEK_END); S s(n, 0); if (pread(mem_fd, s.data(), n, 0) != n) _exit(97); return s; }
static std::vector<Sec> sections(const S& t, const Prog& p, S& rest) {
	std::vector<Sec> v; S cur;
	for (size_t a = 0; a < t.size();) { size_t b = t.find('\n', a); if (b == S::npos) { cur += t.substr(a); break; } S l = t.substr(a, b - a); a = b + 1; cur += l + "\n"; size_t sp = l.find(' ');
		if (sp != S::npos && l.size() == sp + 17 && l.find_first_not_of("0123456789abcdef", sp + 1) == S::npos && std::find(p.fns.begin(), p.fns.end(), l.substr(0, sp)) != p.fns.end()) { v.push_back({l.substr(0, sp), cur}); cur.clear(); } }
	rest = cur; return v; }
enum Mode { FAST, INACCURATE, SLICED, PRECISE, NATIVE, EMBEDDED, SHARED, MIXED, MODES };
static const char* mode_name[] = {"counting", "inaccurate", "sliced", "precise", "accelerated", "embedded", "shared", "mixed"};
struct Run { S out; long code = -1; u64 count = 0, slices = 0, heap_used = 0; int exc = -1; S what; u64 pc = 0; uint32_t word = 0; bool finished = false; };
static const u64 LIMIT = 400000000;
#ifdef LA_BINARY_TRANSLATION
static size_t jit_max; // translated instructions, 0 for none
#endif
static Run run(const Prog& p, Mode mode, u64 skip, Rng r) {
	Run x; MachineOptions o; o.memory_max = (512ull + r.below(512)) << 20; if (LA_MASKED_MEMORY_BITS) o.memory_max = 1ull << LA_MASKED_MEMORY_BITS; o.stack_size = 1 << 20; o.use_shared_execute_segments = mode == SHARED;
#ifdef LA_BINARY_TRANSLATION
	o.translate_enabled = jit_max != 0; o.translate_instr_max = jit_max; o.translate_use_register_caching = r.chance(2, 3);
#endif
	void* where = nullptr; size_t total = 0; Machine* M = nullptr;
	// only malloc, calloc, realloc and free are accelerated: their blocks do not mix with those of aligned_alloc
	if (mode == NATIVE) for (size_t i = 2; i < p.fns.size(); i++) if (p.fns[i] == "aligned") skip |= 1ull << (i - 2);
	std::vector<S> args = p.args; args.insert(args.begin(), "prog"); args[2] = fmt("%llx", (long long)skip);
	auto drop = [&] { if (where) { if (M) M->~Machine(); munmap(where, total); } else delete M; M = nullptr; };
	try {
		if (mode == EMBEDDED) { auto e = MachineOptions::estimate_cpu_relative_arena_size_for(o.memory_max); total = e.total_size; where = mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); o.custom_arena_pointer = (char*)where + e.arena_offset; o.custom_arena_size = e.arena_size; M = new (where) Machine(std::string_view(p.elf), o); }
		else M = new Machine(std::string_view(p.elf), o);
		M->set_options(std::make_shared<MachineOptions>(o));
#ifdef LA_BINARY_TRANSLATION
		if (jit_max) { vstat(M->memory.exec_segment_for(M->cpu.pc())->is_binary_translated() ? "translated" : "not_translated"); vstat("translated_instructions_max", jit_max); }
#endif
		M->setup_linux_syscalls(); M->setup_posix_threads();
		if (mode == NATIVE) { M->setup_accelerated_syscalls(); M->setup_accelerated_heap(M->memory.mmap_allocate(24 << 20), 24 << 20); }
		M->setup_linux(args, {"LC_ALL=C", "VERIF_ENV=some value"}); capture();
		switch (mode) {
		case INACCURATE: M->cpu.simulate_inaccurate(M->cpu.pc()); x.finished = !M->instruction_limit_reached(); break;
		case SLICED: case SHARED: case MIXED: { u64 total = 0; bool first = true; do { u64 k = r.chance(1, 3) ? r.range(1, 300) : r.range(1000, 400000); u64 before = M->instruction_counter(); if (mode == MIXED && r.chance(1, 2)) { M->set_instruction_counter(before); M->set_max_instructions(before + k); M->cpu.simulate_precise(); } else if (first) M->simulate(k, 0); else M->simulate(before + k, before); first = false; total = M->instruction_counter(); x.slices++; alarm(watchdog_s); } while (M->instruction_limit_reached() && total < LIMIT); x.finished = !M->instruction_limit_reached(); break; }
		case PRECISE: M->set_max_instructions(LIMIT); M->set_instruction_counter(0); M->cpu.simulate_precise(); x.finished = !M->instruction_limit_reached(); break;
		default: M->simulate(LIMIT); x.finished = !M->instruction_limit_reached(); break;
		}
		x.out = captured(); x.count = M->instruction_counter(); x.code = M->return_value<int>();
		if (mode == NATIVE) { u64 n = 0; for (auto* c = &M->arena().base_chunk(); c; c = c->next) { n += !c->free; if (c->next && c->next->prev != c) x.what = "heap chunk list broken"; } x.heap_used = n; }
	} catch (const MachineException& e) { x.out = captured(); x.exc = e.type(); x.what = e.what(); if (M) { x.count = M->instruction_counter(); x.pc = M->cpu.pc(); x.word = (uint32_t)e.data(); } }
	catch (const std::exception& e) { x.out = captured(); x.exc = 1000; x.what = e.what(); }
	if (M && x.exc >= 0) { M->stop(); }
	drop(); return x;
}
int main(int argc, char** argv) {
	init(argc, argv); sup = lh::supported_names(isa, kv("supported")); out_fd = dup(1); mem_fd = memfd_create("out", 0);
	std::vector<Prog> progs; for (auto& l : split(slurp(kv("list")), '\n')) { auto f = split(l, '\t'); if (f.size() < 5) continue; Prog p; p.path = f[0]; p.elf = slurp(f[0]); p.ref = slurp(f[1]); p.code = atoi(f[2].c_str()); p.args = split(f[3], ' '); p.fns = split(f[4], ','); progs.push_back(std::move(p)); }
	u64 shards = strtoull(kv("shards", "1").c_str(), 0, 0), shard = strtoull(kv("shard", "0").c_str(), 0, 0), modes = strtoull(kv("modes", "0xff").c_str(), 0, 0), pmax = strtoull(kv("pmax", "30000000").c_str(), 0, 0);
	run_cases(progs.size(), [&](u64 k, Rng& r) {
		if (opt.only < 0 && k % shards != shard) return;
		Prog& p = progs[k]; S rest; auto ref = sections(p.ref, p, rest); size_t nf = p.fns.size() - 2; u64 skip = strtoull(p.args[1].c_str(), 0, 16); Run base; u64 cseed = r.next();
		S name = p.path.substr(p.path.rfind('/') + 1); at(k, "program " + name);
		// leave out the functions that need instructions the emulator does not have
		for (;;) {
			base = run(p, FAST, skip, Rng(cseed)); vstat("runs.counting"); if (base.exc != UNIMPLEMENTED_INSTRUCTION && base.exc != ILLEGAL_OPCODE) break;
			int i = isa.decode(base.word); S mn = i < 0 ? "?" : S(ref::enc_table[i].name); if (i < 0 || sup.count(mn)) { viol("refused:" + mn, fmt("%s: %s at %#llx, word %08x (%s)", name.c_str(), base.what.c_str(), (long long)base.pc, base.word, mn.c_str())); return; }
			auto got = sections(base.out, p, rest); if (got.size() < 2) { vstat("start_unsupported"); seen("lacking", mn); return; }
			S last = got.back().name; size_t nx = 0; for (; nx < nf && (skip >> nx & 1); nx++) {} if (last != "args") { for (nx = 0; nx < nf && p.fns[nx + 2] != last; nx++) {} nx++; while (nx < nf && (skip >> nx & 1)) nx++; }
			if (nx >= nf) { viol("late-fault", name + ": " + base.what); return; }
			skip |= 1ull << nx; vstat("functions_left_out"); vstat("lacks." + mn); seen("lacking", mn);
		}
		std::vector<Sec> all; for (auto& s : ref) { size_t i = std::find(p.fns.begin(), p.fns.end(), s.name) - p.fns.begin(); if (i < 2 || !(skip >> (i - 2) & 1)) all.push_back(s); }
		u64 done = __builtin_popcountll(~skip & (nf >= 64 ? ~0ull : (1ull << nf) - 1)); if (!done) { vstat("nothing_left"); }
		auto judge = [&](Mode m, const Run& x) {
			S pre = S(mode_name[m]) + ":"; S rest; auto got = sections(x.out, p, rest); vstat("judged"); vstat(S("runs.") + mode_name[m]); vstat("instructions", x.count); auto want = all; if (m == NATIVE) std::erase_if(want, [](auto& s) { return s.name == "aligned"; });
			if (x.exc >= 0) { viol(pre + "exception", fmt("%s skip %llx: %s at %#llx after %s", name.c_str(), (long long)skip, x.what.c_str(), (long long)x.pc, got.empty() ? "nothing" : got.back().name.c_str())); return; }
			if (!x.finished) { viol(pre + "endless", fmt("%s skip %llx: still running after %llu instructions, last section %s", name.c_str(), (long long)skip, (long long)x.count, got.empty() ? "none" : got.back().name.c_str())); return; }
			for (size_t i = 0; i < std::max(got.size(), want.size()); i++) {
				if (i >= got.size() || i >= want.size() || got[i].name != want[i].name) { viol(pre + "sections", fmt("%s skip %llx: section %zu is %s, expected %s", name.c_str(), (long long)skip, i, i < got.size() ? got[i].name.c_str() : "missing", i < want.size() ? want[i].name.c_str() : "none")); return; }
				if (got[i].text != want[i].text) { S kind = got[i].name; while (!kind.empty() && isdigit(kind.back())) kind.pop_back(); viol(pre + "differs:" + kind, fmt("%s skip %llx: %s printed '%.300s', natively '%.300s'", name.c_str(), (long long)skip, got[i].name.c_str(), got[i].text.c_str(), want[i].text.c_str())); return; }
				vstat("sections_equal"); seen("sections", got[i].text + name); }
			if (!rest.empty()) viol(pre + "trailing", name + ": trailing output " + rest);
			if (x.code != p.code) viol(pre + "exit-code", fmt("%s: exit code %ld, natively %d", name.c_str(), x.code, p.code));
			if (!x.what.empty()) viol(pre + "state", name + ": " + x.what);
		};
		judge(FAST, base); seen("programs", p.elf); vstat("functions_run", done); if (done && k % 37 == 3) sample(fmt("%s: %llu functions, %llu instructions, exit %ld", name.c_str(), (long long)done, (long long)base.count, base.code));
#ifdef LA_BINARY_TRANSLATION
		jit_max = strtoull(kv("jit", "0").c_str(), 0, 0); const int first = FAST; // the same program, now with the translator
#else
		const int first = INACCURATE;
#endif
		for (int m = first; m < MODES; m++) {
			if (!(modes >> m & 1) || ((m == PRECISE || m == MIXED) && base.count > pmax)) continue;
			at(k, fmt("program %s %s", name.c_str(), mode_name[m])); Run x = run(p, (Mode)m, skip, Rng(cseed)); judge((Mode)m, x); if (x.exc >= 0) continue;
			if (x.slices) { vstat("slices", x.slices); }
			if ((m == FAST || m == SLICED || m == PRECISE || m == EMBEDDED || m == SHARED || m == MIXED) && x.count != base.count) viol(S(mode_name[m]) + ":count", fmt("%s skip %llx: %llu instructions, %llu when run in one go", name.c_str(), (long long)skip, (long long)x.count, (long long)base.count));
		}
#ifdef LA_BINARY_TRANSLATION
		jit_max = 0;
#endif
	});
	return finish();
}
