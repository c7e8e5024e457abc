// Symbol monitor: lookups, demangling and backtraces of generated symbol tables against an independent reading.
#include "lh.hpp"
#include "elfgen.hpp"
#include <cxxabi.h>
#include <sys/mman.h>
#include <unistd.h>
#include <libloong/debug.hpp>
using namespace vh; using namespace loongarch;
static const u64 TEXT = 0x10000, DATA = 0x20000;
struct S { std::string name; u64 addr, size; };
static std::string demangle(const std::string& n) { int st = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); std::string r = st == 0 && d ? d : n; free(d); return r; }
static std::string name(Rng& r) {
	static const char* mangled[] = {"_Z3fooi", "_ZN3abc3defEv", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZN1AC2Ev", "_Z1fIJilEEvDpT_", "_ZTV1A", "_Z", "_ZN", "_Z3fo", "_ZNSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES5_St4lessIS5_ESaISt4pairIKS5_S5_EEEixERS9_", "__cxa_throw", "main", "memcpy", "i", "_Z1A", "printf"};
	switch (r.below(6)) { case 0: case 1: return mangled[r.below(16)]; case 2: return fmt("sym%d", (int)r.below(8)); case 3: return std::string(r.chance(1, 3) ? 4000 + r.below(6000) : 1 + r.below(300), 'a' + r.below(26)); case 4: { u64 n = 1 + r.below(200); return fmt("_Z%llu", (long long)n) + std::string(n, 'q') + "ii"; } default: { std::string s; for (int n = 1 + r.below(12); n--;) s += (char)(33 + r.below(94)); return s; } }
}
// the debugger prints to standard output: collect it in a file
struct Capture { int old, fd; Capture() { fflush(stdout); old = dup(1); fd = memfd_create("trace", 0); dup2(fd, 1); }
	std::string end() { if (old < 0) return ""; fflush(stdout); dup2(old, 1); close(old); old = -1; off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); if (pread(fd, s.data(), n, 0) != n) s.clear(); close(fd); return s; }
	~Capture() { end(); } };
int main(int argc, char** argv) {
	init(argc, argv); const bool debug = kv("debug", "0") == "1";
	run_cases(opt.cases ? opt.cases : 2000, [&](u64, Rng& r) {
		elfgen::Image im; std::string code; for (int i = 0; i < 64; i++) { uint32_t w = lh::SYSCALL0; if (debug) { auto& e = ref::enc_table[r.below(ref::ENC_N)]; w = r.chance(1, 10) ? (uint32_t)r.next() : e.match | ((uint32_t)r.next() & ~e.mask); } code.append((char*)&w, 4); } im.segs.push_back({TEXT, elfgen::R | elfgen::X, code, 0x1000}); im.segs.push_back({DATA, elfgen::R | elfgen::W, std::string(64, 'x'), 0x4000}); im.entry = im.text_addr = TEXT; im.text_size = code.size();
		std::vector<S> syms; int n = r.chance(1, 25) ? (int)r.range(100, 700) : (int)r.below(14); if (n > 99) vstat("large_tables");
		for (int i = 0; i < n; i++) { S s{name(r), 0, 0}; switch (r.below(5)) { case 0: s.addr = r.interesting() | 1; break; case 1: s.addr = DATA + r.below(0x4000); break; default: s.addr = TEXT + r.below(512); } switch (r.below(4)) { case 0: s.size = 0; break; case 1: s.size = r.interesting(); break; default: s.size = r.below(80); } static const uint8_t types[] = {2, 2, 2, 1, 0, 3, 4}; uint8_t t = types[r.below(7)]; im.syms.push_back({s.name, s.addr, s.size, t}); if (t == 2 || t == 1) syms.push_back(s); }
		MachineOptions o; o.memory_max = 0x40000; o.stack_size = 0x2000; o.brk_size = 0; o.use_shared_execute_segments = false; std::string bin = im.build(); at(status->caseno, "load"); Machine m(std::string_view(bin), o); std::string desc; for (auto& s : syms) desc += fmt("%.12s@%#llx+%#llx ", s.name.c_str(), (long long)s.addr, (long long)s.size); seen("tables", desc); at(status->caseno, desc);
		auto inside = [](const S& s, u64 a) { return a >= s.addr && a - s.addr < s.size; };
		auto probe = [&]() -> u64 { switch (r.below(6)) { case 0: return r.interesting(); case 1: return TEXT + r.below(600); case 2: return DATA + r.below(0x4000); default: { if (syms.empty()) return r.next(); auto& s = syms[r.below(syms.size())]; return r.chance(1, 2) ? s.addr + r.range(-2, 2) : s.addr + s.size + r.range(-2, 2); } } };
		// the symbols a lookup may name: any that contains the address, else the nearest below it
		auto allowed = [&](u64 a) { std::vector<const S*> v; for (auto& s : syms) if (inside(s, a)) v.push_back(&s); if (v.empty()) { u64 best = 0; bool any = false; for (auto& s : syms) if (s.addr <= a && (!any || s.addr > best)) best = s.addr, any = true; if (any) for (auto& s : syms) if (s.addr == best) v.push_back(&s); } return v; };
		auto pretty = [&](u64 a, bool off) { std::vector<std::string> t; for (auto* s : allowed(a)) { std::string x = demangle(s->name); if (off && a != s->addr) x += fmt("+0x%llx", (long long)(a - s->addr)); t.push_back(x); } if (t.empty()) t.push_back(""); return t; };
		if (debug) { // the debugger's trace lines and its comparison with an object dump
			DebugMachine d(m); auto text = [&](u64 a) { la_instruction w; memcpy(&w.whole, &code[a - TEXT], 4); auto save = m.cpu.registers().pc; m.cpu.registers().pc = a; std::string t = m.cpu.to_string(w); m.cpu.registers().pc = save; return t; };
			auto named = [&](u64 a) { std::vector<std::string> t; for (auto* s : allowed(a)) t.push_back(demangle(s->name) + fmt("+0x%llx", (long long)(a - s->addr))); return t; };
			for (int k = 0; k < 6; k++) { u64 a = TEXT + 4 * r.below(64); m.cpu.jump(a); d.short_output = r.chance(1, 4); Capture c; d.print_instruction(); std::string got = c.end(); std::vector<std::string> want; if (d.short_output) want.push_back(text(a) + "\n"); else { for (auto& n : named(a)) want.push_back(fmt("PC: 0x%llx  [", (long long)a) + n + "]  " + text(a) + "\n"); if (want.empty()) want.push_back(fmt("PC: 0x%llx  ", (long long)a) + text(a) + "\n"); } vstat("trace_lines");
				seen("trace_kinds", fmt("%d %d", d.short_output, (int)std::min<size_t>(3, allowed(a).size()))); if (std::find(want.begin(), want.end(), got) == want.end()) viol("trace-line", fmt("\"%.200s\", expected \"%.200s\"", got.c_str(), want[0].c_str())); }
			if (r.chance(1, 8)) { // a listing that agrees, except where it was changed
				std::string list = "\nprog:     file format elf64-loongarch\n\nDisassembly of section .text:\n\n"; size_t total = 0, bad = 0; std::vector<u64> where; u64 from = TEXT + 4 * r.below(32); const bool clean = r.chance(1, 3);
				for (u64 a = from; a < TEXT + 256; a += 4) { if (r.chance(1, 8)) list += fmt("\n%016llx <sym%d>:\n", (long long)a, (int)r.below(9)); if (r.chance(1, 12)) { list += "\t...\n"; continue; } std::string t = text(a); uint32_t w; memcpy(&w, &code[a - TEXT], 4); size_t sp = t.find_first_of(" \t"), cm = t.find(','); std::string mn = t.substr(0, sp), ops = sp == std::string::npos ? "" : t.substr(sp); if (!ops.empty()) ops = ops.substr(ops.find_first_not_of(" \t"));
					bool wrong = false; switch (clean ? 9 : r.below(10)) { case 0: mn += "x"; wrong = true; break; case 1: mn = "x" + mn; wrong = true; break; case 2: if (!ops.empty()) { ops += "0"; wrong = true; } break; case 3: if (!ops.empty()) { ops = "q" + ops; wrong = true; } break; case 4: ops += ops.empty() ? "$a0" : ", $a0"; wrong = true; break; case 5: if (cm != std::string::npos && !ops.empty() && ops.find('#') == std::string::npos) ops += "\t# 12008 <sym+0x8>"; break; case 6: if (cm != std::string::npos) { ops.erase(0, ops.find(',') + 1); wrong = true; } break; }
					if (ops.find('#') != std::string::npos && wrong) { wrong = false; mn = t.substr(0, sp); ops = sp == std::string::npos ? "" : t.substr(t.find_first_not_of(" \t", sp)); }
					list += fmt("%*llx:\t%08x \t", (int)r.range(5, 12), (long long)a, w) + mn + (ops.empty() ? "" : (r.chance(1, 2) ? "\t" : "     ") + ops) + (r.chance(1, 9) ? "  " : "") + "\n"; total++; if (wrong) { bad++; where.push_back(a); } }
				if (r.chance(1, 2)) list.pop_back(); std::string file = std::string(getenv("VH_SCRATCH") ? getenv("VH_SCRATCH") : "/tmp") + fmt("/listing.%d", (int)getpid()); FILE* f = fopen(file.c_str(), "w"); if (!f) { perror(file.c_str()); _exit(97); } fwrite(list.data(), 1, list.size(), f); fclose(f);
				d.objdump_path = "cat " + file + "; true"; d.filename = "prog"; d.verbose_instructions = r.chance(1, 2); auto state = [&] { std::string t = m.cpu.registers().to_string(); for (int i = 0; i < 32; i++) t.append((char*)&m.cpu.registers().getvr(i), 32); return t + fmt("%llx", (long long)m.cpu.pc()); }; std::string before = state(); std::vector<uint8_t> mem(m.memory.arena_ptr(), m.memory.arena_ptr() + m.memory.arena_size()); u64 ic = m.instruction_counter(); Capture c; d.decode_and_compare(); std::string got = c.end(); unlink(file.c_str()); vstat("listings"); vstat("listed", total); vstat("mismatches", bad);
				auto has = [&](const std::string& x) { return got.find(x) != std::string::npos; }; auto cnt = [&](const std::string& x) { size_t n = 0; for (size_t p = 0; (p = got.find(x, p)) != std::string::npos; p += x.size()) n++; return n; };
				if (!has(fmt("Total instructions decoded: %zu\n", total)) || !has(fmt("Mismatches found: %zu\n", bad))) viol("listing:counts", fmt("expected %zu instructions and %zu mismatches: %.300s", total, bad, got.substr(got.size() > 300 ? got.size() - 300 : 0).c_str()));
				else if (has("SUCCESS:") != (total && !bad) || has("FAILED:") != (bad > 0)) viol("listing:verdict", got.substr(got.size() > 300 ? got.size() - 300 : 0)); else if (cnt("*** INSTRUCTION MISMATCH at PC=") != bad || (d.verbose_instructions ? cnt(";; MATCH: ") != total - bad : has(";; MATCH"))) viol("listing:lines", "reported mismatches or matches are not as many as counted"); else for (u64 a : where) if (!has(fmt("*** INSTRUCTION MISMATCH at PC=0x%llx ***\n", (long long)a))) viol("listing:where", fmt("the changed line at %#llx is not reported", (long long)a));
				if (before != state() || memcmp(mem.data(), m.memory.arena_ptr(), mem.size()) || m.instruction_counter() != ic) viol("listing:state", "comparing changed the machine"); }
			return; }
		for (int i = 0; i < 12; i++) {
			u64 a = probe(); auto v = allowed(a); vstat("lookups"); const Symbol* got = m.lookup_symbol(a); bool ok = got ? false : v.empty(); if (got) for (auto* s : v) ok |= s->name == got->name && s->addr == got->address && s->size == got->size;
			seen("lookup_kinds", fmt("%d %d", got != nullptr, (int)std::min<size_t>(v.size(), 3))); if (!ok) viol("lookup", fmt("%#llx gives %.60s, expected one of %zu (%.60s) in %s", (long long)a, got ? got->name.c_str() : "nothing", v.size(), v.empty() ? "" : v[0]->name.c_str(), desc.substr(0, 400).c_str()));
			for (bool off : {false, true}) { std::string p = m.lookup_demangled_symbol(a, off); auto want = pretty(a, off); if (std::find(want.begin(), want.end(), p) == want.end()) viol("demangled", fmt("%#llx gives %.200s, expected %.200s", (long long)a, p.c_str(), want[0].c_str())); }
			std::string nm = syms.empty() || r.chance(1, 5) ? name(r) : syms[r.below(syms.size())].name; u64 at_ = m.address_of(nm); bool found = false, any = false; for (auto& s : syms) if (s.name == nm) { any = true; found |= s.addr == at_; } if (any ? !found : at_ != 0) viol("address_of", fmt("%.60s is at %#llx", nm.c_str(), (long long)at_)); vstat("names");
		}
		// backtrace: first the address (or pc), then ra and words of the stack until zero, unreadable, or 64 frames
		for (int k = 0; k < 2; k++) {
			u64 sp = r.chance(1, 4) ? r.interesting() : m.memory.arena_size() - 8 * r.below(100), init = r.chance(1, 2) ? 0 : probe(); if (r.chance(1, 2)) sp &= ~7ull; m.cpu.reg(REG_SP) = sp; m.cpu.reg(REG_RA) = r.chance(1, 5) ? 0 : probe(); m.cpu.registers().pc = probe(); u64 len = r.below(100); for (u64 i = 0; i < len && sp >= DATA && sp < m.memory.arena_size(); i++) { u64 a = sp + 8 * i, x = probe(); if (a + 8 <= m.memory.arena_size()) memcpy((void*)(m.memory.arena_ptr() + a), &x, 8); }
			std::vector<std::pair<std::string, u64>> want; want.push_back({"#-", init ? init : (u64)m.cpu.pc()}); u64 ra = m.cpu.reg(REG_RA), s = sp; bool edge = false; for (int d = 0; ra && d < 64; d++) { want.push_back({fmt("#%d", d), ra}); bool rd = s >= m.memory.rodata_start() && s <= m.memory.arena_size() && 8 <= m.memory.arena_size() - s; if (!rd) { edge = s < m.memory.arena_size() && s > m.memory.arena_size() - 8; break; } memcpy(&ra, m.memory.arena_ptr() + s, 8); s += 8; }
			at(status->caseno, "backtrace " + desc); std::string bt = m.backtrace(init); vstat("backtraces"); seen("frames", fmt("%zu", want.size())); size_t pos = 0, i = 0; bool ok = true; for (; i < want.size() && ok; i++) { std::string head = want[i].first + fmt(": 0x%016llx ", (long long)want[i].second); if (bt.compare(pos, head.size(), head)) { ok = false; break; } pos += head.size(); ok = false; for (auto& p : pretty(want[i].second, true)) if (bt.compare(pos, p.size() + 1, p + "\n") == 0) { pos += p.size() + 1; ok = true; break; } }
			if (!ok || (pos != bt.size() && !edge)) viol("backtrace", fmt("frame %zu of %zu differs: %.120s", i, want.size(), bt.substr(std::min(pos, bt.size())).c_str()));
		}
	});
	return finish();
}
