// Native heap and string-function monitors.
// heap: random histories of malloc, calloc, realloc, free and meminfo, made by system call, by the patched guest
//   functions, or by the host; a model of the live allocations judges every address, contents and count.
// str: accelerated string functions against plain loops over a shadow of guest memory.
#include "lh.hpp"
#include "elfgen.hpp"
#include <libloong/native/heap.hpp>
using namespace vh; using namespace loongarch;
// A copy of guest memory from `base` on, addressed as the guest does; nothing is mapped below.
static u64 HI = 0; // --high ADDR: the whole program lies above it
struct Shadow { std::vector<uint8_t> v; uint8_t& operator[](u64 a) { return v[a - HI]; } void take(const uint8_t* p, u64 size) { v.assign(p + HI, p + size); } };
static u64 TEXT = 0x10000, DATA = 0x20000;
static const struct { const char* sym; unsigned nr; } fns[] = {{"malloc", 495}, {"calloc", 496}, {"realloc", 497}, {"free", 498}, {"__strlen_lsx", 500}, {"__strnlen_aligned", 501}, {"__strcmp_lasx", 502}, {"__strncmp_lsx", 503}, {"__memchr_lsx", 507}, {"__memcpy_lasx", 508}, {"__memset_unaligned", 509}, {"__memcmp_lsx", 510}, {"__memmove_unaligned", 511}};
static std::string image(u64 dsize) {
	elfgen::Image im; std::string code; auto w = [&](uint32_t x) { code.append((char*)&x, 4); };
	for (auto& f : fns) { im.syms.push_back({f.sym, TEXT + code.size(), 16}); for (int i = 0; i < 4; i++) w(0x002a0000 /* break: the original code must never run */); }
	w(0x00150000 /* stop */); im.segs.push_back({TEXT, elfgen::R | elfgen::X, code, 0x1000}); im.segs.push_back({DATA, elfgen::R | elfgen::W, std::string(64, 'x'), dsize}); im.entry = im.text_addr = TEXT; im.text_size = code.size(); return im.build();
}
struct Base {
	Rng& r; MachineOptions o; std::string bin; std::unique_ptr<Machine> M; u64 size, rd, wd; Shadow shadow; bool failed = false, threw = false; std::string what, log; u64 res = 0;
	Base(Rng& r, u64 dsize, u64 mem) : r(r) { bin = image(dsize); o.memory_max = HI + mem; o.stack_size = 0x4000; o.brk_size = 0x1000; o.use_shared_execute_segments = false; M = std::make_unique<Machine>(std::string_view(bin), o); M->setup_linux_syscalls(); M->memory.set_exit_address(TEXT + 16 * (sizeof fns / sizeof *fns)); size = M->memory.arena_size(); rd = M->memory.rodata_start(); wd = M->memory.data_start(); }
	void start() { for (u64 i = wd; i < size; i += 8) { u64 v = r.next(); memcpy(ptr(i), &v, std::min<u64>(8, size - i)); } shadow.take(ptr(0), size); }
	uint8_t* ptr(u64 a) { return (uint8_t*)M->memory.arena_ptr() + a; }
	void bad(const std::string& k, const std::string& d) { failed = true; viol(k, what + ": " + d + " | " + (log.size() > 500 ? "..." + log.substr(log.size() - 500) : log)); }
	// one call, by any of the ways a program has
	void call(unsigned nr, std::vector<u64> a, const std::string& w) {
		what = w; log += " " + w + ";"; at(status->caseno, log.size() > 3000 ? log.substr(log.size() - 3000) : log); threw = false; auto& R = M->cpu.registers(); int how = nr == 499 ? 0 : (int)r.below(3); seen("ways", fmt("%u %d", nr, how)); vstat("calls");
		for (int i = 4; i < 12; i++) R.get(i) = r.next();
		try {
			if (how == 0) { for (size_t i = 0; i < a.size(); i++) R.get(4 + i) = a[i]; R.get(11) = nr; u64 keep[32]; for (int i = 0; i < 32; i++) keep[i] = R.get(i); u64 pc = R.pc; M->system_call(nr); for (int i = 1; i < 32; i++) if (i != 4 && R.get(i) != keep[i]) bad("register", fmt("r%d changed", i)); if (R.pc != pc) bad("register", "pc changed"); res = R.get(4); }
			else { u64 f = 0; for (auto& x : fns) if (x.nr == nr) f = M->address_of(x.sym); if (how == 1) { a.resize(3, r.next()); res = (u64)M->vmcall<long>(f, a[0], a[1], a[2]); } else { for (size_t i = 0; i < a.size(); i++) R.get(4 + i) = a[i]; u64 stop = R.get(1) = M->memory.exit_address(); u64 keep[32]; for (int i = 0; i < 32; i++) keep[i] = R.get(i); R.pc = f; if (r.chance(1, 2)) M->simulate(1000); else M->cpu.simulate_inaccurate(f); for (int i = 1; i < 32; i++) if (i != 4 && R.get(i) != keep[i]) bad("register", fmt("r%d changed", i)); if (R.pc != stop && R.pc != stop + 4) bad("return", fmt("returned to %#llx", (long long)R.pc)); } if (how == 2) res = R.get(4); }
		} catch (const MachineException& e) { { threw = true; log += std::string(" [") + e.what() + fmt(" %llx]", (long long)e.data()); vstat("exceptions"); seen("exception_kinds", fmt("%u %d", nr, e.type())); if (e.type() == ILLEGAL_OPCODE || e.type() == UNIMPLEMENTED_INSTRUCTION) bad("not-patched", e.what()); } } catch (const std::exception& e) { threw = true; bad("exception", e.what()); }
		if (threw && how == 1) M->cpu.reg(3) = M->memory.stack_address();
	}
	void memory() { const uint8_t* p = ptr(0); u64 st = M->memory.stack_address(); if (st >= 64 && st <= size) memcpy(&shadow[st - 64], p + st - 64, 64); if (memcmp(p + HI, shadow.v.data(), size - HI)) { u64 i = HI; while (p[i] == shadow[i]) i++; bad("memory:" + what.substr(0, what.find('(')), fmt("guest byte %#llx is %02x, expected %02x", (long long)i, p[i], shadow[i])); memcpy(shadow.v.data(), p + HI, size - HI); } }
};
struct Heap : Base {
	u64 base, end; struct A { u64 len, real; }; std::map<u64, A> live; std::vector<u64> dead; bool toomany = false;
	Heap(Rng& r) : Base(r, 0x1000 + 0x1000 * r.below(12), 0x60000) { base = DATA + 16 * r.below(16); u64 n = M->memory.brk_address() - base; if (r.chance(1, 3)) n = 16 * r.below(64) + 16; n &= ~15ull; end = base + n; M->setup_accelerated_syscalls(); M->setup_accelerated_heap(base, n); if (r.chance(1, 4)) { M->arena().set_max_chunks(4 + r.below(20)); toomany = true; } start(); log = fmt("arena %#llx+%#llx", (long long)base, (long long)n); }
	static u64 fix(u64 n) { return n > ~15ull ? ~0ull : std::max<u64>(16, (n + 15) & ~15ull); }
	u64 gap() { u64 at = base, g = 0; for (auto& [a, x] : live) { g = std::max(g, a - at); at = a + x.real; } return std::max(g, end - at); }
	u64 used() { u64 s = 0; for (auto& [a, x] : live) s += x.real; return s; }
	u64 len() { switch (r.below(10)) { case 0: return r.interesting(); case 1: return gap() + r.range(-17, 17); case 2: return 0; case 3: return r.below(end - base); default: return r.below(1 + std::min<u64>(300, (end - base) / 4)); } }
	void fill(u64 a, u64 n) { for (u64 i = 0; i < n; i++) shadow[a + i] = *ptr(a + i) = (uint8_t)r.next(); }
	// a new allocation was returned (or refused) for this length
	bool fresh(u64 n, u64 g) {
		if (threw) { if (!toomany) bad("refused", "exception"); vstat("chunk_limit"); return false; }
		if (res == 0) { if (fix(n) <= g) bad("refused", fmt("%llu bytes refused with %llu contiguous bytes free", (long long)n, (long long)g)); vstat("exhausted"); return false; }
		if (res < base || res >= end || n > end - res) { bad("outside", fmt("%llu bytes at %#llx", (long long)n, (long long)res)); return false; }
		if ((res - base) & 15) bad("alignment", fmt("%#llx", (long long)res)); auto it = live.upper_bound(res); u64 real = M->arena().size(res);
		if (real < n) bad("short", fmt("%llu of %llu bytes at %#llx", (long long)real, (long long)n, (long long)res));
		if (it != live.end() && res + real > it->first) { bad("overlap", fmt("%#llx+%llu reaches into the allocation at %#llx", (long long)res, (long long)real, (long long)it->first)); return false; }
		if (it != live.begin() && std::prev(it)->first + std::prev(it)->second.real > res) { bad("overlap", fmt("%#llx lies in the allocation at %#llx", (long long)res, (long long)std::prev(it)->first)); return false; }
		live[res] = {n, real}; vstat("allocations"); return true;
	}
	u64 pick() { return std::next(live.begin(), r.below(live.size()))->first; }
	u64 wrong() { u64 a; do { switch (r.below(5)) { case 0: a = r.interesting(); break; case 1: a = live.empty() ? base + 16 : pick() + 16; break; case 2: a = dead.empty() ? end : dead[r.below(dead.size())]; break; case 3: a = live.empty() ? base - 16 : pick() | (1ull << 32 << r.below(20)); break; default: a = base + r.below(end - base); } } while (a == 0 || live.count(a)); return a; }
	void step() {
		u64 g = gap();
		switch (r.below(12)) {
		case 0: case 1: case 2: case 3: { u64 n = len(); call(495, {n}, fmt("malloc(%#llx)", (long long)n)); if (fresh(n, g)) { memory(); fill(res, n); } break; }
		case 4: { u64 c = r.chance(1, 4) ? r.interesting() : r.below(20), s = r.chance(1, 4) ? r.interesting() : r.below(40); unsigned __int128 p = (unsigned __int128)c * s; u64 n = p >> 64 ? ~0ull : (u64)p; call(496, {c, s}, fmt("calloc(%#llx,%#llx)", (long long)c, (long long)s)); if (fresh(n, g)) { memset(&shadow[res], 0, n); memory(); fill(res, n); vstat("zeroed"); } break; }
		case 5: case 6: { if (live.empty()) { u64 n = len(); call(497, {0, n}, fmt("realloc(0,%#llx)", (long long)n)); if (fresh(n, g)) { memory(); fill(res, n); } break; }
			u64 a = pick(), n = len(), old = live[a].len, real = live[a].real; call(497, {a, n}, fmt("realloc(%#llx[%llu],%#llx)", (long long)a, (long long)old, (long long)n)); if (threw) { if (!toomany) bad("refused", "exception"); break; }
			if (res == 0) { u64 grow = real; auto it = live.find(a); u64 nx = std::next(it) == live.end() ? end : std::next(it)->first; grow = nx - a; if (fix(n) <= std::max(g, grow) && n <= ~15ull) bad("refused", fmt("%llu bytes refused with %llu free and %llu in place", (long long)n, (long long)g, (long long)grow)); vstat("exhausted"); break; }
			live.erase(a); u64 keep = std::min(old, n); std::string body((char*)&shadow[a], keep); if (fresh(n, ~0ull)) { if (memcmp(ptr(res), body.data(), keep)) bad("realloc:contents", fmt("the first %llu bytes were not kept", (long long)keep)); if (res != a) { dead.push_back(a); vstat("moved"); memcpy(&shadow[res], ptr(res), std::min(n, live[res].real)); if (std::min<u64>(real, n) > keep) memcpy(&shadow[res], ptr(res), std::min<u64>(real, n)); } else vstat("resized_in_place"); memory(); fill(res, n); } break; }
		case 7: case 8: case 9: { if (live.empty() || r.chance(1, 10)) { bool null = r.chance(1, 3); u64 a = null ? 0 : wrong(); if ((uint32_t)a != a && live.count((uint32_t)a)) vstat("wide_pointers"); call(498, {a}, fmt("free(%#llx) invalid", (long long)a)); if (threw == null) bad(null ? "free:null" : "free:invalid", null ? "refused" : "accepted"); vstat("invalid_frees"); break; }
			u64 a = pick(); call(498, {a}, fmt("free(%#llx)", (long long)a)); if (threw) bad("free:refused", "exception"); live.erase(a); dead.push_back(a); vstat("frees"); break; }
		case 10: { u64 a = wrong(), n = len(); call(497, {a, n}, fmt("realloc(%#llx,%llu) invalid", (long long)a, (long long)n)); if (!threw && res != 0) bad("realloc:invalid", fmt("returned %#llx", (long long)res)); break; }
		default: { u64 a = M->memory.stack_address() - 512; call(499, {a}, "meminfo()"); u64 v[3]; if (threw) { bad("meminfo", "exception"); break; } memcpy(v, ptr(a), 24); memcpy(&shadow[a], v, 24); if (v[0] + v[1] != end - base || v[1] != used()) bad("conservation", fmt("%llu free and %llu used of %llu, %llu live", (long long)v[0], (long long)v[1], (long long)(end - base), (long long)used())); vstat("meminfos"); } }
		memory(); auto& A = M->arena(); if (A.bytes_used() != used() || A.bytes_free() != end - base - used()) bad("conservation", fmt("%zu used and %zu free of %llu, live %llu", A.bytes_used(), A.bytes_free(), (long long)(end - base), (long long)used()));
		for (auto& [a, x] : live) if (A.size(a) != x.real) { bad("size", fmt("allocation %#llx now has %zu bytes, not %llu", (long long)a, A.size(a), (long long)x.real)); break; }
		std::string lay; for (auto& [a, x] : live) lay += fmt("%llx+%llx ", (long long)(a - base), (long long)x.real); seen("heap_states", lay);
	}
};
struct Str : Base {
	Str(Rng& r) : Base(r, 0x1000, r.chance(1, 6) ? 0x58000 : 0x30000) { M->setup_accelerated_syscalls(); start(); }
	bool cr(u64 a, u64 n) { return a >= rd && a <= size && n <= size - a; } bool cw(u64 a, u64 n) { return a >= wd && a <= size && n <= size - a; }
	u64 addr() { switch (r.below(12)) { case 0: return r.interesting(); case 1: return rd + r.range(-4, 20); case 2: return wd + r.range(-20, 20); case 3: case 4: return size - r.below(40); case 5: return size + r.below(4); default: return DATA + r.below(400); } }
	u64 len() { switch (r.below(8)) { case 0: return r.interesting(); case 1: return 0; case 2: return size - r.below(64); default: return r.below(80); } }
	void prepare(u64 a, u64 b) { // strings that agree for a while, small alphabets, terminators near the end of memory
		if (r.chance(1, 2)) { u64 n = r.below(60); uint8_t al[4] = {(uint8_t)r.next(), (uint8_t)r.next(), 0x80, 1}; for (u64 x : {a, b}) for (u64 i = 0; i < n; i++) if (cw(x + i, 1)) set(x + i, al[r.below(4)]); if (r.chance(2, 3)) for (u64 i = 0; i < n; i++) if (cw(a + i, 1) && cw(b + i, 1)) set(b + i, shadow[a + i]); if (r.chance(3, 4)) { for (u64 x : {a, b}) { u64 t = x + n + (r.chance(1, 4) ? r.below(3) : 0); if (cw(t, 1)) set(t, 0); } } if (n && r.chance(1, 2)) { u64 i = b + r.below(n); if (cw(i, 1)) set(i, (uint8_t)r.next()); } }
		if (r.chance(1, 3)) set(size - 1, r.chance(1, 2) ? 0 : (uint8_t)(1 + r.below(255)));
	}
	void set(u64 a, uint8_t v) { shadow[a] = v; *ptr(a) = v; }
	// length up to lim; -1: runs off readable memory
	int64_t slen(u64 a, u64 lim) { for (u64 i = 0; i < lim; i++) { if (!cr(a + i, 1)) return -1; if (!shadow[a + i]) return i; } return lim; }
	void want(bool fault, u64 v, bool sign = false) { if (threw != fault) { bad("fault:" + what.substr(0, what.find('(')), fault ? fmt("returned %#llx instead of faulting", (long long)res) : "faulted"); return; } if (fault) return; if (sign) { int64_t x = (int32_t)res, y = (int64_t)v; if ((int64_t)res != x) bad("result:" + what.substr(0, what.find('(')), fmt("%#llx is not an int", (long long)res)); if ((x < 0) != (y < 0) || (x == 0) != (y == 0)) bad("result:" + what.substr(0, what.find('(')), fmt("%lld, expected sign of %lld", (long long)x, (long long)y)); } else if (res != v) bad("result:" + what.substr(0, what.find('(')), fmt("%#llx, expected %#llx", (long long)res, (long long)v)); }
	void step() {
		static const unsigned nrs[] = {500, 501, 502, 503, 507, 508, 509, 510, 511}; unsigned nr = nrs[r.below(9)]; u64 a = addr(), b = r.chance(1, 4) ? a + r.range(-30, 30) : addr(), n = len(); if (nr == 508) while (a < b + n && b < a + n && n && a != b) { b = addr(); n = r.below(60); } 
		if (size - HI > 0x38000 && r.chance(1, 4)) { // long operands, around sizes an implementation may stop at
			static const u64 L[] = {128, 255, 256, 1024, 4095, 4096, 8192, 16384, 32768, 65535, 65536}; u64 k = L[r.below(11)] + r.range(-2, 2); a = DATA + r.below(400); b = a + k + 4 + r.below(300); n = r.chance(1, 8) ? 2 * k : k + r.range(-2, 2); if (nr == 508 && n > b - a) n = b - a;
			uint8_t v = 1 + r.below(255); for (u64 i = 0; i < k + 3; i++) { uint8_t c = (i & 7) ? v : (uint8_t)(1 + i % 251); set(a + i, c); set(b + i, c); } for (u64 x : {a, b}) if (r.chance(2, 3)) set(x + k - r.below(4) + r.below(4), r.chance(1, 2) ? 0 : (uint8_t)r.next()); vstat("long_operands"); seen("long_operand_sizes", fmt("%u %llu", nr, (long long)k));
		} else prepare(a, b); log.clear(); std::string args = fmt("(%#llx,%#llx,%#llx)", (long long)a, (long long)b, (long long)n);
		switch (nr) {
		case 500: { call(nr, {a}, "strlen" + args); int64_t k = slen(a, ~0ull); want(k < 0, k); break; }
		case 501: { call(nr, {a, n}, "strnlen" + args); int64_t k = n ? slen(a, n) : 0; want(n && k < 0, k); break; }
		case 502: case 503: { u64 lim = nr == 502 ? ~0ull : n; bool fault = false; int v = 0; for (u64 i = 0; i < lim; i++) { if (!cr(a + i, 1) || !cr(b + i, 1)) { fault = true; break; } uint8_t x = shadow[a + i], y = shadow[b + i]; if (x != y) { v = x < y ? -1 : 1; break; } if (!x) break; } call(nr, {a, b, n}, (nr == 502 ? "strcmp" : "strncmp") + args); want(fault, (u64)(int64_t)v, true); break; }
		case 507: { u64 v = 0; bool fault = false; int c = r.chance(1, 2) && cr(a + 20, 1) ? shadow[a + r.below(20)] : (int)r.below(256); u64 raw = (u64)c | (r.next() << 8); for (u64 i = 0; i < n; i++) { if (!cr(a + i, 1)) { fault = true; break; } if (shadow[a + i] == c) { v = a + i; break; } } call(nr, {a, raw, n}, fmt("memchr(%#llx,%d,%#llx)", (long long)a, c, (long long)n)); want(fault, v); break; }
		case 508: case 511: { bool ok = n == 0 || (cw(a, n) && cr(b, n)); call(nr, {a, b, n}, (nr == 508 ? "memcpy" : "memmove") + args); if (ok && n) memmove(&shadow[a], &shadow[b], n); want(!ok, a); break; }
		case 509: { bool ok = n == 0 || cw(a, n); call(nr, {a, b, n}, "memset" + args); if (ok && n) memset(&shadow[a], (int)b, n); want(!ok, a); break; }
		default: { bool ok = n == 0 || (cr(a, n) && cr(b, n)); int v = ok && n ? memcmp(&shadow[a], &shadow[b], n) : 0; call(nr, {a, b, n}, "memcmp" + args); if (!ok && !threw) { /* a difference before the fault may be reported */ u64 i = 0; while (i < n && cr(a + i, 1) && cr(b + i, 1) && shadow[a + i] == shadow[b + i]) i++; if (i == n || !cr(a + i, 1) || !cr(b + i, 1)) bad("fault:memcmp", "did not fault"); break; } want(!ok, (u64)(int64_t)v, true); } }
		seen("string_calls", fmt("%u %d n%d %s", nr, threw, n == 0 ? 0 : n > 64, threw ? "" : nr == 502 || nr == 503 || nr == 510 ? ((int32_t)res < 0 ? "<" : res ? ">" : "=") : "")); seen("arguments", what); memory();
	}
};
int main(int argc, char** argv) {
	init(argc, argv); HI = strtoull(kv("high", "0").c_str(), 0, 0); TEXT += HI; DATA += HI; std::string mode = kv("mode", "heap");
	run_cases(opt.cases ? opt.cases : 300, [&](u64, Rng& r) { if (mode == "heap") { Heap h(r); int n = 60 + r.below(400); for (int i = 0; i < n && !h.failed; i++) h.step(); seen("histories", h.log); if (r.chance(1, 100)) sample(h.log.substr(0, 300)); } else { Str s(r); for (int i = 0; i < 300 && !s.failed; i++) s.step(); } });
	return finish();
}
