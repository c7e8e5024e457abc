// Guest memory boundary monitor.  The arena is a heap block of exactly the size the host promised,
// so AddressSanitizer sees any access outside it; a byte-exact model of guest memory judges every
// host API call and every guest load and store, in every interpreter.
#include "lh.hpp"
#include "elfgen.hpp"
using namespace vh; using namespace loongarch;
static ref::ISA isa;
static const u64 OVER = 64;
// builds with masked memory: an instruction or scalar access goes to its address modulo 2^bits and cannot fault; ranges are checked as ever
static const u64 MASK = LA_MASKED_MEMORY_BITS ? (1ull << LA_MASKED_MEMORY_BITS) - 1 : ~0ull; static const bool MASKED = LA_MASKED_MEMORY_BITS != 0;
// --large 1: arenas above 2 and 4 GiB.  Only the windows around interesting places are filled and compared; the rest is reserved address space.
static bool LARGE = false;
struct Model { uint8_t* p = nullptr; u64 n = 0; uint8_t* data() { return p; } u64 size() const { return n; } uint8_t& operator[](u64 i) { return p[i]; } uint8_t* begin() { return p; } };
struct World { std::unique_ptr<Machine> m; uint8_t* arena; u64 size, ro, rw, mapped = 0; Model model; std::vector<std::pair<u64, u64>> win; MachineOptions o; };
static World w;
static u64 MEM;
static uint8_t* reserve(u64 n) { if (!LARGE) return (uint8_t*)malloc(n); void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { printf("no address space\n"); exit(3); } return (uint8_t*)p; }
static void release(uint8_t* p) { if (!LARGE) free(p); else if (p) munmap(p, w.mapped); }
static u64 first_diff(u64 lo = 0, u64 hi = 0) { for (auto [a, b] : w.win) if (memcmp(w.arena + a, w.model.p + a, b - a)) for (u64 i = a; i < b; i++) if (w.arena[i] != w.model.p[i] && !(i >= lo && i < hi)) return i; return ~0ull; }
static void resync() { for (auto [a, b] : w.win) memcpy(w.model.p + a, w.arena + a, b - a); }
static void make(Rng& r) {
	w.m.reset(); release(w.arena); release(w.model.p);
	MEM = 0x40000 + 0x1000 * r.below(16); if (MASKED) MEM = MASK + 1 + (r.chance(1, 2) ? 0 : 0x1000 * r.below(16)); elfgen::Image im; u64 base = 0x10000 + 0x1000 * r.below(4), data = base + 0x1000 * (1 + r.below(6));
	if (r.chance(1, 3)) data += r.below(0xfff); if (r.chance(1, 4)) base += 4 * r.below(1000);
	if (LARGE) { static const u64 Z[] = {1ull << 31, 1ull << 32, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33}; MEM = Z[r.below(5)] + 0x20000 + 0x1000 * r.below(64); if (MEM > 1ull << 32 && r.chance(1, 4)) data += 1ull << 32; if (r.chance(1, 4)) data += (1ull << 31) - 0x10000; if (data + 0x10000 > MEM) data = base + 0x3000; }
	std::string text(0x800, '\0'); im.segs.push_back({base, elfgen::R | elfgen::X, text, 0}); im.segs.push_back({data, elfgen::R | elfgen::W, std::string(100, 'x'), 0x800}); im.entry = base; im.sections = false;
	static std::string bin; bin = im.build();
	MachineOptions o; o.memory_max = MEM; o.stack_size = 0x4000; o.brk_size = 0x2000; o.use_shared_execute_segments = false;
	w.size = MEM - OVER * r.below(1); w.mapped = w.size + OVER; w.arena = reserve(w.mapped); if (!LARGE) memset(w.arena, 0, w.size + OVER); o.custom_arena_pointer = w.arena; o.custom_arena_size = w.size + OVER;
	w.o = o; w.m = std::make_unique<Machine>(std::string_view(bin), o); w.m->set_options(std::make_shared<MachineOptions>(o));
	w.ro = base; w.rw = data;
	w.win.clear(); if (!LARGE) w.win = {{0, w.size + (MASKED ? OVER : 0)}}; else { std::set<u64> at_; for (u64 c : {w.ro, w.rw, w.size, u64(1) << 31, u64(1) << 32}) for (u64 k : {c, c & 0xffffffff, c & 0x7fffffff, c + (u64(1) << 32)}) if (k <= w.size) at_.insert(k); // and where truncated addresses would lead
		for (u64 c : at_) { u64 a = c < 0x2000 ? 0 : c - 0x2000, b = std::min(w.size, c + 0x2000); if (!w.win.empty() && w.win.back().second >= a) w.win.back().second = b; else w.win.push_back({a, b}); } vstat("large_arenas"); }
	for (auto [lo, hi] : w.win) for (u64 i = lo; i < std::min(hi, w.size); i++) w.arena[i] = r.chance(1, 30) ? 0 : (uint8_t)(1 + r.below(255));
	if (MASKED) for (u64 i = 0; i < OVER; i++) w.arena[w.size + i] = (uint8_t)r.next();
	w.model.n = w.size + (MASKED ? OVER : 0); w.model.p = reserve(LARGE ? w.mapped : w.model.n); resync();
}
static bool rd_ok(u64 a, u64 n) { return a >= w.ro && a <= w.size && n <= w.size - a; }
static bool wr_ok(u64 a, u64 n) { return a >= w.rw && a <= w.size && n <= w.size - a; }
static u64 gen_addr(Rng& r) {
	if (LARGE && r.chance(2, 3)) { auto [a, b] = w.win[r.below(w.win.size())]; return r.chance(1, 2) ? (a + b) / 2 + r.range(-80, 80) : r.chance(1, 8) ? a + r.below(b - a) + (1ull << 32) * r.below(3) : a + r.below(b - a); }
	switch (r.below(10)) { case 0: return w.ro + r.range(-70, 70); case 1: return w.rw + r.range(-70, 70); case 2: case 3: return w.size + r.range(-140, 70); case 4: return r.interesting(); case 5: return -(u64)r.below(5000); case 6: return r.below(0x2000); default: return w.ro + r.below(w.size - w.ro); }
}
static u64 gen_len(Rng& r, u64 a) {
	switch (r.below(9)) { case 0: return 0; case 1: return w.size - a + r.range(-3, 3); case 2: return r.interesting(); case 3: return ~0ull - r.below(5000); case 4: return 0 - a + r.below(w.size); case 5: return r.below(5000); default: return r.below(130); }
}
enum R { OK_, PF, OTHER, HOSTEX };
template <class F> static R call(F f, std::string& what) { try { f(); return OK_; } catch (const MachineException& e) { what = e.what(); return e.type() == PROTECTION_FAULT ? PF : OTHER; } catch (const std::exception& e) { what = e.what(); return HOSTEX; } }
static const char* rn[] = {"succeeded", "faulted", "raised another exception", "threw a host exception"};
static bool check_arena(const char* api, const std::string& d) {
	u64 i = first_diff(); if (i == ~0ull) return true;
	viol(fmt("%s:memory", api), d + fmt(": guest memory differs from the model at %#llx", (long long)i)); for (auto [a, b] : w.win) memcpy(w.arena + a, w.model.p + a, b - a); return false;
}
static void expect(const char* api, R got, bool ok, const std::string& d, const std::string& what) {
	vstat(std::string("api.") + api); seen("outcomes", std::string(api) + rn[got]); vstat(ok ? "allowed" : "refused");
	if (got == HOSTEX || (got == OK_) != ok || (!ok && got != PF)) viol(fmt("%s:%s", api, ok ? "refused" : got == OK_ ? "allowed" : "exception"), d + fmt(" %s (%s), expected it to %s; readable [%#llx,%#llx) writable from %#llx", rn[got], what.c_str(), ok ? "succeed" : "fault", (long long)w.ro, (long long)w.size, (long long)w.rw));
}
template <class T> static void scalar(Rng& r, u64 a) {
	if (MASKED) { u64 x = r.next(); T v{}; std::string what; R g; memcpy(&v, &x, std::min(sizeof v, sizeof x)); const bool wr = r.chance(1, 2); at(status->caseno, fmt("%s%zu %#llx", wr ? "write" : "read", sizeof(T), (long long)a));
		if (wr) g = call([&] { w.m->memory.write<T>(a, v); }, what), memcpy(&w.model[a & MASK], &v, sizeof(T)); else g = call([&] { v = w.m->memory.read<T>(a); }, what);
		expect(wr ? "write" : "read", g, true, fmt("masked access of %zu at %#llx", sizeof(T), (long long)a), what); if (!wr && g == OK_ && memcmp(&v, &w.model[a & MASK], sizeof(T))) viol("read:value", fmt("read<%zu>(%#llx)", sizeof(T), (long long)a)); if ((a & MASK) + sizeof(T) > MASK + 1) vstat("edge"); if (a > MASK) vstat("wrapped"); if (wr) check_arena("write", fmt("write<%zu>(%#llx)", sizeof(T), (long long)a)); return; }
	std::string what; T v{}; const bool whole_r = rd_ok(a, sizeof(T)), whole_w = wr_ok(a, sizeof(T));
	const bool edge = a < w.size && w.size - a < sizeof(T); // straddles the end: either outcome, but contained
	if (r.chance(1, 2)) { at(status->caseno, fmt("read%zu %#llx", sizeof(T), (long long)a)); R g = call([&] { v = w.m->memory.read<T>(a); }, what);
		if (!edge) { expect("read", g, whole_r, fmt("read<%zu>(%#llx)", sizeof(T), (long long)a), what); if (g == OK_ && whole_r && memcmp(&v, &w.model[a], sizeof(T))) viol("read:value", fmt("read<%zu>(%#llx)", sizeof(T), (long long)a)); } else vstat("edge"); }
	else { u64 x = r.next(); memcpy(&v, &x, std::min(sizeof v, sizeof x)); at(status->caseno, fmt("write%zu %#llx", sizeof(T), (long long)a)); R g = call([&] { w.m->memory.write<T>(a, v); }, what);
		if (!edge) { expect("write", g, whole_w, fmt("write<%zu>(%#llx)", sizeof(T), (long long)a), what); if (whole_w) memcpy(&w.model[a], &v, sizeof(T)); } else { if (g == OK_ && a >= w.rw) memcpy(&w.model[a], &v, w.size - a); vstat("edge"); } }
}
static void api(Rng& r) {
	auto& M = w.m->memory; u64 a = gen_addr(r), n = gen_len(r, a); if (LARGE && n > 1 << 16 && a <= w.size && n <= w.size - a) n = r.below(5000);
	std::string what; auto mem = [&](u64 k) { std::string s(k, 0); for (auto& c : s) c = (char)r.next(); return s; };
	const bool sane = n <= 1 << 22; std::string d; R g;
	switch (r.below(14)) {
	case 0: scalar<uint8_t>(r, a); return; case 1: scalar<uint16_t>(r, a); return; case 2: scalar<uint32_t>(r, a); return; case 3: scalar<uint64_t>(r, a); return;
	case 4: { std::string src = mem(wr_ok(a, n) ? n : std::min<u64>(n, 1 << 22)); if (!wr_ok(a, n) && n > src.size()) {} d = fmt("copy_to_guest(%#llx, %#llx)", (long long)a, (long long)n); at(status->caseno, d); g = call([&] { M.copy_to_guest(a, src.data(), n); }, what); expect("copy_to_guest", g, wr_ok(a, n), d, what); if (wr_ok(a, n)) memcpy(w.model.data() + a, src.data(), n); break; }
	case 5: { std::string dst(sane ? n : 64, 'q'); d = fmt("copy_from_guest(%#llx, %#llx)", (long long)a, (long long)n); at(status->caseno, d); g = call([&] { M.copy_from_guest(dst.data(), a, n); }, what); expect("copy_from_guest", g, rd_ok(a, n), d, what); if (g == OK_ && rd_ok(a, n) && memcmp(dst.data(), w.model.data() + a, n)) viol("copy_from_guest:value", d); break; }
	case 6: { uint8_t v = r.next(); d = fmt("memset(%#llx, %#llx)", (long long)a, (long long)n); at(status->caseno, d); g = call([&] { M.memset(a, v, n); }, what); expect("memset", g, wr_ok(a, n), d, what); if (wr_ok(a, n)) memset(w.model.data() + a, v, n); break; }
	case 7: { u64 b = r.chance(1, 3) ? a : gen_addr(r); int res = 0; d = fmt("memcmp(%#llx, %#llx, %#llx)", (long long)a, (long long)b, (long long)n); at(status->caseno, d); g = call([&] { res = M.memcmp(a, b, n); }, what); bool ok = rd_ok(a, n) && rd_ok(b, n); expect("memcmp", g, ok, d, what);
		if (g == OK_ && ok) { int e = memcmp(w.model.data() + a, w.model.data() + b, n); if ((e < 0) != (res < 0) || (e > 0) != (res > 0)) viol("memcmp:value", d); } break; }
	case 8: { std::string_view v; d = fmt("memview(%#llx, %#llx)", (long long)a, (long long)n); at(status->caseno, d); g = call([&] { v = M.memview(a, n); }, what); expect("memview", g, rd_ok(a, n), d, what); if (g == OK_ && rd_ok(a, n) && (v.size() != n || memcmp(v.data(), w.model.data() + a, n))) viol("memview:value", d); break; }
	case 9: { u64 k = r.chance(1, 2) ? n : n / 8; const u64* p = nullptr; d = fmt("memarray<8>(%#llx, %#llx)", (long long)a, (long long)k); at(status->caseno, d); g = call([&] { p = M.memarray<u64>(a, k); }, what); bool ok = k <= (~0ull >> 4) && rd_ok(a, k * 8); expect("memarray", g, ok, d, what); if (ok && g == OK_) { for (u64 i = 0; i < k; i++) { u64 x; memcpy(&x, (const char*)p + 8 * i, 8); if (memcmp(&x, w.model.data() + a + 8 * i, 8)) { viol("memarray:value", d); break; } } } break; }
	case 10: { u64 k = r.chance(1, 2) ? n : n / 4; uint32_t* p = nullptr; d = fmt("writable_memarray<4>(%#llx, %#llx)", (long long)a, (long long)k); at(status->caseno, d); g = call([&] { p = M.writable_memarray<uint32_t>(a, k); }, what); bool ok = k <= (~0ull >> 4) && wr_ok(a, k * 4); expect("writable_memarray", g, ok, d, what); if (ok && g == OK_ && k) { u64 i = r.below(k); uint32_t x = r.next(); memcpy((char*)p + 4 * i, &x, 4); memcpy(w.model.data() + a + 4 * i, &x, 4); } break; }
	case 11: case 12: { // strlen / memstring: scan to the zero byte, the limit, or the end of memory
		u64 len = 0; std::string s; bool str = r.chance(1, 2); if (r.chance(1, 3)) n = 4096; d = fmt("%s(%#llx, %#llx)", str ? "memstring" : "strlen", (long long)a, (long long)n); at(status->caseno, d);
		g = call([&] { if (str) s = M.memstring(a, n); else len = M.strlen(a, n); }, what); const bool in = a >= w.ro && a < w.size; u64 e = 0; if (in) while (e < n && a + e < w.size && w.model[a + e]) e++;
		if (n == 0 || a == w.size) { if (g == HOSTEX || g == OTHER) viol("string:exception", d + " " + what); break; }
		expect(str ? "memstring" : "strlen", g, in, d, what); if (in && g == OK_) { if (str ? (s.size() != e || memcmp(s.data(), w.model.data() + a, e)) : len != e) viol(str ? "memstring:value" : "strlen:value", d + fmt(" gave %zu, expected %llu", str ? s.size() : len, (long long)e)); } break; }
	case 13: { // the host's own unchecked-permission copy: anywhere inside the arena
		std::string src = mem(sane ? n : 64); d = fmt("copy_into_arena_unsafe(%#llx, %#llx)", (long long)a, (long long)n); at(status->caseno, d); g = call([&] { M.copy_into_arena_unsafe(a, src.data(), n); }, what); bool ok = a <= w.size && n <= w.size - a; expect("copy_into_arena", g, ok, d, what); if (ok) memcpy(w.model.data() + a, src.data(), n); break; }
	}
	check_arena("api", d);
}
// guest loads and stores at the boundaries
static std::vector<std::pair<int, bool>> mems; // (encoding, is store)
static unsigned width_of(const std::string& n) { if (n[0] == 'x') return 32; if (n[0] == 'v') return 16; if (n.rfind("vldrepl", 0) == 0) return 16; std::string s = n.substr(n.rfind('.') + 1); switch (s[0]) { case 'b': return 1; case 'h': return 2; case 'w': case 's': return 4; default: return 8; } }
static void guest(Rng& r) {
	auto [enc, store] = mems[r.below(mems.size())]; const auto& e = ref::enc_table[enc]; std::string n = e.name; auto cls = lh::mem_class(n); u64 a = gen_addr(r); unsigned wd = width_of(n); if (n.rfind("xvldrepl", 0) == 0 || n.rfind("vldrepl", 0) == 0) { static const char sz[] = "bhwd"; wd = 1 << (strchr(sz, n.back()) - sz); }
	uint32_t wrd; int tries = 0; do { wrd = e.match | ((uint32_t)r.next() & ~e.mask); } while (isa.decode(wrd) != enc && ++tries < 100); if (tries >= 100) return;
	auto setf = [&](int lo, uint32_t v) { uint32_t m = (31u << lo) & ~e.mask; wrd = (wrd & ~m) | ((v << lo) & m); };
	setf(5, 13); u64 base = a, idx = 0;
	if (cls == lh::M_IDX) { setf(10, 14); idx = r.interesting(); base = a - idx; }
	else if (cls == lh::M_IMM || cls == lh::M_ATOMIC) { if (n.find("ptr.") != std::string::npos || n[0] == 'l' && n[1] == 'l' || n[0] == 's' && n[1] == 'c') base = a - (u64)((int64_t)(int32_t)(((wrd >> 10) & 0x3fff) << 18) >> 16); else if (cls == lh::M_IMM) base = a - (u64)((int64_t)(int32_t)(((wrd >> 10) & 0xfff) << 20) >> 20); else setf(10, 12); }
	if (cls != lh::M_ATOMIC && ((wrd & 31) == 11 || (wrd & 31) == 13 || (wrd & 31) == 14) && n[0] != 'v' && n[0] != 'x' && n[0] != 'f') setf(0, 5);
	if (cls == lh::M_ATOMIC) setf(0, 5);
	const u64 mask = n.rfind("am", 0) == 0 || n.rfind("ll.", 0) == 0 || n.rfind("sc.", 0) == 0 ? wd - 1 : 0; (void)mask;
	const bool ok = MASKED || (store ? wr_ok(a, wd) : rd_ok(a, wd)); const bool edge = !MASKED && a < w.size && w.size - a < wd; const u64 at_ = a & MASK; if (MASKED && a > MASK) vstat("wrapped");
	if (MASKED && store && at_ + 64 > w.ro && at_ < w.ro + 64) return; // would change the program itself
	// atomics read first: a misaligned or read-only location may fault either way, but must not change
	uint32_t prog[2] = {wrd, lh::SYSCALL0};
	for (int mode = 0; mode < 3; mode++) {
		Machine& m = *w.m; auto& c = m.cpu; const bool precise = mode == 0; ref::State s; for (int i = 1; i < 32; i++) s.r[i] = r.next(); s.r[13] = base; s.r[14] = idx; s.r[11] = lh::SYS_STOP; s.ll = true;
		std::string d = fmt("%s %08x at %#llx in mode %d", n.c_str(), wrd, (long long)a, mode); at(status->caseno, d);
		std::vector<uint8_t> text(w.model.begin() + (w.ro & ~3ull), w.model.begin() + (w.ro & ~3ull) + 16); u64 pc = (w.ro + 3) & ~3ull;
		memcpy(w.arena + pc, prog, 8); memcpy(w.model.data() + pc, prog, 8); 
		if (!precise) { m.memory.evict_execute_segments(); c.init_execute_area(prog, pc, 8); }
		lh::set_state(m, s); c.registers().pc = pc; lh::stopped = 0; int fault = -1; std::string what;
		try { if (precise) { m.set_max_instructions(10); m.set_instruction_counter(0); c.simulate_precise(); } else if (mode == 1) m.simulate(10, 0); else c.simulate_inaccurate(pc); } catch (const MachineException& ex) { fault = ex.type(); what = ex.what(); } catch (const std::exception& ex) { fault = 1000; what = ex.what(); }
		vstat("guest_accesses"); seen("guest_accesses", n + (fault == -1 ? "+" : "-") + (char)('0' + mode)); const bool sc_fail = false; (void)sc_fail;
		if (fault == 1000 || (fault != -1 && fault != PROTECTION_FAULT)) viol("guest:" + n + ":exception", d + fmt(" raised %d %s", fault, what.c_str()));
		else if (!edge && (fault == -1) != ok) viol("guest:" + n + (ok ? ":refused" : ":allowed"), d + fmt(": %s; readable [%#llx,%#llx) writable from %#llx", fault == -1 ? "was allowed" : "faulted", (long long)w.ro, (long long)w.size, (long long)w.rw));
		// stores may have changed exactly [a, a+wd) within the writable part
		const bool legal_store = store && (MASKED || (a >= w.rw && a < w.size)) && fault == -1; u64 lo = at_, hi = legal_store ? std::min<u64>(at_ + wd, w.model.size()) : at_;
		if (u64 i = first_diff(lo, legal_store ? hi : lo); i != ~0ull) viol("guest:" + n + ":memory", d + fmt(" changed the byte at %#llx", (long long)i));
		if (legal_store) memcpy(w.model.p + lo, w.arena + lo, hi - lo); resync();
	}
}
int main(int argc, char** argv) {
	init(argc, argv); Machine::install_syscall_handler(lh::SYS_STOP, [](Machine& m) { lh::stopped++; m.stop(); });
	{ MachineOptions o; Machine tmp{std::string_view{}, o}; } Machine::install_syscall_handler(lh::SYS_STOP, [](Machine& m) { lh::stopped++; m.stop(); });
	LARGE = kv("large") == "1"; auto sup = lh::supported_names(isa, kv("supported"));
	for (int i = 0; i < ref::ENC_N; i++) { std::string n = ref::enc_table[i].name; if (!sup.count(n) || lh::mem_class(n) == lh::M_NONE) continue; bool am = n.rfind("am", 0) == 0; bool st = n.rfind("st", 0) == 0 || n.rfind("fst", 0) == 0 || n.rfind("vst", 0) == 0 || n.rfind("xvst", 0) == 0 || am || n.rfind("sc.", 0) == 0; mems.push_back({i, st}); }
	run_cases(opt.cases ? opt.cases : 200, [&](u64 k, Rng& r) {
		make(r); for (int i = 0; i < 150; i++) api(r); for (int i = 0; i < 40; i++) guest(r);
		if (r.chance(1, 40)) sample(fmt("arena of %#llx bytes, readable from %#llx, writable from %#llx: 150 API calls, 120 guest accesses", (long long)w.size, (long long)w.ro, (long long)w.rw));
	});
	return finish();
}
