// ELF loader monitor: generated images, damaged images and hostile options are loaded by the real
// loader from an exactly sized buffer; an independent reading of the same bytes judges whether the
// image had to be accepted, what guest memory must then contain, which symbols exist, and whether
// the program runs.
#include "lh.hpp"
#include "elfgen.hpp"
using namespace vh; using namespace loongarch; using namespace elfgen;
static std::vector<std::string> corpus;
static u64 trace[64]; static unsigned ntrace;
static void install() { Machine::install_syscall_handler(lh::SYS_STOP, [](Machine& m) { lh::stopped++; m.stop(); }); Machine::install_syscall_handler(501, [](Machine& m) { if (ntrace < 64) trace[ntrace++] = m.cpu.reg(4); }); }
static uint32_t li_hi(int rd, u64 v) { return 0x14000000u | (((v >> 12) & 0xfffff) << 5) | rd; } // lu12i.w
static uint32_t li_lo(int rd, u64 v) { return 0x03800000u | ((v & 0xfff) << 10) | (rd << 5) | rd; } // ori
struct Gen { Image im; MachineOptions o; std::vector<u64> expect; bool run_ok = true; };
static std::string rnd(Rng& r, u64 n) { std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }
static void put(std::string& s, u64 off, const std::vector<uint32_t>& w) { if (s.size() < off + 4 * w.size()) s.resize(off + 4 * w.size()); memcpy(&s[off], w.data(), 4 * w.size()); }
static Gen generate(Rng& r) {
	Gen g; int n = 1 + r.below(4); u64 a = r.chance(1, 8) ? 0 : 0x1000 * (1 + r.below(64)); bool any_x = false; std::vector<int> xs;
	for (int i = 0; i < n; i++) {
		Seg s; s.vaddr = a + (r.chance(1, 3) ? r.below(0xff0) : 0); bool x = (i == 0) || r.chance(1, 3); bool w = i > 0 && r.chance(1, 2); s.flags = R | (x ? X : 0) | (w ? W : 0);
		u64 sz = r.chance(1, 6) ? r.below(80) : r.below(0x3000); if (x && sz < 128) sz = 128 + r.below(64); s.data = rnd(r, sz); s.memsz = sz + (r.chance(1, 3) ? r.below(0x4000) : 0); if (!s.memsz) s.memsz = 1;
		if (x) { any_x = true; xs.push_back(i); } g.im.segs.push_back(s); a = (s.vaddr + s.memsz + 0xfff) & ~0xfffull; if (r.chance(1, 4)) a += 0x1000 * r.below(20);
	}
	(void)any_x;
	// a chain of code through every executable segment
	std::vector<u64> at(xs.size()); for (size_t k = 0; k < xs.size(); k++) { auto& s = g.im.segs[xs[k]]; u64 lo = (s.vaddr + 3) & ~3ull, room = (s.vaddr + s.data.size() - 32 - lo) / 4; at[k] = lo + (r.chance(1, 3) ? 0 : r.chance(1, 3) ? room & ~0ull : r.below(room + 1)) * 4; }
	for (size_t k = 0; k < xs.size(); k++) {
		auto& s = g.im.segs[xs[k]]; u64 id = r.below(2000); bool last = k + 1 == xs.size();
		std::vector<uint32_t> c = {lh::addi_d(4, 0, (int)id), lh::addi_d(11, 0, 501), lh::SYSCALL0};
		if (last) { c.push_back(lh::addi_d(11, 0, 500)); c.push_back(lh::SYSCALL0); }
		else { c.push_back(li_hi(12, at[k + 1])); c.push_back(li_lo(12, at[k + 1])); c.push_back(0x4C000000u | (12 << 5)); }
		put(s.data, at[k] - s.vaddr, c); if (s.memsz < s.data.size()) s.memsz = s.data.size(); g.expect.push_back(id);
	}
	g.im.entry = at[0]; auto& s0 = g.im.segs[0]; g.im.sections = r.chance(4, 5);
	{ u64 lo = r.chance(1, 2) ? (s0.vaddr + 3) & ~3ull : at[0] - std::min<u64>(at[0] - ((s0.vaddr + 3) & ~3ull), 4 * r.below(9)); if (r.chance(1, 6) && lo > s0.vaddr) lo -= 1 + r.below(std::min<u64>(3, lo - s0.vaddr)); u64 hi = at[0] + 32; if (r.chance(1, 2)) hi = s0.vaddr + s0.data.size(); hi = std::min<u64>(hi, s0.vaddr + s0.data.size()); g.im.text_addr = lo; g.im.text_size = hi - lo; g.im.iplt_gap = r.chance(1, 2) ? 0 : 4 * r.below(16); g.im.iplt = lo >= s0.vaddr + 16 + g.im.iplt_gap && r.chance(1, 2); }
	int ns = r.below(6); for (int i = 0; i < ns; i++) { std::string nm = r.chance(1, 20) ? std::string(200 + r.below(6000), 'n') : fmt("sym_%d_%llu", (int)r.below(4), (long long)r.below(3)); g.im.syms.push_back({nm, r.chance(1, 10) ? r.interesting() : s0.vaddr + r.below(s0.data.size()), r.chance(1, 3) ? r.interesting() : r.below(100), (uint8_t)r.below(5)}); }
	if (r.chance(1, 4)) std::swap(g.im.segs[0], g.im.segs[r.below(g.im.segs.size())]);
	if (r.chance(1, 6)) { Seg s; s.vaddr = r.interesting(); s.flags = r.below(8); s.data = rnd(r, 16); s.memsz = r.interesting(); s.type = 2 + r.below(8); g.im.segs.insert(g.im.segs.begin() + r.below(g.im.segs.size() + 1), s); } // not loadable: must not matter
	if (r.chance(1, 20)) { for (u64 n = r.range(252, 260); g.im.segs.size() < n;) { Seg s; s.vaddr = r.next(); s.flags = 4; s.type = 4; s.memsz = 1; g.im.segs.push_back(s); } vstat("many_headers"); } // around the most headers a program may have
	u64 top = a; auto& o = g.o; o.brk_size = r.chance(1, 8) ? r.interesting() : 0x1000 * r.below(20) + (r.chance(1, 3) ? r.below(4096) : 0); o.stack_size = r.chance(1, 8) ? r.interesting() : 0x1000 * r.below(20) + (r.chance(1, 3) ? r.below(4096) : 0);
	u64 need = top + o.brk_size + o.stack_size; if (need > 1 << 22 || need < top) need = top + 0x20000;
	switch (r.below(6)) { case 0: o.memory_max = need + r.range(-0x3000, 0x3000); break; case 1: o.memory_max = top + r.range(-0x2000, 0x2000); break; case 2: o.memory_max = need & ~4095ull; break; default: o.memory_max = need + 0x10000 + r.below(0x40000); }
	o.use_shared_execute_segments = r.chance(1, 3); o.verbose_loader = r.chance(1, 12); return g;
}
// ---- damage: the fields a loader trusts, set to hostile values ----
static u64 hostile(Rng& r, u64 old, u64 fsz) { switch (r.below(8)) { case 0: return r.interesting(); case 1: return -(u64)r.below(5000); case 2: return old + r.range(-40, 40); case 3: return fsz + r.range(-70, 70); case 4: return ~0ull - fsz + r.range(-70, 70); case 5: return -old + r.range(-8, 8); case 6: return r.below(fsz + 100); default: return old ^ (1ull << r.below(64)); } }
static std::string damage(Rng& r, std::string& b) {
	std::string what; if (b.size() < 64) return "short"; int k = 1 + r.below(3);
	while (k--) {
		Ehdr e; memcpy(&e, &b[0], 64); auto field = [&](u64 off, int n, const char* nm) { if (off + n > b.size()) return; u64 v = 0; memcpy(&v, &b[off], n); v = hostile(r, v, b.size()); memcpy(&b[off], &v, n); what += fmt(" %s=%#llx", nm, (long long)v); };
		switch (r.below(9)) {
		case 0: { static const struct { int o, n; const char* s; } f[] = {{0, 1, "magic"}, {18, 2, "machine"}, {24, 8, "entry"}, {32, 8, "phoff"}, {40, 8, "shoff"}, {54, 2, "phentsize"}, {56, 2, "phnum"}, {60, 2, "shnum"}, {62, 2, "shstrndx"}}; auto& x = f[r.below(9)]; field(x.o, x.n, x.s); break; }
		case 1: case 2: case 3: { static const char* nm[] = {"p_offset", "p_vaddr", "p_paddr", "p_filesz", "p_memsz"}; int i = r.below(5); u64 ph = e.phoff + 56 * r.below(e.phnum ? e.phnum : 1); if (ph < b.size()) field(ph + 8 + 8 * i, 8, nm[i]); break; }
		case 4: { u64 ph = e.phoff + 56 * r.below(e.phnum ? e.phnum : 1); if (ph + 8 <= b.size() && ph < b.size()) { bool t = r.chance(1, 2); uint32_t v = t ? r.below(9) : r.below(8); memcpy(&b[ph + (t ? 0 : 4)], &v, 4); what += t ? " p_type" : " p_flags"; } break; }
		case 5: case 6: { static const struct { int o, n; const char* s; } f[] = {{0, 4, "sh_name"}, {4, 4, "sh_type"}, {16, 8, "sh_addr"}, {24, 8, "sh_offset"}, {32, 8, "sh_size"}, {40, 4, "sh_link"}}; auto& x = f[r.below(6)]; u64 sh = e.shoff + 64 * r.below(e.shnum ? e.shnum : 1); if (sh < b.size()) field(sh + x.o, x.n, x.s); break; }
		case 7: { u64 n = r.chance(1, 2) ? b.size() - r.below(std::min<u64>(b.size(), 200)) : r.below(b.size()); b.resize(n); what += fmt(" truncated to %llu", (long long)n); if (n < 64) return what; break; }
		default: { int m = 1 + r.below(6); while (m--) { u64 o = r.chance(1, 2) ? b.size() - 1 - r.below(std::min<u64>(b.size(), 900)) : r.below(b.size()); b[o] = (char)r.next(); } what += " bytes"; } }
	}
	return what;
}
// ---- independent reading ----
enum Verdict { REJECT, ACCEPT };
struct Expect { Verdict v = REJECT; std::string why; std::vector<Phdr> load; Ehdr e; u64 lo = ~0ull, hi = 0, rw = ~0ull, heap = 0, stack_lo = 0; std::vector<elfgen::Symbol> syms; };
static u64 pg(u64 x) { return (x + 4095) & ~4095ull; }
static Expect judge(const std::string& b, const MachineOptions& o, u64 arena) {
	Expect x; auto rej = [&](const char* w) { x.why = w; return x; };
	if (b.size() < 64) return rej("short"); memcpy(&x.e, b.data(), 64); const auto& e = x.e; typedef unsigned __int128 U;
	if (memcmp(e.ident, "\177ELF", 4) || e.machine != 258) return rej("magic"); if (e.phnum == 0 || e.phnum > 256 || e.phentsize != 56) return rej("phnum"); if ((U)e.phoff + 56 * e.phnum > b.size()) return rej("phoff");
	for (int i = 0; i < e.phnum; i++) { Phdr p; memcpy(&p, b.data() + e.phoff + 56 * i, 56); if (p.type != 1) continue; if ((U)p.vaddr + p.memsz > o.memory_max || p.filesz > p.memsz) return rej("segment range"); x.lo = std::min(x.lo, p.vaddr); x.hi = std::max(x.hi, p.vaddr + p.memsz); if ((p.flags & W) && p.vaddr < x.rw) x.rw = p.vaddr; x.load.push_back(p); }
	if (x.load.empty() || x.lo >= x.hi) return rej("no segments"); x.heap = pg(x.hi); if (x.rw == ~0ull) x.rw = x.heap;
	U bs = ((U)o.brk_size + 4095) / 4096 * 4096, ss = ((U)o.stack_size + 4095) / 4096 * 4096; if (x.heap >= o.memory_max || (U)x.heap + bs + ss > o.memory_max) return rej("no room for brk and stack"); x.stack_lo = x.heap + (u64)bs;
	if (x.rw > arena) return rej("arena");
	for (auto& p : x.load) if (p.filesz) { if ((U)p.vaddr + p.filesz > arena) return rej("arena"); if ((U)p.offset + p.filesz > b.size()) return rej("file range"); }
	x.v = ACCEPT;
	if (e.shoff && e.shnum && (U)e.shoff + 64ull * e.shnum <= b.size()) { // symbol tables: the last of each kind, linked string table
		for (uint32_t kind : {2u, 11u}) { Shdr st, str; bool have = false, have_str = false; for (int i = 0; i < e.shnum; i++) { Shdr s; memcpy(&s, b.data() + e.shoff + 64 * i, 64); if (s.type == kind) { st = s; have = true; if (s.link < e.shnum) { memcpy(&str, b.data() + e.shoff + 64ull * s.link, 64); have_str = true; } } }
			if (!have || !have_str || (U)st.offset + st.size > b.size() || (U)str.offset + str.size > b.size()) continue;
			for (u64 i = 0; i < st.size / 24; i++) { Sym s; memcpy(&s, b.data() + st.offset + 24 * i, 24); if (((s.info & 15) != 1 && (s.info & 15) != 2) || s.value == 0 || s.name >= str.size) continue; const char* q = b.data() + str.offset + s.name; std::string nm(q, strnlen(q, str.size - s.name)); if (!nm.empty()) x.syms.push_back({nm, s.value, s.size, 0}); } }
	}
	return x;
}
static void one(Rng& r, u64 k) {
	Gen g = generate(r); std::string img = g.im.build(); std::string what = "intact"; bool intact = true;
	if (!corpus.empty() && r.chance(1, 12)) { img = corpus[r.below(corpus.size())]; g.expect.clear(); g.run_ok = false; g.o.memory_max = 32 << 20; what = "compiled program"; }
	if (r.chance(3, 5)) { what = damage(r, img); intact = false; }
	u64 arena = g.o.memory_max; std::unique_ptr<uint8_t, void (*)(void*)> own(nullptr, free);
	if (r.chance(1, 5) && g.o.memory_max < (1 << 22)) { u64 sz = g.o.memory_max + (r.chance(1, 2) ? 64 : r.below(200)); if (sz >= 64) { own.reset((uint8_t*)calloc(1, sz)); g.o.custom_arena_pointer = own.get(); g.o.custom_arena_size = sz; arena = sz - 64; what += " (custom arena)"; } }
	if (g.o.memory_max > (1ull << 36)) { vstat("skipped"); return; }
	Expect x = judge(img, g.o, arena); at(k, fmt("#%s %s", intact ? "intact" : "damaged", what.c_str()));
	std::unique_ptr<char, void (*)(void*)> exact((char*)malloc(img.size() ? img.size() : 1), free); memcpy(exact.get(), img.data(), img.size());
	if (img.empty()) { vstat("skipped"); return; }
	std::string d = fmt("%s; %zu bytes, memory_max %#zx, brk %#zx, stack %#zx: %s", what.c_str(), img.size(), g.o.memory_max, g.o.brk_size, g.o.stack_size, x.why.c_str()); std::unique_ptr<Machine> m; std::string err; int type = -2;
	try { m = std::make_unique<Machine>(std::string_view(exact.get(), img.size()), g.o); type = -1; } catch (const MachineException& e) { type = e.type(); err = e.what(); } catch (const std::exception& e) { err = e.what(); }
	vstat(intact ? "intact" : "damaged"); vstat(type == -1 ? "accepted" : "rejected"); seen("images", hash(img.data(), img.size())); if (x.v == REJECT) seen("rejections", x.why + err); else seen("layouts", fmt("%zu %d %llx %llx", x.load.size(), (int)own.operator bool(), (long long)x.lo, (long long)x.hi));
	if (type == -2) { viol("host-exception", d + " threw " + err); return; }
	if (type >= 0 && type != INVALID_PROGRAM && type != OUT_OF_MEMORY) viol("exception-type", d + fmt(" raised %d %s", type, err.c_str()));
	if (type == -1 && x.v == REJECT) { viol("accepted:" + x.why, d + " was accepted"); return; }
	if (type != -1) { if (x.v == ACCEPT) viol("refused", d + " was refused: " + err); return; }
	// ---- the loaded image ----
	auto& M = m->memory; std::vector<uint8_t> model(M.arena_size(), 0);
	if (M.arena_size() != arena) { viol("arena-size", d); return; }
	for (auto& p : x.load) if (p.filesz) memcpy(&model[p.vaddr], img.data() + p.offset, p.filesz);
	if (arena <= (64 << 20)) { vstat("images_compared"); if (memcmp(M.arena_ptr(), model.data(), arena)) { u64 i = 0; while (M.arena_ptr()[i] == model[i]) i++; viol("memory", d + fmt(": loaded byte at %#llx is %02x, the file has %02x", (long long)i, M.arena_ptr()[i], model[i])); } }
	if (M.start_address() != x.e.entry) viol("entry", d);
	if (M.rodata_start() != x.lo || M.data_start() != x.rw) viol("bounds", d + fmt(": readable from %#llx (expected %#llx), writable from %#llx (expected %#llx)", (long long)M.rodata_start(), (long long)x.lo, (long long)M.data_start(), (long long)x.rw));
	if (M.heap_address() != x.heap) viol("heap", d + fmt(": heap at %#llx, expected %#llx", (long long)M.heap_address(), (long long)x.heap));
	u64 st = M.stack_address(); if (st < x.stack_lo + g.o.stack_size || st > g.o.memory_max || M.mmap_address() < st || M.mmap_address() > g.o.memory_max) viol("stack", d + fmt(": stack top %#llx, mmap %#llx, brk area ends at %#llx", (long long)st, (long long)M.mmap_address(), (long long)x.stack_lo));
	if (M.elf_phnum() != x.e.phnum || M.elf_phentsize() != 56) viol("phdr", d);
	for (auto& s : x.syms) { vstat("symbols"); u64 first = 0; for (auto& t : x.syms) if (t.name == s.name) { first = t.addr; break; } if (M.address_of(s.name) != first) { viol("symbol", d + ": " + s.name.substr(0, 60)); break; } }
	// ---- and it runs: in bounds always, and to the end when undamaged ----
	for (int mode = 0; mode < 2; mode++) {
		ntrace = 0; lh::stopped = 0; std::string ex; auto& c = m->cpu; if (mode) { c.jump(x.e.entry); }
		try { m->set_options(std::make_shared<MachineOptions>(g.o)); if (mode == 0) m->simulate(2000, 0); else { m->set_max_instructions(2000); m->set_instruction_counter(0); c.simulate_precise(); } } catch (const MachineException& e) { ex = e.what(); } catch (const std::exception& e) { viol("run-host-exception", d + " " + e.what()); }
		vstat("runs");
		if (intact && !g.expect.empty()) { bool same = ntrace == g.expect.size() && lh::stopped == 1; for (unsigned i = 0; same && i < ntrace; i++) same = trace[i] == g.expect[i]; vstat("programs_completed", same); if (!same) viol(fmt("run:%s", mode ? "precise" : "fast"), d + fmt(": program visited %u of %zu executable segments (%s)", ntrace, g.expect.size(), ex.c_str())); }
	}
	if (r.chance(1, 60)) sample(d + " loaded and run");
	if (r.chance(1, 3)) { M.evict_execute_segments(); } m.reset();
	if (own) { volatile uint8_t* q = own.get(); q[0] = 1; q[g.o.custom_arena_size - 1] = 1; vstat("donated_arenas_still_mapped"); }
}
int main(int argc, char** argv) {
	init(argc, argv); { MachineOptions o; Machine tmp{std::string_view{}, o}; } install();
	std::string g = kv("corpus"); size_t p = 0; while (!g.empty() && p != std::string::npos) { size_t c = g.find(',', p); std::ifstream f(g.substr(p, c == std::string::npos ? c : c - p), std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {}); if (!s.empty()) corpus.push_back(s); p = c == std::string::npos ? c : c + 1; }
	run_cases(opt.cases ? opt.cases : 3000, [&](u64 k, Rng& r) { one(r, k); });
	return finish();
}
