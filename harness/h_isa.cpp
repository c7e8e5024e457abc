// Differential monitor for straight-line instruction semantics.
// Every case runs one generated program in the reference model (three times, with different
// junk in architecturally undefined bits) and in libloong through the precise interpreter,
// the accurate dispatcher and the inaccurate dispatcher.  Bits on which the three reference
// runs agree are the defined ones: all of them must match in every mode.
#include "lh.hpp"
using namespace vh; using namespace loongarch;

static ref::ISA isa;
static const u64 DLEN = 0x20000; static u64 TEXT = 0x10000, DATA = 0x40000;
// where text and data lie: low, or so that addresses need more than 31 or 32 bits
static const struct { u64 text, data, size; } layouts[] = {{0x10000, 0x40000, 0x100000}, {0x10000, 0xffff0000, 0x140000000}, {0xffffffc0, 0x1ffff0000, 0x240000000}, {0x7fffff80, 0x1fff0000, 0x240000000}, {0x180000000, 0x7fff0000, 0x240000000}};
static bool is_branch(const std::string& n) { static const std::set<std::string> b = {"b","bl","jirl","beq","bne","blt","bge","bltu","bgeu","beqz","bnez","bceqz","bcnez"}; return b.count(n); }

static std::vector<int> pool;     // enc indices under test
static std::map<int, u64> hits;
static Rng* g_rng;

struct Prog { std::vector<uint32_t> w; std::vector<int> idx; ref::State init; u64 fill; };

static uint32_t gen_word(Rng& r, int i) {
	const auto& e = ref::enc_table[i]; std::string n = e.name;
	for (;;) {
		uint32_t w = e.match | ((uint32_t)r.next() & ~e.mask);
		auto setf = [&](int lo, uint32_t v) { uint32_t m = (31u << lo) & ~e.mask; w = (w & ~m) | ((v << lo) & m); };
		if (r.chance(1, 6)) setf(10, r.below(2) ? (w & 31) : (w >> 5)); // aliasing
		const bool vec = n[0] == 'v' || n[0] == 'x' || n[0] == 'f';
		auto cls = lh::mem_class(n);
		if (cls == lh::M_ATOMIC) { setf(5, 29); if (n.size() > 2 && (n.rfind("ll.", 0) == 0 || n.rfind("sc.", 0) == 0)) { w &= ~(0x3fffu << 10); w |= (uint32_t)(r.below(64) * 2) << 10; } }
		else if (cls == lh::M_IMM) { setf(5, 25 + r.below(2)); if ((n.find("ptr.") != std::string::npos)) { w &= ~(0x3fffu << 10); w |= ((uint32_t)r.range(-2000, 2000) & 0x3fff) << 10; } }
		else if (cls == lh::M_IDX) { setf(5, 25 + r.below(2)); setf(10, 27 + r.below(2)); }
		else if (cls == lh::M_NONE && r.chance(3, 4)) { // small register window gives dense data flow
			if (((e.mask >> 5) & 31) == 0 && !(n == "lu12i.w" || n == "pcaddi")) setf(5, vec ? r.below(8) : 4 + r.below(10));
		}
		const bool store = cls != lh::M_NONE && (n.rfind("st", 0) == 0 || n.rfind("fst", 0) == 0 || n.rfind("vst", 0) == 0 || n.rfind("xvst", 0) == 0);
		if (!vec || n.rfind("vpickve2gr", 0) == 0 || n.rfind("xvpickve2gr", 0) == 0 || n.rfind("movfr", 0) == 0) { uint32_t rd = w & 31; if (!store && rd >= 25 && rd <= 29) setf(0, 4 + r.below(16)); }
		if (n.rfind("am", 0) == 0) { // rd must differ from rj and rk
			uint32_t rd = w & 31; if (rd && (rd == ((w >> 5) & 31) || rd == ((w >> 10) & 31))) continue; }
		if (isa.decode(w) == i) return w;
		// a more specific encoding took this word (alias bits): try again
	}
}

static void init_state(Rng& r, ref::State& s) {
	s = ref::State();
	for (int i = 1; i < 32; i++) s.r[i] = r.interesting();
	s.r[25] = DATA + DLEN / 2 + r.range(-500, 500); s.r[26] = DATA + DLEN / 2 + 8 * r.range(-100, 100);
	s.r[27] = r.range(-700, 700); s.r[28] = 8 * r.range(-100, 100); s.r[29] = DATA + DLEN / 2 + 32 * r.range(-50, 50);
	for (int i = 0; i < 32; i++) lh::rand_vec(r, s.v[i]);
	for (int i = 0; i < 8; i++) s.fcc[i] = r.below(2);
}
struct Mirror : ref::Mem { std::vector<uint8_t> d = std::vector<uint8_t>(DLEN);
	bool load(u64 a, void* p, unsigned n) override { if (a < DATA || a >= DATA + DLEN || a + n > DATA + DLEN) return false; memcpy(p, &d[a - DATA], n); return true; }
	bool store(u64 a, const void* p, unsigned n) override { if (a < DATA || a >= DATA + DLEN || a + n > DATA + DLEN) return false; memcpy(&d[a - DATA], p, n); lo = std::min(lo, a); hi = std::max(hi, a + n); return true; }
	u64 lo = ~0ull, hi = 0; };
static void fill_data(std::vector<uint8_t>& d, u64 fill) { Rng r(fill); for (size_t i = 0; i < d.size(); i += 8) { u64 v = r.next(); memcpy(&d[i], &v, 8); } }

struct RefRun { ref::State s; Mirror m; Rng junk{1}; int kind = 0;
	u64 j() { return kind == 0 ? 0 : kind == 1 ? junk.next() : ~junk.next(); }
	bool step(uint32_t w) {
		ref::Wr wr; if (isa.step(s, m, w, &wr) != ref::OK) return false;
		lh::inject_junk(s, wr, [this] { return j(); });
		return true; } };
static RefRun runs[3];

static void ref_reset(const Prog& p) { for (int k = 0; k < 3; k++) { runs[k].s = p.init; runs[k].s.pc = TEXT; runs[k].junk = Rng(p.fill); runs[k].kind = k; runs[k].m.lo = ~0ull; runs[k].m.hi = 0; fill_data(runs[k].m.d, p.fill); } }
// An instruction that consumes architecturally unspecified bits (the three runs differ in one of
// its operands) has no defined result, so programs containing one are not judged.
static bool reads_unspecified(uint32_t w, const std::string& n) {
	auto g = [&](uint32_t i) { return runs[0].s.r[i] != runs[1].s.r[i] || runs[0].s.r[i] != runs[2].s.r[i]; };
	auto v = [&](uint32_t i, int bits) { return memcmp(&runs[0].s.v[i], &runs[1].s.v[i], bits / 8) || memcmp(&runs[0].s.v[i], &runs[2].s.v[i], bits / 8); };
	auto c = [&](uint32_t i) { return runs[0].s.fcc[i] != runs[1].s.fcc[i] || runs[0].s.fcc[i] != runs[2].s.fcc[i]; };
	for (int f = 0; f < 15; f += 5) if (g((w >> f) & 31)) return true;
	const std::string grp = lh::group_of(n);
	if (grp == "int") return false;
	const bool vec = grp == "vec", store = n.find("st") != std::string::npos && (n.rfind("fst", 0) == 0 || n.rfind("vst", 0) == 0 || n.rfind("xvst", 0) == 0);
	const bool load = n.rfind("fld", 0) == 0 || n.rfind("vld", 0) == 0 || n.rfind("xvld", 0) == 0;
	if (load) return false;
	if (n == "fsel" && c((w >> 15) & 7)) return true;
	if (n.rfind("movcf", 0) == 0 && c((w >> 5) & 7)) return true;
	const int bits = vec ? (n[0] == 'x' ? 256 : 128) : (n.find(".d") != std::string::npos || n.find(".l") != std::string::npos || n == "fsel" || n == "movfrh2gr.s" || n == "movgr2frh.w" ? 64 : 32);
	if (n.rfind("movgr2", 0) == 0) return n == "movgr2frh.w" && v(w & 31, 32);
	if (store || vec) if (v(w & 31, bits)) return true;
	if (store) return false;
	for (int f = 5; f < 20; f += 5) if ((f < 15 || n.find("madd") != std::string::npos || n.find("msub") != std::string::npos || vec) && v((w >> f) & 31, bits)) return true;
	return false;
}
static bool all_step(const Prog& p, uint32_t w, int idx) { if (reads_unspecified(w, ref::enc_table[idx].name)) return false; for (auto& q : runs) if (!q.step(w)) return false; return true; }
static bool ref_run(const Prog& p) { ref_reset(p); for (size_t i = 0; i < p.w.size(); i++) if (!all_step(p, p.w[i], p.idx[i])) return false; return true; }

static std::unique_ptr<Machine> mach; static MachineOptions mopts;
static std::string compare(Machine& m, bool pc_check, u64 pc) {
	auto& R = m.cpu.registers();
	for (int i = 0; i < 32; i++) { u64 mask = ~((runs[0].s.r[i] ^ runs[1].s.r[i]) | (runs[0].s.r[i] ^ runs[2].s.r[i])); u64 a = R.get(i);
		if (i == 11 && !pc_check) continue;
		if ((a ^ runs[0].s.r[i]) & mask) return fmt("r%d=%#llx expected %#llx", i, (long long)a, (long long)runs[0].s.r[i]); }
	for (int i = 0; i < 32; i++) for (int q = 0; q < 4; q++) { u64 x = runs[0].s.v[i].du[q]; u64 mask = ~((x ^ runs[1].s.v[i].du[q]) | (x ^ runs[2].s.v[i].du[q])); u64 a = R.getvr(i).du[q];
		if ((a ^ x) & mask) return fmt("v%d[%d]=%#llx expected %#llx (defined bits %#llx)", i, q, (long long)a, (long long)x, (long long)mask); }
	for (int i = 0; i < 8; i++) { if (runs[0].s.fcc[i] == runs[1].s.fcc[i] && runs[0].s.fcc[i] == runs[2].s.fcc[i] && R.cf(i) != runs[0].s.fcc[i]) return fmt("fcc%d=%d expected %d", i, R.cf(i), runs[0].s.fcc[i]); }
	const uint8_t* d = (const uint8_t*)m.memory.arena_ptr() + DATA;
	if (memcmp(d, runs[0].m.d.data(), DLEN)) for (u64 i = 0; i < DLEN; i++) { uint8_t x = runs[0].m.d[i], mask = ~((x ^ runs[1].m.d[i]) | (x ^ runs[2].m.d[i])); if ((d[i] ^ x) & mask) return fmt("mem[%#llx]=%02x expected %02x", (long long)(DATA + i), d[i], x); }
	if (pc_check && R.pc != pc) return fmt("pc=%#llx expected %#llx", (long long)R.pc, (long long)pc);
	return "";
}
static bool dirty = true; static u64 cur_fill;
static void load(Machine& m, const Prog& p) {
	lh::set_state(m, p.init);
	uint8_t* d = (uint8_t*)m.memory.arena_ptr() + DATA; // restore guest data
	static std::vector<uint8_t> base(DLEN); static u64 have = ~0ull; if (have != p.fill) { fill_data(base, p.fill); have = p.fill; }
	memcpy(d, base.data(), DLEN);
}
// mode 0 precise stepping, 1 accurate dispatcher, 2 inaccurate dispatcher
static std::string run_mode(const Prog& p, int mode) {
	Machine& m = *mach; load(m, p);
	try {
		if (mode == 0) {
			m.cpu.init_slowpath_execute_area(p.w.data(), TEXT, p.w.size() * 4);
			lh::set_state(m, p.init); m.cpu.registers().pc = TEXT;
			for (size_t i = 0; i < p.w.size(); i++) m.cpu.step_one(true);
			return compare(m, true, TEXT + 4 * p.w.size());
		}
		std::vector<uint32_t> code = p.w; code.push_back(lh::addi_d(11, 0, lh::SYS_STOP)); code.push_back(lh::SYSCALL0);
		m.memory.evict_execute_segments();
		auto& seg = m.cpu.init_execute_area(code.data(), TEXT, code.size() * 4); (void)seg;
		lh::set_state(m, p.init); m.cpu.registers().pc = TEXT;
		lh::stopped = 0;
		if (mode == 1) { m.cpu.simulate(TEXT, 0, 100000); }
		else m.cpu.simulate_inaccurate(TEXT);
		if (!lh::stopped) return "program did not reach its final stop";
		return compare(m, false, 0);
	} catch (const MachineException& e) {
		return fmt("exception %s (data %#llx)", e.what(), (long long)e.data());
	} catch (const std::exception& e) { return fmt("std exception %s", e.what()); }
}
static const char* mode_name[] = {"precise", "accurate", "inaccurate"};
static std::string describe(const Prog& p) { std::string s; for (size_t i = 0; i < p.w.size(); i++) s += fmt("%08x(%s) ", p.w[i], ref::enc_table[p.idx[i]].name); return s; }

static void mismatch(Prog p, int mode, const std::string& first) {
	static std::map<std::string, int> quick; std::string msg = first;
	bool changed = p.w.size() > 1;
	while (changed) { changed = false;
		for (size_t i = 0; i < p.w.size() && p.w.size() > 1; i++) { Prog q = p; q.w.erase(q.w.begin() + i); q.idx.erase(q.idx.begin() + i);
			if (!ref_run(q)) continue; std::string e = run_mode(q, mode); if (!e.empty()) { p = q; msg = e; changed = true; break; } } }
	std::string key = std::string(mode_name[mode]) + ":"; for (size_t i = 0; i < p.w.size() && i < 4; i++) key += std::string(i ? "+" : "") + ref::enc_table[p.idx[i]].name;
	std::string det = describe(p) + "-> " + msg;
	if (p.w.size() == 1) { uint32_t w = p.w[0]; auto V = [&](int i) { auto& v = p.init.v[i]; return fmt("v%d=%016llx_%016llx_%016llx_%016llx", i, (long long)v.du[3], (long long)v.du[2], (long long)v.du[1], (long long)v.du[0]); };
		char c0 = ref::enc_table[p.idx[0]].name[0];
		if (c0 == 'v' || c0 == 'x' || c0 == 'f') det += " inputs " + V((w >> 5) & 31) + " " + V((w >> 10) & 31) + " " + V((w >> 15) & 31) + " old " + V(w & 31);
		det += fmt(" rj=%#llx rk=%#llx rd=%#llx", (long long)p.init.r[(w >> 5) & 31], (long long)p.init.r[(w >> 10) & 31], (long long)p.init.r[w & 31]); }
	viol(key, det);
}

int main(int argc, char** argv) {
	init(argc, argv);
	std::string group = kv("group", "int");
	std::set<std::string> supported = lh::supported_names(isa, kv("supported"));
	if (kv("list") == "1") { for (auto& n : lh::implemented_names(isa)) printf("%s\n", n.c_str()); return 0; }
	auto& L = layouts[strtoull(kv("layout", "0").c_str(), 0, 0)]; TEXT = L.text; DATA = L.data; const bool only_mem = kv("pool") == "mem";
	mach = lh::make_machine(mopts, L.size, 0x1000, std::min<u64>(0x20000, TEXT));
	for (int i = 0; i < ref::ENC_N; i++) { std::string n = ref::enc_table[i].name; if (!isa.fns[i] || is_branch(n) || n == "syscall" || n == "break" || !supported.count(n)) continue;
		if (only_mem ? lh::mem_class(n) != lh::M_NONE || n.rfind("pc", 0) == 0 : lh::group_of(n) == group) pool.push_back(i); }
	// directed one-instruction cases per mnemonic, then random sequences
	const u64 per = strtoull(kv("per", "40").c_str(), 0, 0), nseq = strtoull(kv("seqs", "4000").c_str(), 0, 0);
	const u64 total = pool.size() * per + nseq;
	std::map<std::string, u64> undef;
	run_cases(total, [&](u64 k, Rng& r) {
		Prog p; p.fill = r.below(64); init_state(r, p.init); g_rng = &r;
		size_t len = k < pool.size() * per ? 1 : 2 + r.below(30);
		if (len == 1) { int i = pool[k / per]; uint32_t w = gen_word(r, i);
			if (status) snprintf(status->text, 4000, "insn %08x (%s)", w, ref::enc_table[i].name);
			p.w = {w}; p.idx = {i}; if (!ref_run(p)) { vstat("undefined_skipped"); undef[ref::enc_table[i].name]++; return; } }
		else { ref_reset(p); int guard = 0;
			while (p.w.size() < len && guard++ < 300) { int i = pool[r.below(pool.size())]; uint32_t w = gen_word(r, i);
				ref::State sv[3]; for (int q = 0; q < 3; q++) sv[q] = runs[q].s;
				if (!all_step(p, w, i)) { for (int q = 0; q < 3; q++) runs[q].s = sv[q]; continue; }
				p.w.push_back(w); p.idx.push_back(i); }
			if (!ref_run(p)) return;
			std::string t = "seq "; for (auto w : p.w) t += fmt("%08x ", w); at(k, t); }
		for (int i : p.idx) hits[i]++;
		seen("programs", hash(p.w.data(), p.w.size() * 4));
		for (int mode = 0; mode < 3; mode++) {
			if (mode && len == 1 && (k % 4) && per > 8 && !opt.thorough && mode == 2) continue;
			std::string e = run_mode(p, mode); vstat(std::string("compared.") + mode_name[mode]);
			if (!e.empty()) { mismatch(p, mode, e); ref_run(p); } }
		if (r.chance(1, 3000)) sample(describe(p));
	});
	u64 mn = 0; std::string unhit; for (int i : pool) { if (hits[i]) mn++; else unhit += std::string(ref::enc_table[i].name) + " "; }
	vstat("mnemonics_exercised", mn); vstat("mnemonics_in_pool", pool.size());
	if (!unhit.empty()) printf("NOTE not exercised: %s\n", unhit.c_str());
	return finish();
}
