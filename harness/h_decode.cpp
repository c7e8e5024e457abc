// Monitors for instruction decoding.
//  --mode agree : the name libloong gives a word (through its disassembler) is the one the ISA
//                 tables give it, and unassigned words have no handler or fault when executed.
//  --mode reject: words without an ISA meaning raise an illegal-opcode fault in every
//                 interpreter, at exactly that instruction, and change no register.
//  --mode dump  : prints word/pc/text triples for the assembler round trip.
#include "lh.hpp"
using namespace vh; using namespace loongarch;
static ref::ISA isa;
static std::unique_ptr<Machine> m; static MachineOptions mo;
static const u64 TEXT = 0x10000;
static std::map<std::string, std::set<std::string>> aliases = { {"addi.d", {"li.d"}}, {"addi.w", {"li.w"}}, {"ori", {"li.w", "move"}}, {"or", {"move"}}, {"andi", {"nop"}},
	{"bge", {"bgez", "blez"}}, {"blt", {"bltz", "bgtz"}}, {"jirl", {"jr", "ret"}} };
static std::string text_of(uint32_t w, u64 pc) { la_instruction f; f.whole = w; m->cpu.registers().pc = pc; return m->cpu.to_string(f); }
static void reject(uint32_t w, u64 k, Rng& r) {
	if (status) snprintf(status->text, 4000, "reject %08x", w); (void)k;
	ref::State st; for (int i = 1; i < 32; i++) st.r[i] = r.chance(1, 2) ? 0x40000 + r.below(0x1000) : r.interesting(); for (int i = 0; i < 32; i++) lh::rand_vec(r, st.v[i]);
	const uint32_t pre = lh::addi_d(4, 4, 1);
	static const char* mn[] = {"precise", "accurate", "inaccurate"};
	for (int mode = 0; mode < 3; mode++) {
		uint32_t code[] = {pre, w, pre, lh::addi_d(11, 0, lh::SYS_STOP), lh::SYSCALL0};
		int type = -1; u64 before[32]; std::string what;
		m->memory.evict_execute_segments(); lh::stopped = 0;
		try {
			if (mode == 0) { m->cpu.init_slowpath_execute_area(code, TEXT, sizeof code); lh::set_state(*m, st); m->cpu.registers().pc = TEXT; m->cpu.step_one(true); for (int i = 0; i < 32; i++) before[i] = m->cpu.reg(i); m->cpu.step_one(true); }
			else { m->cpu.init_execute_area(code, TEXT, sizeof code); lh::set_state(*m, st); for (int i = 0; i < 32; i++) before[i] = m->cpu.reg(i); before[4]++; if (mode == 1) m->cpu.simulate(TEXT, 0, 1000); else m->cpu.simulate_inaccurate(TEXT); }
		} catch (const MachineException& e) { type = e.type(); what = e.what(); }
		catch (const std::exception& e) { type = 1000; what = e.what(); }
		vstat(std::string("rejections.") + mn[mode]);
		if (type == -1) { viol(std::string("executes-unassigned:") + mn[mode], fmt("%08x executed without a fault", w)); continue; }
		if (type != ILLEGAL_OPCODE && type != ILLEGAL_OPERATION && type != UNIMPLEMENTED_INSTRUCTION) viol(std::string("wrong-fault:") + mn[mode], fmt("%08x raised %d (%s)", w, type, what.c_str()));
		if (mode == 0) for (int i = 0; i < 32; i++) if (m->cpu.reg(i) != before[i]) { viol(std::string("fault-changed-state:") + mn[mode], fmt("%08x changed r%d", w, i)); break; }
	}
	seen("rejected_words", w);
}
static void agree(uint32_t w, u64 k) {
	if (status) snprintf(status->text, 4000, "decode %08x", w);
	const int i = isa.decode(w); const bool im = lh::implemented(w);
	std::string bn = i < 0 ? "unassigned" : ref::enc_table[i].name, s = text_of(w, 0x40000), first = s.substr(0, s.find(' '));
	vstat("words");
	if (s.empty()) viol("empty-text:" + bn, fmt("%08x prints nothing", w));
	if (!im) {
		vstat("words_rejected");
		if (first != "UNIMPL" && first != "ILLEGAL") viol("rejected-but-named:" + bn, fmt("%08x prints %s", w, s.c_str()));
		return; }
	vstat("words_accepted"); seen("mnemonics", first);
	if (i < 0) { static u64 n = 0; if (n++ < 2000) { Rng r(w); vstat("accepted_unassigned_executed"); reject(w, k, r); } return; } // accepted by the decoder: must fault when executed
	if (first == bn) return;
	auto a = aliases.find(bn); if (a != aliases.end() && a->second.count(first)) return;
	viol("wrong-name:" + bn, fmt("%08x is %s but decodes as '%s'", w, bn.c_str(), s.c_str()));
}
int main(int argc, char** argv) {
	init(argc, argv); m = lh::make_machine(mo, 0x100000, 0x1000, 0x20000);
	const std::set<std::string> sup = lh::supported_names(isa, kv("supported"));
	const std::string mode = kv("mode", "agree"); const u64 shard = strtoull(kv("shard", "0").c_str(), 0, 0), shards = strtoull(kv("shards", "1").c_str(), 0, 0), rep = strtoull(kv("rep", "8").c_str(), 0, 0);
	if (mode == "agree") { // every top-17-bit prefix with `rep` fillings, then one-bit neighbours of real encodings
		run_cases(131072 / shards, [&](u64 k, Rng& r) { uint32_t hi = k * shards + shard; for (u64 q = 0; q < rep; q++) agree(hi << 15 | (uint32_t)(r.next() & 0x7fff), k); });
		Rng r(opt.seed); for (int i = 0; i < ref::ENC_N && opt.only < 0; i++) for (u64 q = 0; q < rep * 8; q++) { uint32_t w = ref::enc_table[i].match | ((uint32_t)r.next() & ~ref::enc_table[i].mask); agree(w, 1000000 + i); agree(w ^ 1u << r.below(32), 1000000 + i); seen("neighbours", w); }
	} else if (mode == "reject") {
		run_cases(opt.cases ? opt.cases : 20000, [&](u64 k, Rng& r) {
			uint32_t w; int guard = 0;
			for (;;) { if (r.chance(1, 2)) w = (uint32_t)r.next(); else { auto& e = ref::enc_table[r.below(ref::ENC_N)]; w = (e.match | ((uint32_t)r.next() & ~e.mask)) ^ (1u << r.below(32)); }
				int i = isa.decode(w); if (i < 0 || !sup.count(ref::enc_table[i].name) || guard++ > 500) break; }
			if (guard <= 500) reject(w, k, r);
			if (k < 3) sample(fmt("%08x rejected by all interpreters", w)); });
	} else {
		Rng r(opt.seed); for (int i = 0; i < ref::ENC_N; i++) { if (!sup.count(ref::enc_table[i].name)) continue; for (u64 q = 0; q < rep; q++) { uint32_t w = ref::enc_table[i].match | ((uint32_t)r.next() & ~ref::enc_table[i].mask); if (isa.decode(w) != i) continue;
			std::string n = ref::enc_table[i].name;
			if (!lh::implemented(w)) continue;
			if (n.rfind("bstr", 0) == 0 && ((w >> 16) & (n.back() == 'w' ? 31 : 63)) < ((w >> 10) & (n.back() == 'w' ? 31 : 63))) continue; // reserved
			if (n.rfind("am", 0) == 0 && (w & 31) && ((w & 31) == ((w >> 5) & 31) || (w & 31) == ((w >> 10) & 31))) continue;
			u64 pc = 0x40000 + 4 * r.below(1000); printf("DIS %08x %llx %s\n", w, (long long)pc, text_of(w, pc).c_str()); } } }
	return finish();
}
