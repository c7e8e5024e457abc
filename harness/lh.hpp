// Shared libloong-facing helpers for the harnesses.
#pragma once
#include <libloong/machine.hpp>
#include "vh.hpp"
#include "la_ref.hpp"
#include <fstream>
#include <memory>

namespace lh {
using namespace loongarch; using vh::u64; using vh::Rng;
static const unsigned SYS_STOP = 500;
static const uint32_t SYSCALL0 = 0x002B0000;
inline int stopped = 0;
inline uint32_t addi_d(int rd, int rj, int imm) { return 0x02C00000u | ((imm & 0xfff) << 10) | (rj << 5) | rd; }

enum MemClass { M_NONE, M_IMM, M_IDX, M_ATOMIC };
inline MemClass mem_class(const std::string& n) {
	static const std::map<std::string, MemClass> m = [] { std::map<std::string, MemClass> r;
		for (auto x : {"ld.b","ld.h","ld.w","ld.d","ld.bu","ld.hu","ld.wu","st.b","st.h","st.w","st.d","ldptr.w","ldptr.d","stptr.w","stptr.d","fld.s","fld.d","fst.s","fst.d","vld","vst","xvld","xvst"}) r[x] = M_IMM;
		for (auto x : {"ldx.b","ldx.h","ldx.w","ldx.d","ldx.bu","ldx.hu","ldx.wu","stx.b","stx.h","stx.w","stx.d","fldx.s","fldx.d","fstx.s","fstx.d","vldx","vstx","xvldx","xvstx"}) r[x] = M_IDX;
		return r; }();
	if (n.rfind("am", 0) == 0 || n.rfind("ll.", 0) == 0 || n.rfind("sc.", 0) == 0) return M_ATOMIC;
	auto it = m.find(n); return it == m.end() ? M_NONE : it->second;
}
inline std::string group_of(const std::string& n) {
	if (n[0] == 'v' || n[0] == 'x') { if (n == "xor" || n == "xori") return "int"; return "vec"; }
	if (n[0] == 'f' || n.rfind("movfr", 0) == 0 || n.rfind("movgr2f", 0) == 0 || n.rfind("movgr2cf", 0) == 0 || n.rfind("movcf", 0) == 0 || n.rfind("movfcsr", 0) == 0) return "fp";
	return "int";
}
inline void rand_vec(Rng& r, ref::V& v) {
	static const uint32_t f32[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x4f000000, 0xcf000000, 0x4effffff, 0x5f000000, 0xdf000000, 0x40490fdb, 0x3f000000, 0x3effffff, 0x4b000001, 0x7f800001, 0x33800000};
	static const u64 f64[] = {0, 1ull << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 1, 0x800fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x41e0000000000000, 0xc1e0000000000000, 0xc1e0000000200000, 0x41dfffffffc00000, 0x43e0000000000000, 0xc3e0000000000000, 0x47f0000000000000, 0x36a0000000000000, 0x3fe0000000000000, 0x3690000000000000, 0x7ff0000000000001, 0x4330000000000001, 0x47efffffe0000000, 0x47effffff0000000};
	switch (r.below(6)) {
	case 0: for (auto& q : v.du) q = r.next(); break;
	case 1: for (auto& q : v.wu) q = f32[r.below(sizeof f32 / 4)]; break;
	case 2: for (auto& q : v.du) q = f64[r.below(sizeof f64 / 8)]; break;
	case 3: for (auto& q : v.df) { q = std::ldexp((double)(int64_t)r.next(), (int)r.range(-100, 20)); } break;
	case 4: for (auto& q : v.f) { q = std::ldexp((float)(int32_t)r.next(), (int)r.range(-40, 20)); } break;
	default: { int sz = 1 << r.below(4); u64 e[2] = {r.interesting(), r.interesting()}; for (int i = 0; i < 32; i += sz) memcpy(&v.bu[i], &e[r.below(4) == 0], sz); if (r.below(3) == 0) for (int i = 0; i < 4; i++) v.bu[r.below(32)] = (uint8_t)r.next(); } break;
	}
}
template <class J> inline void inject_junk(ref::State& s, const ref::Wr& wr, J j) {
	if (wr.gpr_unknown && wr.gpr > 0) s.r[wr.gpr] = j();
	if (wr.vr >= 0) {
		auto& v = s.v[wr.vr];
		if (wr.lane == 32) for (int i = 0; i < wr.vbits / 32; i++) if (std::isnan(v.f[i])) v.wu[i] = 0x7fc00000u | ((uint32_t)j() & 0x803fffffu);
		if (wr.lane == 64) for (int i = 0; i < wr.vbits / 64; i++) if (std::isnan(v.df[i])) v.du[i] = 0x7ff8000000000000ull | (j() & 0x8007ffffffffffffull);
		for (int b = wr.vbits / 8; b < 32; b++) v.bu[b] = (uint8_t)j();
	}
}
inline void set_state(Machine& m, const ref::State& s) {
	auto& R = m.cpu.registers();
	for (int i = 0; i < 32; i++) R.get(i) = s.r[i];
	for (int i = 0; i < 32; i++) memcpy(&R.getvr(i), &s.v[i], 32);
	for (int i = 0; i < 8; i++) R.set_cf(i, s.fcc[i]);
	R.set_fcsr(s.fcsr); m.cpu.set_ll_bit(s.ll);
}
inline std::unique_ptr<Machine> make_machine(MachineOptions& o, size_t size, u64 rodata, u64 data) {
	o.memory_max = size; o.use_shared_execute_segments = false;
	auto m = std::make_unique<Machine>(std::string_view{}, o);
	m->set_options(std::make_shared<MachineOptions>(o));
	m->memory.allocate_custom_arena(size, rodata, data);
	Machine::install_syscall_handler(SYS_STOP, [](Machine& m) { stopped++; m.stop(); });
	return m;
}
inline bool implemented(uint32_t w) { la_instruction i; i.whole = w; return CPU::decode(i).id != InstrId::UNIMPLEMENTED && CPU::decode(i).id != InstrId::INVALID; }
// Mnemonics for which every sampled encoding has a handler in libloong.
inline std::set<std::string> implemented_names(const ref::ISA& isa) {
	std::map<std::string, std::pair<int, int>> c; Rng r(5);
	for (int i = 0; i < ref::ENC_N; i++) { if (!isa.fns[i]) continue; auto& e = ref::enc_table[i];
		for (int k = 0; k < 200; k++) { uint32_t w = e.match | ((uint32_t)r.next() & ~e.mask); if (isa.decode(w) != i) continue; auto& x = c[e.name]; x.second++; x.first += implemented(w); } }
	std::set<std::string> s; for (auto& [n, x] : c) if (x.first) s.insert(n);
	return s;
}
inline std::set<std::string> supported_names(const ref::ISA& isa, const std::string& file) {
	if (file.empty()) return implemented_names(isa);
	std::set<std::string> s; std::ifstream f(file); std::string l; while (f >> l) s.insert(l); return s;
}
} // namespace lh
