// Many-machine monitor: random programs run in many machines at once, in one or several host threads,
// interleaved slice by slice, sharing decoded code or not, created and destroyed in any order.
// Oracle: each program's reference run.  Every machine must behave as if it were the only one.
#define main h_flow_main
#include "h_flow.cpp"
#undef main
#include "elfgen.hpp"
#include <libloong/util/crc32.hpp>
#include <mutex>
#include <thread>
static std::mutex big;
#define LOCKED std::lock_guard<std::mutex> lg(big)
struct MCtx { const Prog* p; std::vector<Event> log; bool stop = false, pause = false; };
static thread_local MCtx* active;
static void msys(Machine& m, int nr) {
	u64 r[32]; for (int i = 0; i < 32; i++) r[i] = m.cpu.reg(i); u64 h = mixregs(r); active->log.push_back({m.cpu.pc(), (u64)nr, h});
	if (nr == S_MIX || nr == 0) m.cpu.reg(REG_A0) = result_of(h);
	else if (nr == S_JUMP) { auto& t = active->p->jump_targets; if (!t.empty()) { m.cpu.reg(REG_A0) = 1; m.cpu.registers().pc = t[h % t.size()] - 4; } }
	else if (nr == S_PAUSE) { active->pause = true; m.stop(); } else { active->stop = true; m.stop(); }
}
struct Loaded { u64 base = 0; Prog p; std::string bin; RefRun ref; std::string kind; };
static std::string image(const Prog& p) {
	elfgen::Image im; im.segs.push_back({TEXT, elfgen::R | elfgen::X, std::string((const char*)p.w.data(), p.w.size() * 4), p.w.size() * 4});
	RefRun t; t.reset(p); im.segs.push_back({DATA, elfgen::R | elfgen::W, std::string(t.m.d.begin(), t.m.d.end()), DLEN}); im.entry = im.text_addr = TEXT; im.text_size = p.w.size() * 4; return im.build();
}
static uint32_t crc(const Prog& p) { return loongarch::util::crc32c((const uint8_t*)p.w.data(), p.w.size() * 4); }
// choose the last word so that the text has the given checksum
static bool force_crc(Prog& p, uint32_t want) {
	p.w.back() = 0; uint32_t c0 = crc(p), col[32]; for (int i = 0; i < 32; i++) { p.w.back() = 1u << i; col[i] = crc(p) ^ c0; } uint32_t target = want ^ c0, x = 0, m[32], v[32]; for (int i = 0; i < 32; i++) m[i] = col[i], v[i] = 1u << i; int row = 0;
	for (int b = 31; b >= 0; b--) { int k = row; while (k < 32 && !(m[k] >> b & 1)) k++; if (k == 32) continue; std::swap(m[k], m[row]); std::swap(v[k], v[row]); for (int j = 0; j < 32; j++) if (j != row && (m[j] >> b & 1)) m[j] ^= m[row], v[j] ^= v[row]; if (target >> b & 1) target ^= m[row], x ^= v[row]; row++; }
	p.w.back() = x; return target == 0 && crc(p) == want;
}
static bool usable(Loaded& l) { l.ref.reset(l.p); while (l.ref.end == RUNNING && l.ref.steps < 30000) l.ref.step(l.p); return l.ref.end == STOPPED; }
struct Live { std::unique_ptr<Machine> m; std::shared_ptr<MachineOptions> o; const Loaded* l = nullptr; MCtx c; u64 counter = 0; bool done = false; std::string how; };
static void judge(Live& v, const char* phase) {
	const Loaded& l = *v.l; std::string e; auto& R = v.m->cpu.registers(); for (size_t i = 0; i < std::min(l.ref.log.size(), v.c.log.size()) && e.empty(); i++) if (!(l.ref.log[i] == v.c.log[i])) e = fmt("system call %zu at %#llx, expected at %#llx or other registers", i, (long long)v.c.log[i].pc, (long long)l.ref.log[i].pc);
	if (e.empty() && v.c.log.size() != l.ref.log.size()) e = fmt("%zu system calls, expected %zu", v.c.log.size(), l.ref.log.size()); for (int i = 0; i < 32 && e.empty(); i++) if (R.get(i) != l.ref.s.r[i]) e = fmt("r%d is %#llx, expected %#llx", i, (long long)R.get(i), (long long)l.ref.s.r[i]);
	if (e.empty() && R.pc != l.ref.s.pc) e = fmt("pc %#llx", (long long)R.pc); if (e.empty() && memcmp(v.m->memory.arena_ptr() + DATA, l.ref.m.d.data(), DLEN)) e = "guest memory differs"; if (e.empty() && memcmp(v.m->memory.arena_ptr() + l.base, l.p.w.data(), l.p.w.size() * 4)) e = "guest text differs";
	if (e.empty() && v.how.find('i') == std::string::npos && v.counter != l.ref.steps) e = fmt("%llu instructions counted, expected %llu", (long long)v.counter, (long long)l.ref.steps);
	LOCKED; vstat("completed"); vstat("completed." + l.kind); seen("interleavings", v.how); if (!e.empty()) viol(std::string(phase) + ":" + l.kind + ":" + e.substr(0, e.find_first_of("0123456789#")), l.kind + " program, run as " + v.how.substr(0, 200) + ": " + e);
}
static std::atomic<int> alive{0}; static std::atomic<u64> created{0}, most{0};
static void worker(const std::vector<std::unique_ptr<Loaded>>& ps, u64 seed, int rounds, const char* phase) {
	Rng r(seed); std::vector<std::unique_ptr<Live>> live;
	for (int k = 0; k < rounds || !live.empty(); k++) {
		if (k < rounds && (live.empty() || (live.size() < 5 && r.chance(1, 3)))) {
			auto v = std::make_unique<Live>(); v->l = ps[r.below(ps.size())].get(); v->o = std::make_shared<MachineOptions>(); v->o->memory_max = r.chance(1, 2) ? DATA + DLEN + 0x40000 : DATA + DLEN + 0x90000; v->o->stack_size = 0x4000; v->o->brk_size = 0; v->o->use_shared_execute_segments = r.chance(3, 4); v->c.p = &v->l->p; v->how = v->o->use_shared_execute_segments ? "S" : "P";
			if (r.chance(1, 12)) { try { std::string cut = v->l->bin.substr(0, r.below(v->l->bin.size())); Machine bad{std::string_view(cut), *v->o}; } catch (const std::exception&) {} { LOCKED; vstat("failed_loads"); } }
			try { v->m = std::make_unique<Machine>(std::string_view(v->l->bin), *v->o); if (r.chance(1, 2)) v->m->set_options(v->o); } catch (const std::exception& e) { LOCKED; viol(std::string(phase) + ":load", e.what()); return; }
			lh::set_state(*v->m, v->l->p.init); v->m->cpu.registers().pc = v->l->base; v->m->set_instruction_counter(0); u64 a = ++alive; created++; if (a > most) most = a; live.push_back(std::move(v)); continue; }
		size_t i = r.below(live.size()); Live& v = *live[i]; active = &v.c; v.c.pause = false; char how;
		try { switch (r.below(10)) {
			case 0: how = 'i'; v.m->cpu.simulate_inaccurate(v.m->cpu.pc()); break;
			case 1: how = 'e'; if (!v.m->has_options()) v.m->set_options(v.o); v.m->memory.evict_execute_segments(); v.m->cpu.init_execute_area(v.l->p.w.data(), v.l->base, v.l->p.w.size() * 4); if (r.chance(1, 2)) std::this_thread::yield(); break;
			case 2: if (r.chance(1, 2)) { how = 'd'; alive--; live.erase(live.begin() + i); { LOCKED; vstat("abandoned"); } continue; } [[fallthrough]];
			default: { how = 's'; u64 lim = v.counter + 1 + r.below(r.chance(1, 4) ? 2000 : 60); v.m->simulate(lim, v.counter); v.counter = v.m->instruction_counter(); } }
			v.how += how;
		} catch (const std::exception& e) { { LOCKED; viol(std::string(phase) + ":" + v.l->kind + ":fault", fmt("%s program, run as %s: %s", v.l->kind.c_str(), v.how.substr(0, 200).c_str(), e.what())); } alive--; live.erase(live.begin() + i); continue; }
		if (v.c.stop) { judge(v, phase); alive--; live.erase(live.begin() + i); }
		else if (v.how.size() > 3000) { { LOCKED; viol(std::string(phase) + ":endless", v.l->kind); } alive--; live.erase(live.begin() + i); }
	}
}
int main(int argc, char** argv) {
	init(argc, argv); nofault = true; equiv = false; const bool threads = kv("mode", "share") == "threads"; const int NT = threads ? (int)strtoul(kv("threads", "6").c_str(), 0, 0) : 1;
	const size_t maxwords = 2500; const u64 TEXT0 = TEXT; DATA = (TEXT + maxwords * 4 + 0x18000) & ~0xfffull; { MachineOptions o; lh::make_machine(o, 0x40000, 0x1000, 0x2000); }
	for (int n : {0, (int)S_STOP, (int)S_MIX, (int)S_JUMP, (int)S_PAUSE}) { switch (n) { case 0: Machine::install_syscall_handler(0, [](Machine& m) { msys(m, 0); }); break; case S_STOP: Machine::install_syscall_handler(S_STOP, [](Machine& m) { msys(m, S_STOP); }); break; case S_MIX: Machine::install_syscall_handler(S_MIX, [](Machine& m) { msys(m, S_MIX); }); break; case S_JUMP: Machine::install_syscall_handler(S_JUMP, [](Machine& m) { msys(m, S_JUMP); }); break; default: Machine::install_syscall_handler(S_PAUSE, [](Machine& m) { msys(m, S_PAUSE); }); } }
	sup_names = lh::supported_names(isa, kv("supported")); for (int i = 0; i < ref::ENC_N; i++) { std::string n = ref::enc_table[i].name; static const std::set<std::string> skip = {"b","bl","jirl","beq","bne","blt","bge","bltu","bgeu","beqz","bnez","bceqz","bcnez","syscall","break"}; if (isa.fns[i] && sup_names.count(n) && lh::group_of(n) == "int" && !skip.count(n) && n.rfind("div", 0) && n.rfind("mod", 0) && lh::mem_class(n) != lh::M_ATOMIC) pool.push_back(i); }
	run_cases(opt.cases ? opt.cases : 100, [&](u64, Rng& r) {
		std::vector<std::unique_ptr<Loaded>> ps; int want = r.range(2, 4);
		for (int tries = 0; (int)ps.size() < want && tries < 60; tries++) {
			auto l = std::make_unique<Loaded>(); size_t words = r.range(80, maxwords); const Loaded* base = ps.empty() ? nullptr : ps[r.below(ps.size())].get(); int rel = base ? (int)r.below(6) : 5; TEXT = TEXT0 + (r.chance(1, 3) ? 4 * r.below(0x2000) : 0); if (base && rel < 3) TEXT = base->base;
			if (rel == 0) words = base->p.w.size() - 1; gen(r, l->p, words); l->p.w.push_back(r.next()); l->kind = "plain";
			if (rel <= 1) { if (!force_crc(l->p, crc(base->p))) continue; l->kind = rel == 0 ? "colliding" : "colliding-length"; }
			else if (rel == 2) { l->p = base->p; l->p.fill = r.next(); l->kind = "same-text"; int n = 1 + r.below(4); while (n--) { auto& w = l->p.w[r.below(l->p.w.size())]; uint32_t x = w ^ (1u << r.below(32)); int was = isa.decode(w), is = isa.decode(x); auto in = [&](int e) { return e >= 0 && std::find(pool.begin(), pool.end(), e) != pool.end(); }; if (r.chance(1, 2) && in(was) && in(is)) w = x; } }
			else if (rel <= 4) { // the very same words at another address: only position-independent programs survive
				l->p = base->p; l->p.fill = r.next(); u64 to = TEXT0; switch (r.below(3)) { case 0: to = (base->base & ~0xfffull) + 4 * r.below(0x400); break; case 1: to = TEXT0 + 0x1000 * r.below(8) + (base->base & 0xfff); break; default: to = TEXT0 + 4 * r.below(0x2000); } if (to == base->base) continue;
				for (auto& t : l->p.jump_targets) t += to - base->base; TEXT = to; l->kind = "moved"; }
			l->base = TEXT; if (!usable(*l)) { vstat("discarded"); continue; } l->bin = image(l->p); seen("programs", hash(l->p.w.data(), l->p.w.size() * 4)); ps.push_back(std::move(l)); }
		if (ps.empty()) return; at(status->caseno, fmt("%zu programs", ps.size())); const char* phase = threads ? "threads" : "share"; std::vector<std::thread> t; std::vector<u64> seeds; for (int i = 0; i < NT; i++) seeds.push_back(r.next());
		if (!threads) worker(ps, seeds[0], 40 + r.below(200), phase); else { for (int i = 0; i < NT; i++) t.emplace_back(worker, std::cref(ps), seeds[i], 20 + (int)r.below(60), phase); for (auto& x : t) x.join(); vstat("parallel_runs"); }
		seen("program_sets", fmt("%zu %llx", ps.size(), (long long)hash(ps[0]->p.w.data(), ps[0]->p.w.size() * 4)));
	});
	vstat("machines", created); vstat("most_alive_at_once", most); return finish();
}
