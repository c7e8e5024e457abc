// Thread monitor: random histories of clone, futex, yield, exit, kill and tid calls, each made by whichever
// guest thread is current.  A model of the scheduler knows every live thread's registers, what it waits for
// and whom each wake must release; whoever runs next must be a runnable thread with exactly its own registers.
#include "lh.hpp"
#include "elfgen.hpp"
#include <libloong/posix/threads.hpp>
#include <libloong/posix/signals.hpp>
using namespace vh; using namespace loongarch;
// A copy of guest memory from `base` on, addressed as the guest does; nothing is mapped below.
static u64 HI = 0; // --high ADDR: the whole program lies above it
struct Shadow { std::vector<uint8_t> v; uint8_t& operator[](u64 a) { return v[a - HI]; } void take(const uint8_t* p, u64 size) { v.assign(p + HI, p + size); } };
static u64 TEXT = 0x10000, DATA = 0x20000; static const u64 NW = 24;
static const uint32_t SETTLS = 0x00080000;
struct Ctx { u64 r[32]; ref::V v[32]; u64 pc; uint32_t fcsr; uint8_t cf[8]; };
enum St { READY, BLOCKED, DEAD };
struct Th { int tid; St st = READY; Ctx c; u64 addr = 0; uint32_t bits = 0; u64 order = 0, waits = 0; u64 clear = 0, altsp = 0, altsz = 0; };
struct Mon {
	Rng& r; MachineOptions o; std::string bin; std::unique_ptr<Machine> M; Shadow shadow; std::map<int, Th> T; int cur = 0; std::set<int> used{0}; u64 orders = 0; bool failed = false, over = false; std::string what, log; struct { u64 h = 0; bool alt = false; } act[65];
	Mon(Rng& r) : r(r) { elfgen::Image im; std::string code; for (int i = 0; i < 64; i++) { uint32_t w = lh::SYSCALL0; code.append((char*)&w, 4); } im.segs.push_back({TEXT, elfgen::R | elfgen::X, code, 0x1000}); im.segs.push_back({DATA, elfgen::R | elfgen::W, std::string(0x1000, 'x'), 0x1000}); im.entry = im.text_addr = TEXT; im.text_size = 256; bin = im.build();
		o.memory_max = HI + 0x40000; o.stack_size = 0x4000; o.brk_size = 0; o.use_shared_execute_segments = false; M = std::make_unique<Machine>(std::string_view(bin), o); M->set_options(std::make_shared<MachineOptions>(o)); M->setup_linux_syscalls(); M->setup_posix_threads(); T[0].tid = 0; for (u64 i = 0; i < 2 * NW; i++) { uint32_t v = r.below(3); memcpy((void*)(M->memory.arena_ptr() + DATA + 4 * i), &v, 4); } shadow.take((uint8_t*)M->memory.arena_ptr(), M->memory.arena_size()); }
	void bad(const std::string& k, const std::string& d) { failed = true; viol(k, d + " | " + (log.size() > 700 ? "..." + log.substr(log.size() - 700) : log)); }
	Ctx get() { Ctx c; memset(&c, 0, sizeof c); auto& R = M->cpu.registers(); for (int i = 0; i < 32; i++) { c.r[i] = R.get(i); memcpy(&c.v[i], &R.getvr(i), 32); c.cf[i & 7] = R.cf(i & 7); } c.pc = R.pc; c.fcsr = R.fcsr(); return c; }
	void put(const Ctx& c) { auto& R = M->cpu.registers(); for (int i = 1; i < 32; i++) { R.get(i) = c.r[i]; } for (int i = 0; i < 32; i++) memcpy(&R.getvr(i), &c.v[i], 32); for (int i = 0; i < 8; i++) R.set_cf(i, c.cf[i]); R.set_fcsr(c.fcsr); R.pc = c.pc; }
	std::string differ(const Ctx& a, const Ctx& b) { for (int i = 1; i < 32; i++) if (a.r[i] != b.r[i]) return fmt("r%d is %#llx, expected %#llx", i, (long long)b.r[i], (long long)a.r[i]); if (a.pc != b.pc) return fmt("pc is %#llx, expected %#llx", (long long)b.pc, (long long)a.pc); for (int i = 0; i < 32; i++) if (memcmp(&a.v[i], &b.v[i], 32)) return fmt("vector register %d", i); if (a.fcsr != b.fcsr || memcmp(a.cf, b.cf, 8)) return "float flags"; return ""; }
	// the current thread computes: everything in its register file becomes its own
	void compute() { Ctx& c = T[cur].c; c = get(); for (int i = 4; i < 32; i++) c.r[i] = r.next(); c.r[1] = r.next(); if (r.chance(1, 4)) c.r[3] = DATA + 0x800 + 16 * r.below(64); for (int i = 0; i < 32; i++) for (auto& q : c.v[i].du) q = r.next(); for (auto& x : c.cf) x = r.below(2); c.fcsr = r.below(4) << 8; c.pc = TEXT + 4 * r.below(60); c.r[0] = 0; put(c); c = get(); }
	u64 word() { return DATA + 4 * r.below(NW); }
	uint32_t val(u64 a) { uint32_t v; memcpy(&v, &shadow[a], 4); return v; }
	void poke(u64 a, uint32_t v) { memcpy((void*)(M->memory.arena_ptr() + a), &v, 4); memcpy(&shadow[a], &v, 4); }
	void give(u64 a, const void* p, size_t n) { memcpy((void*)(M->memory.arena_ptr() + a), p, n); memcpy(&shadow[a], p, n); }
	bool threw; int et; bool crowd = false; unsigned steps = 0; // crowd: as many threads as there may be
	void call(unsigned nr, std::initializer_list<u64> a, const std::string& w) { Ctx& c = T[cur].c; int i = 4; for (u64 x : a) c.r[i++] = x; c.r[11] = nr; put(c); what = w; log += fmt(" [%d] %s;", cur, w.c_str()); at(status->caseno, log.size() > 3000 ? log.substr(log.size() - 3000) : log); M->set_max_instructions(~0ull); threw = false; vstat("calls"); seen("calls", w.substr(0, w.find('(')));
		try { M->system_call(nr); } catch (const MachineException& e) { threw = true; et = e.type(); vstat("exceptions"); } catch (const std::exception& e) { threw = true; et = -1; bad("exception", e.what()); } }
	void host(const std::string& w) { what = w; log += fmt(" [%d] host %s;", cur, w.c_str()); at(status->caseno, log.size() > 3000 ? log.substr(log.size() - 3000) : log); threw = false; vstat("calls"); seen("calls", w.substr(0, w.find('('))); }
	void memory() { const uint8_t* p = M->memory.arena_ptr(); if (memcmp(p + HI, shadow.v.data(), shadow.v.size())) { u64 i = HI; while (p[i] == shadow[i]) i++; bad("memory:" + what.substr(0, what.find('(')), fmt("guest byte %#llx is %02x, expected %02x", (long long)i, p[i], shadow[i])); memcpy(shadow.v.data(), p + HI, shadow.v.size()); } }
	int count(St s) { int n = 0; for (auto& [t, x] : T) n += x.st == s; return n; }
	std::vector<Th*> waiters(u64 a, uint32_t mask) { std::vector<Th*> v; for (auto& [t, x] : T) if (x.st == BLOCKED && x.addr == a && (x.bits == 0 || (x.bits & mask))) v.push_back(&x); std::sort(v.begin(), v.end(), [](Th* a, Th* b) { return a->order < b->order; }); return v; }
	u64 wake(u64 a, u64 n, uint32_t mask) { auto v = waiters(a, mask); u64 k = std::min<u64>(n, v.size()); for (u64 i = 0; i < k; i++) { v[i]->st = READY; v[i]->waits = 0; vstat("wakeups"); } return k; }
	// whoever runs now must be allowed to, and be itself
	void running(bool must_stay) {
		int t = M->threads().get_tid(); Ctx now = get(); memory(); if (failed) return; seen("switches", fmt("%s %d->%d of %d/%d", what.substr(0, what.find('(')).c_str(), cur, t, count(READY), count(BLOCKED)));
		if (!T.count(t) || T[t].st == DEAD) { bad("dead-thread", fmt("thread %d runs but has ended", t)); return; }
		if (must_stay && t != cur) { bad("switched", fmt("%s switched to thread %d", what.c_str(), t)); return; }
		if (T[t].st == BLOCKED) { if (count(READY)) { bad("blocked-thread", fmt("thread %d runs while waiting at %#llx, and %d threads are runnable", t, (long long)T[t].addr, count(READY))); return; } T[t].st = READY; vstat("deadlock_resumes"); }
		std::string d = differ(T[t].c, now); if (!d.empty()) { bad("context:" + what.substr(0, what.find('(')), fmt("thread %d resumed with foreign state: %s", t, d.c_str())); return; }
		if (t != cur) vstat("context_switches"); for (auto& [k, x] : T) if (x.st == READY && k != t && ++x.waits > 220 + T.size() * 4) bad("starved", fmt("thread %d was runnable for %llu calls without running", k, (long long)x.waits)); if (t != cur) T[t].waits = 0; cur = t; std::string live = fmt("%d:", cur); for (auto& [k, x] : T) live += fmt("%d%d%d ", k, x.st, x.st == BLOCKED ? (int)(x.addr - DATA) : 0); seen("scheduler_states", live);
	}
	void step() {
		if (steps++ == 0) crowd = r.chance(1, 12); compute(); Th& me = T[cur]; auto ready = [&](u64 res) { me.c.r[4] = res; };
		switch (crowd && T.size() < 60 && r.chance(1, 2) ? 0 : r.below(21)) {
		case 0: case 1: { if (T.size() > 12 && !crowd && !r.chance(1, 6)) { call(178, {}, "gettid()"); ready(cur); running(true); break; } bool three = r.chance(1, 2); uint32_t fl = 0x00010f00; if (r.chance(1, 2)) fl |= PARENT_SETTID; if (r.chance(1, 2)) fl |= CHILD_SETTID; if (r.chance(1, 2)) fl |= CHILD_CLEARTID; if (r.chance(1, 2)) fl |= SETTLS; u64 ptid = word(), ctid = word(), stack = DATA + 0x400 + 16 * r.below(64), tls = r.next() | 1, tp = me.c.r[2]; bool full = count(READY) + count(BLOCKED) >= 50; int before = cur;
			if (three) { u64 ca = DATA + 0xe00; u64 sz = 16 * r.below(20); u64 args[11] = {fl, r.next(), ctid, ptid, 17, stack - sz, sz, tls, 0, 0, 0}; memcpy((void*)(M->memory.arena_ptr() + ca), args, sizeof args); memcpy(&shadow[ca], args, sizeof args); call(435, {ca, 88}, fmt("clone3(fl=%x)", fl)); if (!(fl & SETTLS)) tls = tp; } else { if (r.chance(1, 4)) tls = 0; call(220, {fl, stack, ptid, ctid, tls}, fmt("clone(fl=%x)", fl)); if (!tls) tls = tp; }
			if (threw) { if (!full) bad("clone:refused", fmt("exception %d with %d threads", et, count(READY) + count(BLOCKED))); else vstat("thread_limit_hits"); me.c = get(); running(true); break; } if (full && (int64_t)get().r[4] < 0) { ready(get().r[4]); running(true); break; }
			int t = M->threads().get_tid(); if (t == before) { t = (int)get().r[4]; } if (used.count(t) || t <= 0) { bad("clone:tid", fmt("new thread id %d was used before", t)); break; } used.insert(t); Th& c = T[t]; c.tid = t; c.c = T[before].c; c.c.r[4] = 0; c.c.r[3] = stack; c.c.r[2] = tls; T[before].c.r[4] = t; c.clear = fl & CHILD_CLEARTID ? ctid : 0; if (fl & CHILD_SETTID) memcpy(&shadow[ctid], &t, 4); if (fl & PARENT_SETTID) memcpy(&shadow[ptid], &t, 4); vstat("threads_created"); running(false); break; }
		case 2: case 3: call(124, {}, "sched_yield()"); ready(0); running(false); break;
		case 4: case 5: case 6: case 7: { u64 a = word(); bool bs = r.chance(1, 3), eq = r.chance(4, 5); uint32_t v = val(a) + (eq ? 0 : 1 + r.below(3)), bits = bs ? (r.chance(1, 3) ? ~0u : 1u << r.below(4)) : 0; int op = (bs ? 9 : 0) | (r.chance(1, 2) ? 128 : 0) | (r.chance(1, 8) ? 256 : 0); int others = count(READY) + count(BLOCKED) - 1; unsigned nr = r.chance(1, 3) ? 422 : 98; call(nr, {a, (u64)op, (u64)(int64_t)(int32_t)v, 0, r.next(), bs ? bits : r.next()}, fmt("futex_wait%s(%#llx,%u,%x)", bs ? "_bitset" : "", (long long)a, v, bits));
			if (!eq) { ready((u64)-11ll); running(false); break; } ready(0); if (!others) { poke(a, 0); running(true); vstat("lone_waits"); break; } me.st = BLOCKED; me.addr = a; me.bits = bits; me.order = ++orders; vstat("waits"); running(false); break; }
		case 8: case 9: case 10: { u64 a = word(); if (r.chance(1, 2)) for (auto& [t, x] : T) if (x.st == BLOCKED && r.chance(1, 2)) a = x.addr; bool bs = r.chance(1, 3); uint32_t bits = r.chance(1, 3) ? ~0u : 1u << r.below(4); u64 n = r.chance(1, 3) ? 0x7fffffff : r.below(4); int op = (bs ? 10 : 1) | (r.chance(1, 2) ? 128 : 0); call(r.chance(1, 3) ? 422 : 98, {a, (u64)op, n, 0, r.next(), bs ? bits : r.next()}, fmt("futex_wake%s(%#llx,%llu,%x)", bs ? "_bitset" : "", (long long)a, (long long)n, bits)); ready(wake(a, n, bs ? bits : ~0u)); if (n && M->cpu.reg(4) != me.c.r[4] && M->threads().get_tid() == cur) { bad("wake-count", fmt("woke %lld, expected %lld", (long long)M->cpu.reg(4), (long long)me.c.r[4])); break; } running(true); break; }
		case 11: { u64 a = word(); uint32_t v = r.below(3); poke(a, v); log += fmt(" *%#llx=%u;", (long long)a, v); break; }
		case 12: if (cur == 0 ? r.chance(1, 30) : r.chance(1, 2)) { u64 cl = me.clear; int id = cur; call(93, {r.next()}, "exit()"); if (cl) memset(&shadow[cl], 0, 4); if (id == 0) { over = true; if (!M->stopped()) bad("exit:main", "the program did not end"); memory(); break; } me.st = DEAD; if (cl) wake(cl, 1, ~0u); T[id].st = DEAD; vstat("thread_exits"); running(false); T.erase(id); break; }
			call(178, {}, "gettid()"); ready(cur); running(true); break;
		case 13: { u64 a = word(); call(96, {a}, fmt("set_tid_address(%#llx)", (long long)a)); me.clear = a; ready(cur); running(true); break; }
		case 14: { int t = r.chance(1, 8) ? (int)r.below(1000) : -1; if (t < 0) { t = std::next(T.begin(), r.below(T.size()))->first; } int sig = r.chance(1, 3) ? 0 : r.chance(1, 12) ? 6 : 1 + (int)r.below(64); bool known = T.count(t) && T[t].st != DEAD; if (r.chance(1, 2)) for (int k = 0; k < 8; k++) { int q = 1 + r.below(64); if (act[q].h) sig = q; } if (t == 0 && sig && !act[sig].h && !r.chance(1, 10)) sig = 0; u64 cl = known ? T[t].clear : 0; call(131, {0, (u64)t, (u64)sig}, fmt("tgkill(%d,%d)", t, sig));
			if (!known) { if (M->stopped()) over = true; else { ready((u64)-3ll); running(true); } break; } if (sig == 0 || act[sig].h == 1) { ready(0); running(true); if (sig) vstat("ignored_signals"); break; } if (act[sig].h) { // the signalled thread continues in the handler, whatever it waited for
				Th& x = T[t]; x.c.pc = act[sig].h - 4; if (t != cur) ready(0); x.c.r[4] = sig; if (act[sig].alt) x.c.r[3] = x.altsp + x.altsz; if (x.st == BLOCKED) { x.st = READY; x.waits = 0; vstat("signalled_waiters"); } vstat(t == cur ? "own_signals" : "signals"); running(true); break; }
			if (sig == 6) { if (!threw) { bad("abort", "SIGABRT without a handler must end the program with an exception"); break; } vstat("aborts"); me.c = get(); running(true); break; } if (cl) memset(&shadow[cl], 0, 4); if (t == 0) { over = true; if (!M->stopped()) bad("kill:main", "the program did not end"); break; } T[t].st = DEAD; if (cl) wake(cl, 1, ~0u); vstat("threads_killed"); ready(0); running(t != cur); T.erase(t); break; }
		case 16: { // the host itself chooses who runs (a waiting thread is not asked for: it has to be unblocked first)
			int t = r.chance(1, 6) ? 1000 + (int)r.below(1000) : std::next(T.begin(), r.below(T.size()))->first; bool known = T.count(t); if (known && T[t].st != READY) break; bool keep = r.chance(1, 2); u64 rv = r.next(); host(fmt("yield_to(%d,%d)", t, keep)); bool got = M->threads().yield_to(t, keep, rv); if (got != known) { bad("yield_to:result", fmt("yield_to(%d) is %d", t, got)); break; } if (known && keep) ready(rv); if (known && M->threads().get_tid() != t) { bad("yield_to:thread", fmt("thread %d runs", M->threads().get_tid())); break; } vstat("host_yields"); running(!known); break; }
		case 17: { int t = r.chance(1, 6) ? 1000 + (int)r.below(1000) : std::next(T.begin(), r.below(T.size()))->first; host(fmt("unblock(%d)", t)); M->threads().unblock(t); if (T.count(t) && T[t].st == BLOCKED) { T[t].st = READY; T[t].waits = 0; vstat("host_unblocks"); } running(true); break; }
		case 18: { int sig = 1 + (int)r.below(64); u64 sa[3] = {r.chance(1, 5) ? r.below(2) : TEXT + 4 + 4 * r.below(60), r.chance(1, 2) ? 0x08000000ull : 0, r.next()}; give(DATA + 0xf00, sa, 24); call(134, {(u64)sig, DATA + 0xf00, 0, 8}, fmt("sigaction(%d,%#llx,%d)", sig, (long long)sa[0], !!sa[1])); act[sig].h = sa[0]; act[sig].alt = sa[1]; ready(0); running(true); break; }
		case 19: { u64 ss[3] = {DATA + 0xa00 + 16 * r.below(8), 0, 16 * r.below(16)}; give(DATA + 0xf00, ss, 24); call(132, {DATA + 0xf00, 0}, fmt("sigaltstack(%#llx,%llu)", (long long)ss[0], (long long)ss[2])); me.altsp = ss[0]; me.altsz = ss[2]; ready(0); running(true); break; }
		case 20: { int k = r.below(4); u64 res = 0; if (k == 0) { call(99, {r.next(), 24}, "set_robust_list()"); ready(0); running(true); break; }
			if (k == 1) { static const int ops[] = {2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15}; int op = ops[r.below(12)] | (r.chance(1, 2) ? 128 : 0); call(r.chance(1, 3) ? 422 : 98, {word(), (u64)op, r.below(3), 0, word(), r.next()}, fmt("futex_op%d()", op & 15)); }
			else { u64 sz = k == 2 ? r.below(64) : 88; u64 a[11] = {0x00010f00, 0, word(), word(), 17, DATA + 0x400, 64, 0, 0, 0, 0}; if (k == 3) { a[8] = word() & ~7ull; a[9] = 1 + r.below(3); } give(DATA + 0xe00, a, sizeof a); call(435, {DATA + 0xe00, sz}, fmt("clone3_refused(%llu,%d)", (long long)sz, k)); }
			if (threw || M->threads().get_tid() != cur || (res = M->cpu.reg(4), (int64_t)res >= 0 || (int64_t)res < -4095)) { bad(what.substr(0, what.find('(')), fmt("result %lld on thread %d, an error is due", (long long)M->cpu.reg(4), M->threads().get_tid())); break; } vstat("refused"); ready(res); running(true); break; }
		default: { u64 a = r.chance(1, 2) ? r.interesting() | (1ull << 40) : 0x10 + r.below(100); if (r.chance(1, 20)) { call(94, {0}, "exit_group()"); over = true; if (!M->stopped()) bad("exit_group", "the program did not end"); break; } call(98, {a, 0, 0}, fmt("futex_wait(%#llx) outside memory", (long long)a)); if (threw) { me.c = get(); running(true); } else if (M->threads().get_tid() == cur && (int64_t)get().r[4] < 0) { ready(get().r[4]); running(true); } else bad("futex:outside", "accepted"); }
		}
	}
};
int main(int argc, char** argv) { init(argc, argv); HI = strtoull(kv("high", "0").c_str(), 0, 0); TEXT += HI; DATA += HI; run_cases(opt.cases ? opt.cases : 500, [&](u64, Rng& r) { Mon m(r); for (int i = 0; i < 250 && !m.failed && !m.over; i++) m.step(); seen("histories", m.log); if (r.chance(1, 300)) sample(m.log.substr(0, 400)); }); return finish(); }
