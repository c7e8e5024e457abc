// System-call monitor: random, hostile and history-dependent Linux system calls on a loaded program.
// A model predicts result, guest memory, output and registers; every other guest byte must be untouched.
// A seccomp filter records host system calls the sandbox has no business making.
#include "lh.hpp"
#include "elfgen.hpp"
#include "sandbox.hpp"
#include <libloong/posix/signals.hpp>
#include <cstddef>
#include <ctime>
#include <sys/time.h>
#include <poll.h>
using namespace vh; using namespace loongarch;
// A copy of guest memory from `base` on, addressed as the guest does; nothing is mapped below.
static u64 HI = 0; // --high ADDR: the whole program lies above it
struct Shadow { std::vector<uint8_t> v; uint8_t& operator[](u64 a) { return v[a - HI]; } void take(const uint8_t* p, u64 size) { v.assign(p + HI, p + size); } };
static u64 TEXT = 0x10000, DATA = 0x20000; static const u64 DSIZE = 0x6000;
static std::string image(Rng& r) {
	elfgen::Image im; std::string code; for (int i = 0; i < 16; i++) { uint32_t w = lh::SYSCALL0; code.append((char*)&w, 4); } im.segs.push_back({TEXT, elfgen::R | elfgen::X, code, 0x1000}); std::string d; for (u64 i = 0; i < DSIZE; i++) d += (char)r.next(); im.segs.push_back({DATA, elfgen::R | elfgen::W, d, DSIZE + r.below(3) * 0x800});
	im.entry = im.text_addr = TEXT; im.text_size = 64; return im.build();
}
struct Mon {
	Rng& r; MachineOptions o; std::string bin; std::unique_ptr<Machine> M; Shadow shadow; bool failed = false;
	u64 size, rd, wd, pages_start, top; std::map<u64, u64> live; // mmap model: live regions, stack-like top
	struct Act { u64 handler = 0, mask = 0; bool alt = false; } act[65]; std::map<int, int64_t> idents; u64 ss_sp = 0, ss_size = 0; int ss_flags = 0;
	FILE* real; char* ob = nullptr; size_t on = 0; FILE* cap = nullptr;
	Mon(Rng& r, u64 mem) : r(r), real(stdout) {
		o.memory_max = HI + mem; o.stack_size = 0x4000 << r.below(3); o.brk_size = r.below(5) * 0x1000; o.use_shared_execute_segments = false; bin = image(r); M = std::make_unique<Machine>(std::string_view(bin), o); M->set_options(std::make_shared<MachineOptions>(o));
		M->setup_linux_syscalls(); auto& m = M->memory; size = m.arena_size(); rd = m.rodata_start(); wd = m.data_start(); top = pages_start = m.mmap_address(); shadow.take((uint8_t*)m.arena_ptr(), size); cap = open_memstream(&ob, &on);
		if (top & 4095) viol("layout:mmap", fmt("mmap area starts at %#llx", (long long)top)); u64 st = m.stack_address(); if (st > top || st < o.stack_size || st - o.stack_size < m.brk_address() + o.brk_size || m.brk_address() < DATA + DSIZE) viol("layout:overlap", fmt("stack %#llx brk %#llx mmap %#llx", (long long)st, (long long)m.brk_address(), (long long)top));
	}
	~Mon() { stdout = real; if (cap) { fclose(cap); free(ob); } }
	u64& A(int i) { return (u64&)M->cpu.reg(REG_A0 + i); }
	bool can_read(u64 a, u64 n) { return a >= rd && a <= size && n <= size - a; } bool can_write(u64 a, u64 n) { return a >= wd && a <= size && n <= size - a; }
	uint8_t* ptr(u64 a) { return (uint8_t*)M->memory.arena_ptr() + a; }
	template <class T> T peek(u64 a) { T t; memcpy(&t, &shadow[a], sizeof t); return t; }
	template <class T> void poke(u64 a, T v) { memcpy(ptr(a), &v, sizeof v); memcpy(&shadow[a], &v, sizeof v); }
	u64 addr() { switch (r.below(10)) { case 0: return r.interesting(); case 1: return size - r.below(300); case 2: return r.below(4) ? HI + r.below(size - HI) : r.chance(1, 2) ? DATA + r.below(DSIZE) - HI : r.next(); case 3: return (r.chance(1, 2) ? rd : wd) + r.range(-40, 40); case 4: return 0; case 5: return size + r.below(100); default: return DATA + r.below(DSIZE - 600); } }
	u64 len() { switch (r.below(8)) { case 0: return r.interesting(); case 1: return size - r.below(100); case 2: return 0; case 3: return r.below(0x3000); default: return r.below(200); } }
	// outcome of one call
	bool threw; int etype; std::string out, what; int64_t res;
	void bad(const std::string& k, const std::string& d) { failed = true; viol(k, what + ": " + d); }
	u64 regs[32];
	void call(unsigned nr, const std::string& w) {
		what = w; at(status->caseno, w); auto& R = M->cpu.registers(); for (int i = 0; i < 32; i++) regs[i] = R.get(i); u64 pc = R.pc; fseek(cap, 0, SEEK_SET); fflush(cap); trapped = -1; threw = false; etype = -1; stdout = cap; in_call = true; timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
		try { M->system_call(nr); } catch (const MachineException& e) { threw = true; etype = e.type(); } catch (const std::exception& e) { threw = true; bad(fmt("exception:%u", nr), fmt("unexpected exception %s", e.what())); }
		in_call = false; fflush(cap); stdout = real; out.assign(ob, on); clock_gettime(CLOCK_MONOTONIC, &t1); res = (int64_t)A(0); vstat("calls"); seen("calls", fmt("%u %s", nr, threw ? "exception" : res < 0 ? "error" : "ok")); if (threw) vstat("exceptions"); else if (res < 0) vstat("errors"); else vstat("successes");
		if (trapped >= 0) bad(fmt("host-syscall:%u", nr), fmt("the host made system call %d (%llx, %llx)", trapped, (long long)trap_arg[0], (long long)trap_arg[1]));
		if (t1.tv_sec - t0.tv_sec > 5) bad(fmt("blocked:%u", nr), "the host was blocked for seconds");
		if (R.pc != pc && nr != 130 && nr != 131) bad(fmt("pc:%u", nr), "the program counter changed");
		for (int i = 1; i < 32; i++) if (i != REG_A0 && R.get(i) != regs[i] && !(i == REG_SP && (nr == 130 || nr == 131))) bad(fmt("register:%u", nr), fmt("r%d changed", i));
		if (!threw && res < 0 && res < -4095) bad(fmt("result:%u", nr), fmt("result %lld is neither a value nor an error", (long long)res));
		if (nr != 64 && nr != 66 && !out.empty()) bad(fmt("output:%u", nr), "unexpected output");
	}
	// the only bytes that may differ from the shadow; exact content when given
	void mem(u64 a = 0, u64 n = 0, const std::string* exact = nullptr) {
		const uint8_t* p = M->memory.arena_ptr(); a = std::min(a, size); n = std::min(n, size - a);
		auto diff = [&](u64 x, u64 y) { x = std::max(x, HI); if (y > x && memcmp(p + x, &shadow[x], y - x)) { u64 i = x; while (p[i] == shadow[i]) i++; bad("memory", fmt("guest byte %#llx changed, outside [%#llx,+%#llx)", (long long)i, (long long)a, (long long)n)); return true; } return false; };
		diff(0, a); diff(a + n, size); if (exact && n && memcmp(p + a, exact->data(), n)) { u64 i = 0; while (p[a + i] == (uint8_t)(*exact)[i]) i++; bad("content", fmt("byte %llu at %#llx is %02x, expected %02x", (long long)i, (long long)(a + i), p[a + i], (uint8_t)(*exact)[i])); }
		if (failed) shadow.take(p, size); else if (u64 b = std::max(a, HI); a + n > b) memcpy(&shadow[b], p + b, a + n - b);
		seen("memory_effects", fmt("%s %d", what.substr(0, what.find('(')).c_str(), n ? (int)(63 - __builtin_clzll(n)) : -1));
	}
	void expect(bool ok, const char* k, const std::string& d) { if (!ok) bad(k, d); }
	void set(std::initializer_list<u64> v) { int i = 0; for (u64 x : v) A(i++) = x; for (; i < 8; i++) A(i) = r.interesting(); }
	// writes `data` (or anything, when !exact) of n bytes to a, and returns `good`
	void writes(u64 a, u64 n, int64_t good, const std::string* exact = nullptr) { bool ok = can_write(a, n); if (threw) { expect(!ok, "refused", "a valid buffer was refused"); mem(a, n); } else { expect(ok || n == 0, "accepted", "a buffer outside guest memory was accepted"); expect(res == good, "result", fmt("returned %lld, expected %lld", (long long)res, (long long)good)); mem(a, ok ? n : 0, exact); } }
	void plain(int64_t lo, int64_t hi) { expect(!threw, "throws", "unexpected exception"); expect(res >= lo && res <= hi, "result", fmt("returned %lld, expected %lld..%lld", (long long)res, (long long)lo, (long long)hi)); mem(); }
	void error() { plain(-4095, -1); }
	int fd() { return r.chance(3, 4) ? (int)r.below(3) : (int)r.interesting(); }
	void step() {
		u64 a = addr(), n = len(); int f = fd();
		switch (r.below(29)) {
		case 0: case 1: { set({(u64)f, a, n}); call(64, fmt("write(%d,%#llx,%llu)", f, (long long)a, (long long)n)); if (f != 1 && f != 2) { error(); expect(out.empty(), "output", "wrote to another descriptor"); break; }
			bool ok = can_read(a, n); if (threw) { expect(!ok, "refused", "valid buffer"); mem(); break; } expect(ok || !n, "accepted", "invalid buffer"); plain(n, n); expect(out == std::string(ok ? (char*)&shadow[a] : "", ok ? n : 0), "output", fmt("%zu bytes written differ from the buffer", out.size())); break; }
		case 2: { u64 cnt = r.chance(1, 10) ? r.interesting() : r.below(6); u64 v = DATA + r.below(DSIZE - 200); const bool many = DSIZE > 16 * 1040 && r.chance(1, 30); if (many) { cnt = r.range(1020, 1027); v = DATA + r.below(DSIZE - 16 * 1040); } else if (r.chance(1, 12)) v = addr(); if (v < size && size - v < 16 * 1030 && (size - v) % 16) v -= (16 - (size - v) % 16) % 16; std::string want; u64 total = 0; bool ok = true; u64 k = 0;
			for (; k < cnt && k < 1024 && can_write(v + 16 * k, 16); k++) { u64 b = !many && r.chance(1, 12) ? addr() : !many && r.chance(1, 8) ? size / 2 : DATA + r.below(0x3000), l = many ? r.below(20) : r.chance(1, 12) ? len() : r.chance(1, 10) ? size / 2 - 16 * r.below(9) : r.below(80); poke(v + 16 * k, b); poke(v + 16 * k + 8, l); }
			for (u64 i = 0; ok && i < cnt; i++) { if (i >= 1024 || !can_read(v + 16 * i, 16)) { ok = false; break; } u64 b = peek<u64>(v + 16 * i), l = peek<u64>(v + 16 * i + 8); if (l == 0) continue; if (!can_read(b, l)) { ok = false; break; } want.append((char*)&shadow[b], l); total += l; }
			set({(u64)f, v, cnt}); call(66, fmt("writev(%d,%#llx,%llu)", f, (long long)v, (long long)cnt)); if (f != 1 && f != 2) { expect(out.empty(), "output", "wrote to another descriptor"); expect(threw || res < 0, "result", "no error"); mem(); break; }
			if (threw) { expect(!ok, "refused", "valid vectors"); expect(want.compare(0, out.size(), out) == 0, "output", "partial output differs"); mem(); break; } expect(ok, "accepted", "invalid vectors"); if (cnt > 1000) vstat("long_vectors"); plain(total, total); expect(out == want, "output", fmt("%zu bytes written, expected %zu", out.size(), want.size())); break; }
		case 3: set({(u64)f, a, n}); call(63, fmt("read(%d,%#llx,%llu)", f, (long long)a, (long long)n)); if (f == 0) plain(0, 0); else error(); break;
		case 4: set({(u64)r.interesting(), a, n}); call(56, "openat()"); if (threw) mem(); else error(); break;
		case 5: set({(u64)f}); call(57, fmt("close(%d)", f)); if (f >= 0 && f <= 2) plain(0, 0); else error(); break;
		case 6: { set({(u64)f, a}); call(80, fmt("fstat(%d,%#llx)", f, (long long)a)); if (f < 0 || f > 2 || !a) error(); else { std::string z(128, 0); writes(a, 128, 0, &z); } break; }
		case 7: set({(u64)f}); call(29, "ioctl()"); error(); break;
		case 8: set({(u64)f}); call(25, "fcntl()"); plain(-4095, 0x7fffffff); break;
		case 9: { static const std::string P = "/proc/self/exe", X = "/tmp/program"; u64 p = r.chance(1, 8) ? addr() : DATA + 16 + r.below(0x2000); bool exe = r.chance(2, 3) && can_write(p, 20); if (exe) for (u64 i = 0; i <= P.size(); i++) poke<char>(p + i, P.c_str()[i]); if (a + 64 > p && a < p + 64) a = DATA + 0x4000; exe = can_read(p, P.size() + 1) && !memcmp(&shadow[p], P.c_str(), P.size() + 1); u64 m = std::min<u64>(n, X.size()); std::string want = X.substr(0, m);
			set({(u64)-100, p, a, n}); call(78, fmt("readlinkat(%s,%#llx,%llu)", exe ? "exe" : "?", (long long)a, (long long)n)); if (exe) writes(a, m, m, &want); else if (threw) { expect(!can_read(p, 256) || p >= size, "throws", "path"); mem(); } else error(); break; }
		case 10: set({a, n}); call(226, "mprotect()"); plain(0, 0); break;
		case 11: set({a, n}); call(233, "madvise()"); plain(0, 0); break;
		case 12: { int id = r.chance(4, 5) ? (int)r.below(8) : (int)r.interesting(); timespec b, e; bool ok = syscall(SYS_clock_gettime, id, &b) == 0; set({(u64)id, a}); call(113, fmt("clock_gettime(%d,%#llx)", id, (long long)a)); if (!a) { plain(-4095, 0); break; } if (!ok && !threw) { error(); break; } if (threw) { writes(a, 16, 0); break; } writes(a, 16, 0);
			if (can_write(a, 16)) { timespec g = peek<timespec>(a); clock_gettime(id, &e); auto lt = [](timespec x, timespec y) { return x.tv_sec != y.tv_sec ? x.tv_sec < y.tv_sec : x.tv_nsec < y.tv_nsec; }; expect(!lt(g, b) && !lt(e, g), "time", fmt("clock %d reported %lld.%09ld, not between two host readings", id, (long long)g.tv_sec, g.tv_nsec)); vstat("clock_readings"); } break; }
		case 13: { timeval b, e; gettimeofday(&b, nullptr); set({a}); call(169, fmt("gettimeofday(%#llx)", (long long)a)); if (!a) { plain(0, 0); break; } writes(a, 16, 0); if (!threw && can_write(a, 16)) { timeval g = peek<timeval>(a); gettimeofday(&e, nullptr); expect(!timercmp(&g, &b, <) && !timercmp(&e, &g, <), "time", "gettimeofday outside two host readings"); } break; }
		case 14: { u64 q = r.chance(1, 6) ? 0 : r.chance(1, 4) ? addr() : DATA + 8 * r.below(100); if (can_write(q, 16)) { poke<u64>(q, r.chance(1, 2) ? 0x7fffffff : r.next()); poke<u64>(q + 8, r.next()); } set({q, a}); call(101, fmt("nanosleep(%#llx,%#llx)", (long long)q, (long long)a)); if (!q || !a) { if (threw) { expect(q && !can_read(q, 16), "throws", "exception"); mem(); } else plain(0, 0); break; } if (!can_read(q, 16)) { expect(threw, "accepted", "bad request pointer"); mem(); break; } std::string z(16, 0); writes(a, 16, 0, &z); break; }
		case 15: { u64 sz = r.chance(1, 3) ? r.below(16) : n; set({0, sz, a}); call(123, fmt("sched_getaffinity(%llu,%#llx)", (long long)sz, (long long)a)); if (sz < 8 || !a) { error(); break; } std::string one("\1\0\0\0\0\0\0\0", 8); writes(a, 8, 8, &one); break; }
		case 16: { static const int ids[] = {172, 174, 175, 176, 177, 178, 96}; int nr = ids[r.below(7)]; set({a}); call(nr, fmt("id %d", nr)); plain(0, 0x7fffffff); // identities neither change nor contradict each other
			int kind = nr == 175 ? 174 : nr == 177 ? 176 : nr == 96 ? 178 : nr; if (!threw) { auto [it, first] = idents.emplace(kind, res); expect(it->second == res, "identity", fmt("%lld, earlier %lld", (long long)res, (long long)it->second)); if (!first) vstat("identities_compared"); } break; }
		case 17: { set({a, r.chance(1, 3) ? 0 : n, n}); call(99, "set_robust_list()"); plain(0, 0); set({a, n}); call(135, "rt_sigprocmask()"); plain(0, 0); set({(u64)r.interesting()}); call(167, "prctl()"); plain(-4095, 0); set({n, a}); call(291, "statx()"); error(); break; }
		case 18: { u64 nw = r.chance(1, 2) ? 0 : r.chance(1, 6) ? addr() : DATA + 8 * r.below(200), od = r.chance(1, 3) ? 0 : r.chance(1, 6) ? addr() : DATA + 4096 + 8 * r.below(200); if (nw && r.chance(1, 5)) od = nw + 8 * (int)r.range(-1, 1); if (nw && can_write(nw, 24)) { poke<u64>(nw, r.next()); poke<u64>(nw + 8, r.below(3)); poke<u64>(nw + 16, r.below(1 << 20)); } u64 n_sp = 0, n_size = 0; int n_flags = 0; if (nw && can_read(nw, 24)) n_sp = peek<u64>(nw), n_flags = peek<int>(nw + 8), n_size = peek<u64>(nw + 16); if (nw && od == nw) vstat("aliased_structs");
			set({nw, od}); call(132, fmt("sigaltstack(%#llx,%#llx)", (long long)nw, (long long)od)); bool okn = !nw || can_read(nw, 24), oko = !od || can_write(od, 24); if (threw) { expect(!okn || !oko, "throws", "valid pointers"); mem(); } else { expect(okn && oko, "accepted", "bad pointers"); expect(res == 0, "result", "nonzero"); mem(od, od ? 24 : 0);
				if (od && oko) expect(peek<u64>(od) == ss_sp && peek<int>(od + 8) == ss_flags && peek<u64>(od + 16) == ss_size, "sigaltstack", "old stack is not the one last set"); }
			if (oko && nw && okn) { ss_sp = n_sp; ss_flags = n_flags; ss_size = n_size; } break; }
		case 19: case 20: { int sig = r.chance(1, 10) ? (int)r.interesting() : 1 + (int)r.below(r.chance(1, 2) ? 64 : 6); bool vs = sig >= 1 && sig <= 64; u64 nw = r.chance(1, 2) ? 0 : r.chance(1, 8) ? addr() : DATA + 8 * r.below(200), od = r.chance(1, 3) ? 0 : r.chance(1, 8) ? addr() : DATA + 4096 + 8 * r.below(200); if (nw && r.chance(1, 5)) od = nw + 8 * (int)r.range(-1, 1); if (nw && can_write(nw, 24)) { poke<u64>(nw, r.chance(1, 8) ? r.below(2) : (r.chance(1, 8) ? r.next() : TEXT + 4 * r.below(16))); poke<u64>(nw + 8, r.chance(1, 2) ? 0x08000000 : r.next() & 0xffffffff); poke<u64>(nw + 16, r.next()); } u64 n_h = 0, n_m = 0, n_f = 0; if (nw && can_read(nw, 24)) n_h = peek<u64>(nw), n_f = peek<u64>(nw + 8), n_m = peek<u64>(nw + 16); if (nw && od == nw) vstat("aliased_structs");
			set({(u64)sig, nw, od, 8}); call(134, fmt("rt_sigaction(%d,%#llx,%#llx)", sig, (long long)nw, (long long)od)); if (sig == 0) { mem(od, od ? 24 : 0); act[1].handler = ~0ull; break; } if (!vs) { expect(threw || res < 0, "accepted", "bad signal number"); mem(); break; }
			bool okn = !nw || can_read(nw, 24), oko = !od || can_write(od, 24); if (threw) { expect(!okn || !oko, "throws", "valid pointers"); mem(); } else { expect(okn && oko, "accepted", "bad pointers"); expect(res == 0, "result", "nonzero"); mem(od, od ? 24 : 0);
				if (od && oko && act[sig].handler != ~0ull) { expect(act[sig].handler <= 1 ? peek<u64>(od) == act[sig].handler : (peek<u64>(od) & ~3ull) == (act[sig].handler & ~3ull), "sigaction:handler", fmt("old handler %#llx, last set %#llx", (long long)peek<u64>(od), (long long)act[sig].handler)); if (act[sig].handler) { expect(peek<u64>(od + 16) == act[sig].mask, "sigaction:mask", fmt("old mask %#llx, last set %#llx", (long long)peek<u64>(od + 16), (long long)act[sig].mask)); expect(!!(peek<u64>(od + 8) & 0x08000000) == act[sig].alt, "sigaction:flags", "SA_ONSTACK"); } vstat("sigaction_readbacks"); } }
			if (oko && nw && okn) act[sig] = {n_h, n_m, !!(n_f & 0x08000000)}; break; }
		case 21: { bool tg = r.chance(1, 2); int sig = r.chance(1, 8) ? (int)r.interesting() : (int)r.below(12); if (sig == 1 && act[1].handler == ~0ull) sig = 0; if (tg) set({0, 1, (u64)sig}); else set({1, (u64)sig}); bool vs = sig >= 0 && sig <= 64; Act h = vs && sig ? act[sig] : Act{}; bool ign = h.handler == 1; u64 hp = h.handler & ~3ull; if (hp == ~3ull) hp = ~3ull; auto& R = M->cpu.registers(); u64 pc = R.pc; call(tg ? 131 : 130, fmt("%s(sig %d, handler %#llx)", tg ? "tgkill" : "tkill", sig, (long long)hp));
			if (!vs) { expect(threw || res <= 0, "accepted", "bad signal number"); mem(); } else if (tg && sig == 6 && !hp && !ign) { expect(threw && etype == GUEST_ABORT, "abort", "an unhandled SIGABRT must be reported"); mem(); } else if (!sig || !hp) { plain(0, 0); expect(R.pc == pc && R.get(REG_SP) == regs[REG_SP], "signal", "ignored signal changed the program"); }
			else if (threw) { mem(); expect(!can_read(hp, 4), "throws", "valid handler refused"); } else { mem(); expect(R.pc + 4 == hp, "signal:pc", fmt("pc %#llx, handler %#llx", (long long)R.pc + 4, (long long)hp)); expect(R.get(REG_A0) == (u64)sig, "signal:number", fmt("a0 = %llu", (long long)R.get(REG_A0))); u64 sp = h.alt ? ss_sp + ss_size : regs[REG_SP]; expect(R.get(REG_SP) == sp, "signal:sp", fmt("sp %#llx, expected %#llx", (long long)R.get(REG_SP), (long long)sp)); vstat("signals_entered"); }
			R.pc = pc; R.get(REG_SP) = regs[REG_SP]; break; }
		case 22: set({r.chance(1, 2) ? 0 : a}); call(214, "brk()"); expect(!threw, "throws", "brk"); expect(res == 0 || ((u64)res >= M->memory.brk_address() && (u64)res <= M->memory.brk_address() + o.brk_size), "result", fmt("program break %#llx outside its area", (long long)res)); mem(); break;
		case 23: { if (r.chance(1, 40)) n = size - r.below(8); u64 m = n; set({a, m}); call(278, fmt("getrandom(%#llx,%llu)", (long long)a, (long long)m)); writes(a, m, (int64_t)m); break; }
		case 24: { int res_id = (int)r.below(16); set({0, (u64)res_id, 0, a}); call(261, fmt("prlimit64(%d,%#llx)", res_id, (long long)a)); if (!a) plain(0, 0); else { writes(a, a < size && size - a < 16 && size - a > 8 && !threw ? size - a : 16, 0); // the last scalar may reach into the slack behind the arena
			 if (!threw && can_write(a, 16)) expect(peek<u64>(a) <= peek<u64>(a + 8), "rlimit", "soft limit above hard limit"); } break; }
		case 25: { int op = (int)r.below(14) | (r.chance(1, 2) ? 128 : 0); set({a, (u64)op, r.next()}); call(98, fmt("futex(%d)", op)); if ((op & 127) == 0) plain(-11, -11); else if ((op & 127) == 1) plain(0, 0); else plain(-4095, 0); break; }
		case 26: case 27: { u64 k = r.chance(1, 25) ? r.range(1020, 1027) : r.chance(1, 10) ? r.interesting() : r.below(20); u64 v = r.chance(1, 6) ? addr() : DATA + r.below(0x4000); u64 m = 0; bool ok = k <= 1024 && can_write(v, 8 * k); std::string want; int ready = 0;
			if (ok) { for (u64 i = 0; i < k; i++) { int f2 = fd(); short ev = r.chance(1, 4) ? 0 : (short)r.next(); poke(v + 8 * i, f2); poke(v + 8 * i + 4, ev); poke(v + 8 * i + 6, (short)r.next()); } want.assign((char*)&shadow[v], 8 * k); for (u64 i = 0; i < k; i++) { int f2 = peek<int>(v + 8 * i); short ev = peek<short>(v + 8 * i + 4), re = f2 >= 0 && f2 <= 2 ? ev : 0; ready += re != 0; memcpy(&want[8 * i + 6], &re, 2); } m = 8 * k; }
			set({v, k, 0}); call(73, fmt("ppoll(%#llx,%llu)", (long long)v, (long long)k)); if (!ok) { expect(threw || k == 0, "accepted", "bad poll array"); mem(); } else writes(v, m, ready, &want); break; }
		default: { static const unsigned un[] = {0, 17, 48, 59, 79, 129, 198, 203, 220, 221, 277, 434, 435, 436, 439, 494, 511, 512, 513, 1000, 0x7fffffff, 0xffffffff}; unsigned nr = un[r.below(22)]; if (nr == 494 || nr == 511) nr = 17; set({a, n}); u64 a7 = A(7); A(7) = nr; call(nr, fmt("unknown %u", nr)); A(7) = a7; expect(threw && etype == UNIMPLEMENTED_SYSCALL, "unknown", "an unimplemented system call must be reported"); mem(); }
		}
	}
	// ---- memory mapping histories
	void fill(u64 a, u64 n) { u64 tag = r.next(); for (u64 i = 0; i + 8 <= n; i += 8) { u64 v = tag + i; memcpy(ptr(a + i), &v, 8); } memcpy(&shadow[a], ptr(a), n); }
	static u64 up(u64 n) { return (n + 4095) & ~4095ull; }
	void map_step() {
		const u64 end = size & ~4095ull; switch (r.below(10)) {
		case 0: case 1: case 2: case 3: case 4: { u64 n = r.chance(1, 12) ? r.interesting() : r.chance(1, 10) ? end - top + r.range(-2, 2) * (r.chance(1, 2) ? 1 : 4096) : 1 + r.below(r.chance(1, 4) ? 0x20000 : 0x3000); u64 hint = r.chance(3, 4) ? 0 : addr() & ~4095ull; int flags = 0x22; set({hint, n, 3, (u64)flags, (u64)-1, 0}); call(222, fmt("mmap(%#llx,%llu)", (long long)hint, (long long)n)); mem(0, 0); expect(!threw, "mmap:throws", "exception");
			bool room = n <= end - std::min(top, end); if (n == 0) { expect(res < 0, "mmap:zero", "an empty mapping was made"); break; } if (res < 0) { expect(!room, "mmap:refused", fmt("error %lld with %#llx bytes left", (long long)res, (long long)(end - top))); vstat("mmap_refused"); break; }
			u64 a = res, l = up(n); bool inside = !(a & 4095) && a >= pages_start && a <= end && n <= end - a && l >= n; expect(inside, "mmap:range", fmt("returned [%#llx,+%#llx) outside [%#llx,%#llx)", (long long)a, (long long)n, (long long)pages_start, (long long)end)); if (!inside) return;
			for (auto& [b, m] : live) expect(a >= b + m || b >= a + l, "mmap:overlap", fmt("[%#llx,+%#llx) overlaps live [%#llx,+%#llx)", (long long)a, (long long)l, (long long)b, (long long)m));
			for (u64 i = 0; i < l; i++) if (ptr(a)[i]) { bad("mmap:zero-fill", fmt("byte %llu of the new mapping at %#llx is %02x", (long long)i, (long long)a, ptr(a)[i])); break; }
			live[a] = l; top = std::max(top, a + l); fill(a, l); vstat("mmaps"); seen("map_layouts", fmt("%zu %llu %llu", live.size(), (long long)(a - pages_start) >> 12, (long long)l >> 12)); break; }
		case 5: case 6: case 7: { if (live.empty()) break; auto it = r.chance(1, 2) ? std::prev(live.end()) : std::next(live.begin(), r.below(live.size())); u64 a = it->first, l = it->second, b = a, n = l; if (r.chance(1, 4) && l > 4096) { b += 4096 * r.below(l / 4096); n = r.chance(1, 2) ? a + l - b : 4096 * (1 + r.below((a + l - b) / 4096)); }
			u64 arg = r.chance(1, 2) ? n : n - r.below(4096); set({b, arg}); call(215, fmt("munmap(%#llx,%llu)", (long long)b, (long long)arg)); expect(!threw && res == 0, "munmap:result", "failed"); mem(b, n); live.erase(it); if (b > a) live[a] = b - a; if (b + n < a + l) live[b + n] = a + l - b - n; if (b + n == top) top = b; vstat("munmaps"); break; }
		case 8: { // ranges that are not ours: never harms a live mapping or the program
			u64 n = r.chance(1, 2) ? r.interesting() : 4096 * r.below(50), b = r.chance(1, 2) ? (r.chance(1, 2) ? top + 4096 * r.below(4) : 0 - n + top) : addr(); bool wraps = b + n < b, hits = !wraps && b < top && b + up(n) > pages_start - (o.stack_size + o.brk_size); if (hits && n) break; set({b, n}); call(215, fmt("munmap(%#llx,%#llx) of nothing", (long long)b, (long long)n)); mem(); break; }
		default: { if (live.empty()) break; auto it = std::next(live.begin(), r.below(live.size())); u64 a = it->first, l = it->second; u64 b = a + 4096 * r.below(l / 4096), n = 4096 * (1 + r.below((a + l - b) / 4096)); if (r.chance(1, 6)) { n = end - b + 4096 * r.below(100); set({b, n, 3, 0x32, (u64)-1, 0}); call(222, fmt("mmap fixed(%#llx,%#llx)", (long long)b, (long long)n)); if (b + n > top) { if (threw || res < 0) mem(); else { expect(b + n <= end, "mmap-fixed:range", "a fixed mapping beyond memory was made"); for (auto j = live.begin(); j != live.end();) if (j->first >= b) j = live.erase(j); else { if (j->first + j->second > b) j->second = b - j->first; ++j; } live[b] = n; top = std::max(top, b + n); mem(b, n); } } else { mem(b, n); } break; }
			std::string z(n, 0); set({b, n, 3, 0x32, (u64)-1, 0}); call(222, fmt("mmap fixed(%#llx,%#llx)", (long long)b, (long long)n)); writes(b, n, (int64_t)b, &z); fill(b, n); vstat("fixed_mmaps"); } }
	}
	// ---- initial process stack
	void stack() {
		std::vector<std::string> args, env; const bool lots = r.chance(1, 12); u64 na = 1 + r.below(lots ? 400 : r.chance(1, 8) ? 60 : 6), ne = r.below(lots ? 400 : r.chance(1, 8) ? 60 : 6); auto str = [&] { std::string s; u64 n = lots && r.chance(1, 60) ? r.range(3900, 5000) : r.chance(1, 10) ? r.below(400) : r.below(24); while (n--) s += (char)(1 + r.below(255)); return s; }; for (u64 i = 0; i < na; i++) args.push_back(str()); for (u64 i = 0; i < ne; i++) env.push_back(str() + "=" + str());
		u64 total = 1000; for (auto& s : args) total += s.size() + 9; for (auto& s : env) total += s.size() + 9; if (total > o.stack_size) return; if (na + ne > 256) vstat("many_strings"); for (auto& s : args) if (s.size() > 3900) vstat("long_strings"); what = fmt("setup_linux(%llu args, %llu env)", (long long)na, (long long)ne); at(status->caseno, what); const u64 st = M->memory.stack_address();
		if (r.chance(1, 3)) M->cpu.reg(REG_SP) = st - r.below(64); else M->cpu.reg(REG_SP) = st; u64 sp0 = M->cpu.reg(REG_SP); M->setup_linux(args, env); u64 sp = M->cpu.reg(REG_SP); vstat("stacks"); seen("stacks", fmt("%llu %llu %llu", (long long)na, (long long)ne, (long long)(sp0 - sp)));
		expect((sp & 15) == 0, "stack:align", fmt("sp %#llx", (long long)sp)); if (sp > sp0 || sp < st - o.stack_size) { bad("stack:range", fmt("sp %#llx, stack [%#llx,%#llx)", (long long)sp, (long long)(st - o.stack_size), (long long)st)); return; } const u64 lo = sp, hi = sp0; { u64 save = sp0 - sp; mem(sp, save); }
		u64 p = sp; auto q = [&]() -> u64 { if (p + 8 > hi) { bad("stack:truncated", "vectors run past the stack"); return 0; } u64 v = peek<u64>(p); p += 8; return v; }; std::vector<std::pair<u64, u64>> used; if (q() != na) bad("stack:argc", "wrong count");
		auto strings = [&](const std::vector<std::string>& v, const char* k) { for (auto& s : v) { u64 a = q(); if (a < lo || a + s.size() + 1 > hi || memcmp(&shadow[a], s.c_str(), s.size() + 1)) bad(fmt("stack:%s", k), fmt("pointer %#llx does not hold the string", (long long)a)); else used.push_back({a, s.size() + 1}); } expect(q() == 0, "stack:null", k); }; strings(args, "argv"); strings(env, "envp"); if (failed) return;
		std::map<u64, u64> aux; for (int i = 0; i < 64; i++) { u64 k = q(), v = q(); if (k == 0) break; expect(!aux.count(k), "auxv:duplicate", fmt("%llu", (long long)k)); aux[k] = v; } u64 vend = p; auto ax = [&](u64 k, u64 v, const char* n) { expect(aux.count(k) && aux[k] == v, "auxv", fmt("%s is %#llx, expected %#llx", n, (long long)(aux.count(k) ? aux[k] : 0), (long long)v)); }; ax(6, 4096, "AT_PAGESZ"); ax(9, TEXT, "AT_ENTRY"); ax(4, 56, "AT_PHENT"); ax(5, 2, "AT_PHNUM");
		expect(aux.count(25) && aux[25] >= vend && aux[25] + 16 <= hi, "auxv:random", "AT_RANDOM is not 16 bytes on the stack"); used.push_back({aux[25], 16}); used.push_back({sp, vend - sp}); std::sort(used.begin(), used.end()); for (size_t i = 1; i < used.size(); i++) expect(used[i - 1].first + used[i - 1].second <= used[i].first, "stack:overlap", fmt("objects at %#llx and %#llx overlap", (long long)used[i - 1].first, (long long)used[i].first));
		if (aux.count(11)) expect(aux[11] == aux[12] && aux[13] == aux[14], "auxv:ids", "real and effective ids differ");
	}
};
int main(int argc, char** argv) {
	init(argc, argv); HI = strtoull(kv("high", "0").c_str(), 0, 0); TEXT += HI; DATA += HI; std::string mode = kv("mode", "sys"); setenv("TZ", "UTC0", 1); tzset(); if (!opt.status.empty()) seen_file = fopen((opt.status + ".seen").c_str(), "wb");
	if (kv("filter", "1") == "0") {} else if (!install_filter()) { printf("SAMPLE no seccomp here\n"); vstat("no_seccomp"); } else vstat("seccomp_filters");
	u64 n = opt.cases ? opt.cases : 200; if (mode == "sys") n = std::max<u64>(n, 1);
	run_cases(n, [&](u64, Rng& r) {
		Mon m(r, mode == "mmap" ? 0x180000 + r.below(3) * 0x333 : 0x60000 + r.below(0x10000)); if (m.failed) return;
		if (mode == "stack") { for (int i = 0; i < 20 && !m.failed; i++) m.stack(); return; }
		int steps = mode == "mmap" ? 60 : 150; for (int i = 0; i < steps && !m.failed; i++) mode == "mmap" ? m.map_step() : m.step(); seen("histories", hash(m.shadow.v.data(), m.shadow.v.size()));
	});
	return finish();
}
