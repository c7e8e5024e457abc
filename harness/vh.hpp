// Common support for the monitoring harnesses: deterministic RNG, the line protocol the
// python runner reads, per-case watchdog and crash attribution.
//
// Protocol (stdout):  VIOL <key>\t<case>\t<detail>     an oracle saw a violation
//                     STAT <name> <n>                 coverage counters
//                     SAMPLE <text>                   a few observed executions
//                     DONE                            the workload ran to its end
// A crash (sanitizer report, signal, watchdog) is attributed by the runner to the text last
// stored with vh::at(); the runner then resumes behind that case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <string_view>
#include <map>
#include <set>
#include <unordered_set>
#include <vector>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <atomic>

namespace vh {
typedef uint64_t u64;
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(mix(seed ^ 0x5bf03635d1a2c3e7ull)) { next(); }
	// seeds are scrambled first: neighbouring seeds must not give shifted copies of one stream
	static u64 mix(u64 z) { z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull; z = (z ^ (z >> 33)) * 0xc4ceb9fe1a85ec53ull; return z ^ (z >> 33); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 operator()() { return next(); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((u64)(b - a) + 1); }
	bool chance(int num, int den) { return below(den) < (u64)num; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	u64 interesting() {
		static const u64 t[] = {0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001,
			0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, ~0ull, ~1ull, 0xffffffff80000000, 0xffffffff7fffffff, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa,
			0x0102030405060708, 0x8070605040302010, 0xfffffffffffff800, 0x7ff, 0x800, 63, 64, 31, 32, 0x1000, 0xfff, 0xffffffff00000000};
		switch (below(4)) {
		case 0: return t[below(sizeof t / sizeof *t)];
		case 1: return next();
		case 2: return (u64)(int64_t)(int32_t)next();
		default: { u64 v = next() >> below(64); return chance(1, 4) ? ~v : v; }
		}
	}
};
inline u64 hash(const void* p, size_t n, u64 h = 1469598103934665603ull) { auto b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }

struct Opts { u64 seed = 1, cases = 0, from = 0; int64_t only = -1; bool thorough = false; std::map<std::string, std::string> kv; std::string status; };
inline Opts opt;
struct Status { std::atomic<u64> caseno; char text[4080]; };
inline Status* status = nullptr;
inline std::map<std::string, u64> stats;
inline std::map<std::string, std::unordered_set<u64>> seen_sets;
inline std::map<std::string, u64> viol_counts;
inline int samples = 0;
inline unsigned watchdog_s = 60;

inline void vstat(const std::string& n, u64 k = 1) { stats[n] += k; }
inline void seen(const std::string& n, u64 key) { stats[n + ".obs"]++; seen_sets[n].insert(key); }
inline void seen(const std::string& n, const std::string& key) { seen(n, hash(key.data(), key.size())); }
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void at(u64 caseno, const std::string& text) { if (status) { status->caseno = caseno; snprintf(status->text, sizeof status->text, "%s", text.c_str()); } alarm(watchdog_s); }
inline void at(u64 caseno, const char* text) { if (status) { status->caseno = caseno; strncpy(status->text, text, sizeof status->text - 1); } alarm(watchdog_s); }
inline std::string clean(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
inline void viol(const std::string& key, const std::string& detail) {
	u64& n = viol_counts[key];
	if (n++ < 3) { printf("VIOL %s\t%lld\t%s\n", clean(key).c_str(), status ? (long long)status->caseno : -1, clean(detail).c_str()); fflush(stdout); }
}
inline void sample(const std::string& s) { if (samples++ < 6) printf("SAMPLE %s\n", clean(s).c_str()); }
inline void on_alarm(int) { static const char m[] = "\nVH-WATCHDOG: case exceeded its time limit\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
inline void init(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 0);
		else if (a == "--cases") opt.cases = strtoull(val().c_str(), 0, 0);
		else if (a == "--from") opt.from = strtoull(val().c_str(), 0, 0);
		else if (a == "--only") opt.only = strtoll(val().c_str(), 0, 0);
		else if (a == "--thorough") opt.thorough = true;
		else if (a == "--status") opt.status = val();
		else if (a.rfind("--", 0) == 0) { std::string k = a.substr(2); opt.kv[k] = val(); }
	}
	if (!opt.status.empty()) {
		int fd = open(opt.status.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd >= 0 && ftruncate(fd, sizeof(Status)) == 0) { void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) status = (Status*)p; close(fd); }
	}
	if (!status) status = (Status*)calloc(1, sizeof(Status));
	signal(SIGALRM, on_alarm);
	if (const char* w = getenv("VH_WATCHDOG")) watchdog_s = atoi(w);
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
}
inline std::string kv(const std::string& k, const std::string& d = "") { auto it = opt.kv.find(k); return it == opt.kv.end() ? d : it->second; }
inline FILE* seen_file = nullptr; // opened early by harnesses that forbid themselves to open files later
inline int finish() {
	alarm(0);
	for (auto& [k, v] : seen_sets) printf("STAT %s.distinct %zu\n", k.c_str(), v.size());
	for (auto& [k, v] : stats) printf("STAT %s %llu\n", k.c_str(), (unsigned long long)v);
	for (auto& [k, v] : viol_counts) if (v > 3) printf("STAT viol_total.%s %llu\n", clean(k).c_str(), (unsigned long long)v);
	if (!opt.status.empty()) { // the observed sets, for the runner to unite over all shards
		if (FILE* f = seen_file ? seen_file : fopen((opt.status + ".seen").c_str(), "wb")) {
			for (auto& [k, v] : seen_sets) { char nm[64] = {}; strncpy(nm, k.c_str(), 63); u64 n = v.size(); fwrite(nm, 64, 1, f); fwrite(&n, 8, 1, f); for (u64 x : v) fwrite(&x, 8, 1, f); }
			fclose(f); } }
	printf("DONE\n"); fflush(stdout);
	return 0;
}
// Runs body(caseno, rng) for the selected cases.  Each case is a function of (seed, caseno) alone.
template <class F> inline void run_cases(u64 n, F body) {
	u64 lo = opt.from, hi = n;
	if (opt.only >= 0) { lo = opt.only; hi = lo + 1; }
	for (u64 i = lo; i < hi; i++) { Rng r(opt.seed * 1000003 + i); at(i, ""); body(i, r); vstat("cases"); }
}
} // namespace vh
