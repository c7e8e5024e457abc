// Library-heavy C++ in sections whose output is the same on every correct machine.
#include <algorithm>
#include <atomic>
#include <any>
#include <bitset>
#include <charconv>
#include <complex>
#include <condition_variable>
#include <coroutine>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <format>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <regex>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <valarray>
#include <variant>
#include <vector>
#include <csignal>
#include <csetjmp>
using namespace std; typedef uint64_t u64;
static u64 H, S; static u64 rnd() { u64 z = (S += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void mix(u64 x) { H = (H ^ x) * 0x100000001b3ull; H ^= H >> 29; }
static void mix(const string& s) { for (unsigned char c : s) mix((u64)c); mix(s.size()); }
struct Sect { const char* name; void (*f)(); }; static vector<Sect>& sects() { static vector<Sect> v; return v; }
#define SECTION(n) static void n(); static int reg_##n = (sects().push_back({#n, n}), 0); static void n()

struct Err : runtime_error { int v; Err(int v) : runtime_error("err" + to_string(v)), v(v) {} };
struct Guard { u64 k; ~Guard() { mix(k); } };
static void A_bad();
[[gnu::noinline]] static int thrower(int d, int kind) { Guard g{(u64)d}; string local(d * 7, 'x'); if (d == 0) switch (kind) { case 0: throw Err(5); case 1: throw 42; case 2: throw string("text"); case 3: throw bad_alloc(); case 4: vector<int>(3).at(7); case 5: throw 2.5; default: return 9; } int x = thrower(d - 1, kind); mix(local); return x + d; }
SECTION(exceptions) {
	for (int k = 0; k < 14; k++) {
		try { Guard g{1000}; try { mix(thrower(rnd() % 9, k % 7)); } catch (const Err& e) { mix(e.what()); mix(e.v); if (k & 1) throw; } catch (int i) { mix(i); throw_with_nested(logic_error("outer")); } }
		catch (const exception& e) { mix(string(e.what()).substr(0, 5)); try { rethrow_if_nested(e); } catch (int n) { mix(n + 1); } }
		catch (const string& s) { mix(s); } catch (...) { exception_ptr p = current_exception(); try { rethrow_exception(p); } catch (double d) { mix((u64)(d * 4)); } catch (...) { mix(77); } }
	}
	printf("exceptions %d\n", uncaught_exceptions());
}
SECTION(library_exceptions) { A_bad(); try { any a = 5; any_cast<string>(a); } catch (const bad_any_cast&) { mix(8); } try { variant<int, string> v = 5; get<string>(v); } catch (const bad_variant_access&) { mix(9); } try { vector<int> bad; bad.reserve(~0ull >> 2); } catch (const length_error&) { mix(21); } try { stoi("99999999999"); } catch (const out_of_range&) { mix(3); } packaged_task<int(int)> pt([](int x) { if (x > 3) throw Err(x); return x; }); auto pf = pt.get_future(); thread t2(move(pt), 9); t2.join(); try { pf.get(); } catch (const Err& e) { mix(e.v); } }
struct A { virtual ~A() { mix(1); } virtual int f(int x) { return x + 1; } int a = 3; }; struct B : virtual A { int f(int x) override { return x * 2 + a; } int b = 4; }; struct C : virtual A { virtual int g() { return a + 9; } int c = 5; }; struct D : B, C { int f(int x) override { return B::f(x) ^ c; } int g() override { return b * c; } };
static void A_bad() { try { A a; (void)dynamic_cast<B&>(a); } catch (const bad_cast&) { mix(55); } }
SECTION(objects) {
	vector<unique_ptr<A>> v; for (int i = 0; i < 40; i++) switch (rnd() % 4) { case 0: v.push_back(make_unique<A>()); break; case 1: v.push_back(make_unique<B>()); break; case 2: v.push_back(make_unique<C>()); break; default: v.push_back(make_unique<D>()); }
	for (auto& p : v) { mix(p->f(rnd() % 100)); if (auto* c = dynamic_cast<C*>(p.get())) mix(c->g()); if (auto* b = dynamic_cast<B*>(p.get())) mix(b->b); mix(string(typeid(*p).name())); }
	shared_ptr<A> s = make_shared<D>(); weak_ptr<A> w = s; auto t = s; mix(w.use_count()); s.reset(); t.reset(); mix(w.expired());
	int (A::*pm)(int) = &A::f; D d; mix((d.*pm)(4)); function<int(int)> fn = [&](int x) { return d.f(x) + v.size(); }; mix(fn(5)); printf("%d\n", fn(7));
}
SECTION(containers) {
	map<string, int> m; unordered_map<int, string> u; set<u64> st; deque<int> dq; list<int> l; priority_queue<int> pq; multimap<int, int> mm;
	for (int i = 0; i < 600; i++) { int k = rnd() % 97; string s = "k" + to_string(k); switch (rnd() % 9) { case 0: m[s] += i; break; case 1: m.erase(s); break; case 2: u[k] += s; break; case 3: u.erase(k); break; case 4: st.insert(rnd() % 50); dq.push_front(k); break; case 5: if (!dq.empty()) dq.pop_back(); dq.push_back(i); break; case 6: l.push_back(k); if (l.size() > 20) l.sort(), l.unique(); break; case 7: pq.push(k); if (pq.size() > 9) { mix(pq.top()); pq.pop(); } break; default: mm.emplace(k & 7, i); auto r = mm.equal_range(k & 7); mix(distance(r.first, r.second)); } }
	for (auto& [k, v] : m) mix(k), mix(v); vector<int> keys; for (auto& [k, v] : u) keys.push_back(k), H += v.size() * k; sort(keys.begin(), keys.end()); for (int k : keys) mix(u[k]); for (auto x : st) mix(x); for (int x : dq) mix(x); for (int x : l) mix(x); printf("%zu %zu %zu\n", m.size(), u.size(), st.size());
}
SECTION(algorithms) {
	vector<int> v(500); for (auto& x : v) x = rnd() % 1000; auto w = v; sort(w.begin(), w.end()); mix(is_sorted(w.begin(), w.end())); for (int x : w) mix(x); auto y = v; stable_sort(y.begin(), y.end(), [](int a, int b) { return a % 10 < b % 10; }); for (int x : y) mix(x); nth_element(v.begin(), v.begin() + 100, v.end()); mix(v[100]); partial_sort(y.begin(), y.begin() + 20, y.end(), greater<>()); for (int i = 0; i < 20; i++) mix(y[i]);
	string p = "abcde"; int n = 0; do { n++; mix(p); } while (next_permutation(p.begin(), p.end())); mix(n); mix(accumulate(v.begin(), v.end(), 0)); make_heap(v.begin(), v.end()); sort_heap(v.begin(), v.end()); mix(v[77]); rotate(v.begin(), v.begin() + 33, v.end()); mix(v[0]); mt19937 g(rnd()); mt19937_64 g64(5); for (int i = 0; i < 700; i++) mix(g()), mix(g64()); reverse(v.begin(), v.end()); v.erase(unique(v.begin(), v.end()), v.end()); mix(v.size()); mix(lower_bound(w.begin(), w.end(), 500) - w.begin()); printf("%d %d\n", gcd(462, 1071), lcm(21, 6));
}
SECTION(streams) {
	for (int i = 0; i < 12; i++) { ostringstream o; double d = (double)(int64_t)rnd() / (double)(1ull << (rnd() % 60)); o << d << " " << fixed << d / 1e9 << " " << hex << (rnd() >> 20) << " " << dec << (int)rnd() << boolalpha << (i & 1) << " " << scientific << d; o.width(20); o.fill('*'); o << left << "w" << right << 5; mix(o.str()); istringstream is(o.str()); double e; string s; is >> e >> s; mix(s); u64 q; memcpy(&q, &e, 8); mix(q); }
	string line; mix(!getline(cin, line)); cout << setprecision(3) << 3.14159 << endl; cerr << "";
}
SECTION(formats) { mix(format("{:>8}|{:<6}|{:^9}|{:+}|{:#x}|{:.3e}|{}", 42, "ab", 'c', 7, 255, 12345.678, true)); char b[64]; auto r = to_chars(b, b + 64, 0.1 + 0.2); *r.ptr = 0; mix(string(b)); double z; from_chars("1.7976931348623157e308", b + 0, z); int q = 0; string t = "-12345"; from_chars(t.data(), t.data() + t.size(), q); mix(q); mix(stoull("18446744073709551615")); puts(b); }
SECTION(regexes) { regex r("(\\w+)@(\\w+)\\.(com|org)"); string s = "mail bob@site.com and amy@place.org or x@y.net"; for (sregex_iterator i(s.begin(), s.end(), r), e; i != e; ++i) { mix((*i)[1].str()); mix((*i)[3].str()); } string o = regex_replace(s, regex("[aeiou]"), "_"); mix(o); mix(regex_match("2024-11-05", regex("\\d{4}-\\d\\d-\\d\\d"))); cout << o << endl; }
SECTION(variants) { vector<variant<int, string, double, vector<int>>> v; for (int i = 0; i < 30; i++) switch (rnd() % 4) { case 0: v.emplace_back((int)rnd()); break; case 1: v.emplace_back(string(rnd() % 30, 'q')); break; case 2: v.emplace_back((double)(int)rnd()); break; default: v.emplace_back(vector<int>(rnd() % 9, i)); } for (auto& x : v) visit([](auto& y) { if constexpr (requires { y.size(); }) mix(y.size()); else mix((u64)(int64_t)y); }, x); any a = string("any"); mix(any_cast<string>(a)); mix(any_cast<int>(&a) == nullptr); optional<int> o; mix(o.value_or(6)); tuple<int, string, char> t{1, "t", 'c'}; auto [p, q, r] = t; mix(p); mix(q); bitset<200> bs; for (int i = 0; i < 60; i++) bs.flip(rnd() % 200); mix(bs.count()); mix((bs << 13 ^ bs >> 7).to_string()); mix(v[0].index()); }
SECTION(arithmetic) { complex<double> c(1, 2), d(-3, 0.5); for (int i = 0; i < 10; i++) { c = c * d + complex<double>(i, 1); c /= 3.0; } mix((u64)(int64_t)(c.real() * 1000)); valarray<int> v(50); for (auto& x : v) x = rnd() % 100; valarray<int> w = v * v + 3; mix(w.sum()); mix(w.max()); mix(((valarray<int>)v[slice(3, 10, 4)]).sum()); __int128 x = 1; for (int i = 1; i < 30; i++) x = x * i + rnd() % 9; mix((u64)(x >> 64)); mix((u64)x); long double ld = 1.5L; for (int i = 1; i < 20; i++) ld = ld * 1.25L + i / 3.0L; mix((u64)(ld * 16)); double s = 0; for (int i = 1; i < 200; i++) s += 1.0 / i / i; u64 q; memcpy(&q, &s, 8); mix(q); printf("%.15g %.6Lg\n", s, (long double)0.5L); }
struct Co { struct promise_type { u64 v; Co get_return_object() { return {coroutine_handle<promise_type>::from_promise(*this)}; } suspend_always initial_suspend() { return {}; } suspend_always final_suspend() noexcept { return {}; } suspend_always yield_value(u64 x) { v = x; return {}; } void return_void() {} void unhandled_exception() { v = 4444; } }; coroutine_handle<promise_type> h; };
static Co fib(int n) { u64 a = 0, b = 1; Guard g{9}; while (n--) { co_yield a; tie(a, b) = make_pair(b, a + b); } }
SECTION(coroutines) { Co c = fib(30), d = fib(10); while (!c.h.done()) { c.h.resume(); mix(c.h.promise().v); if (!d.h.done()) d.h.resume(); } d.h.destroy(); c.h.destroy(); }
static thread_local int tls = 5; static thread_local string tlss = "init";
SECTION(threads) {
	mutex m; condition_variable cv; deque<int> q; u64 sum = 0, prod = 0; int done = 0; atomic<int> at = 0; vector<thread> t;
	for (int k = 0; k < 3; k++) t.emplace_back([&, k] { tls += k; tlss += "x"; for (int i = 0; i < 50; i++) { { lock_guard<mutex> g(m); q.push_back(k * 100 + i); prod += k * 100 + i; } cv.notify_one(); if (i % 7 == 0) this_thread::yield(); at.fetch_add(tls); } lock_guard<mutex> g(m); done++; cv.notify_all(); });
	for (int k = 0; k < 2; k++) t.emplace_back([&] { unique_lock<mutex> g(m); for (;;) { cv.wait(g, [&] { return !q.empty() || done == 3; }); if (q.empty()) break; sum += q.front(); q.pop_front(); } });
	for (auto& x : t) x.join(); mix(sum == prod); mix(sum); mix(at); mix(tls); mix(tlss); once_flag of; int n = 0; for (int i = 0; i < 3; i++) call_once(of, [&] { n++; }); mix(n); promise<int> p; auto f = p.get_future(); thread th([&] { p.set_value(17); }); mix(f.get()); th.join(); printf("threads %llu\n", (unsigned long long)sum);
}
SECTION(memory) { vector<string*> v; for (int i = 0; i < 2000; i++) { if (v.size() < 50 || rnd() % 3) v.push_back(new string(rnd() % 400, 'a' + i % 26)); else { swap(v[rnd() % v.size()], v.back()); mix(*v.back()); delete v.back(); v.pop_back(); } } u64 n = 0; for (auto* s : v) { n += s->size(); delete s; } mix(n); vector<char> big(3 << 20, 'b'); mix(big[12345]); big.resize(5 << 20); mix((u64)big.back()); printf("%llu\n", (unsigned long long)n); }
SECTION(aligned) { void* p = aligned_alloc(256, 1024); mix((u64)p % 256); memset(p, 1, 1024); free(p); struct alignas(64) X { char c[70]; }; auto* x = new X[5]; mix((u64)x % 64); delete[] x; }
int main(int argc, char** argv) {
	auto report = [](const char* n) { cout.flush(); printf("%s %016llx\n", n, (unsigned long long)H); fflush(stdout); H = 1469598103934665603ull; };
	u64 seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1, skip = argc > 2 ? strtoull(argv[2], 0, 16) : 0; H = 1; report("start"); for (int i = 3; i < argc; i++) mix(string(argv[i])); mix(string(getenv("VERIF_ENV") ? getenv("VERIF_ENV") : "")); report("args");
	for (int round = 0; round < 2; round++) { int i = 0; for (auto& s : sects()) { if (!(skip >> i & 1)) { S = seed * 77 + round * 50 + i; s.f(); report(s.name); } i++; } }
	return (int)(seed & 127);
}
