// Guest container monitor: random histories of C++ and Rust strings and vectors in guest memory, changed in turn by
// the host's views and by the guest's own libstdc++.  Judges: models (std::string, std::vector), the guest's own
// reading of each object, an independent reading of the memory layout, and the heap's list of live blocks, which
// must be exactly the blocks the objects own.
#include "lh.hpp"
#include <libloong/guest_datatypes.hpp>
#include <libloong/native/heap.hpp>
#include <fstream>
#include <sstream>
using namespace vh; using namespace loongarch;
typedef std::string S; typedef std::vector<int> VI; typedef std::vector<S> VS; typedef std::vector<VI> VV;
struct Comp { CppString a; CppVector<CppString> b; CppVector<int> c; long k; void fix_addresses(Machine& m, address_t self) { a.fix_addresses(m, self + offsetof(Comp, a)); b.fix_addresses(m, self + offsetof(Comp, b)); c.fix_addresses(m, self + offsetof(Comp, c)); } };
struct CompM { S a; VS b; VI c; long k = 0; bool operator==(const CompM& o) const { return a == o.a && b == o.b && c == o.c && k == o.k; } };
static std::string elf; static u64 HEAP;
struct World; static World* cur;
typedef std::set<u64> Owned;
struct World {
	Rng& r; std::unique_ptr<Machine> M; MachineOptions o; u64 hsize; bool big, lacked = false; std::string log, what, prog; u64 scratch; bool bad_seen = false; std::map<u64, u64> live; Owned before, raw;
	World(Rng& r) : r(r) {
		big = r.chance(2, 3); hsize = 4 << 20; o.memory_max = 16 << 20; o.stack_size = 0x40000; o.brk_size = 0x10000; o.use_shared_execute_segments = true; M = std::make_unique<Machine>(std::string_view(elf), o); M->setup_linux({"d"}, {"LC_ALL=C"});
		u64 base = M->memory.mmap_allocate(hsize); M->setup_accelerated_heap(base, hsize); M->memory.set_exit_address(M->address_of("fast_exit")); M->simulate(50000000); vstat("boot_instructions", M->instruction_counter()); scratch = M->address_of("scratch"); HEAP = base; if (!big) { size_t top = 0; for (auto* c = &M->arena().base_chunk(); c; c = c->next) if (c->free) top = std::max(top, c->size); M->arena().malloc(top - 16 * r.range(8, 400)); } chunks(); before.clear(); for (auto& [a, n] : live) before.insert(a);
	}
	void chunks() { live.clear(); for (auto* c = &M->arena().base_chunk(); c; c = c->next) if (!c->free) live[c->data] = c->size; }
	void bad(const std::string& k, const std::string& d) { bad_seen = true; viol(k, what + ": " + d + " | " + (log.size() > 600 ? "..." + log.substr(log.size() - 600) : log)); }
	void note(const std::string& w) { what = w; log += " " + w + ";"; at(status->caseno, log.size() > 3000 ? log.substr(log.size() - 3000) : log); }
	u64 word(u64 a) { u64 v; memcpy(&v, M->memory.arena_ptr() + a, 8); return v; }
	S bytes(u64 a, u64 n) { return S((const char*)M->memory.arena_ptr() + a, n); }
	bool inside(u64 a, u64 n) { u64 e = M->memory.arena_size(); return a <= e && n <= e - a; }
	S text(size_t max = 60) { size_t n; switch (r.below(6)) { case 0: n = r.range(13, 18); break; case 1: n = 0; break; case 2: n = r.below(max + 1); break; default: n = r.below(16); } if (max == 60 && big && r.chance(1, 80)) { static const size_t L[] = {128, 256, 512, 1024, 2048, 4096}; n = L[r.below(6)] + r.range(-2, 2); vstat("long_texts"); } S s; for (size_t i = 0; i < n; i++) s += (char)(r.chance(1, 8) ? 0 : r.chance(1, 2) ? 32 + r.below(90) : r.below(256)); return s; }
	// independent layout readers: return an error or "", collect owned blocks
	S block(u64 p, u64 need, Owned& own) { auto it = live.find(p); if (it == live.end()) return fmt("points at %#llx, which is no live heap block", (long long)p); if (it->second < need) return fmt("block %#llx has %llu bytes, needs %llu", (long long)p, (long long)it->second, (long long)need); if (!own.insert(p).second) return fmt("block %#llx is owned twice", (long long)p); return ""; }
	S rd(u64 a, S& out, Owned& own) {
		u64 p = word(a), n = word(a + 8); if (p == a + 16) { if (n > 15) return "local text longer than 15"; } else { u64 cap = word(a + 16); if (cap < n || cap > hsize) return fmt("capacity %llu below size %llu", (long long)cap, (long long)n); S e = block(p, cap + 1, own); if (!e.empty()) return "string " + e; }
		out = bytes(p, n); if (bytes(p, n + 1)[n]) return "string is not NUL terminated"; return ""; }
	S vec(u64 a, u64 sz, u64& b, u64& n, Owned& own) { b = word(a); u64 e = word(a + 8), c = word(a + 16); n = 0; if (!b) return e || c ? "null vector with an end" : ""; if (e < b || c < e || (e - b) % sz) return fmt("vector pointers %#llx %#llx %#llx", (long long)b, (long long)e, (long long)c); S x = block(b, c - b, own); n = (e - b) / sz; return x.empty() ? "" : "vector " + x; }
	S rd(u64 a, VI& out, Owned& own) { u64 b, n; S e = vec(a, 4, b, n, own); if (!e.empty()) return e; out.resize(n); if (n) memcpy(out.data(), M->memory.arena_ptr() + b, n * 4); return ""; }
	template <class T> S rdv(u64 a, u64 sz, std::vector<T>& out, Owned& own) { u64 b, n; S e = vec(a, sz, b, n, own); if (!e.empty()) return e; out.resize(n); for (u64 i = 0; i < n; i++) { e = rd(b + i * sz, out[i], own); if (!e.empty()) return fmt("element %llu: ", (long long)i) + e; } return ""; }
	S rd(u64 a, VS& out, Owned& own) { return rdv(a, 32, out, own); }
	S rd(u64 a, VV& out, Owned& own) { return rdv(a, 24, out, own); }
	S rd(u64 a, CompM& out, Owned& own) { S e = rd(a, out.a, own); if (e.empty()) e = rd(a + 32, out.b, own); if (e.empty()) e = rd(a + 56, out.c, own); out.k = word(a + 80); return e; }
	// Rust: capacity, pointer, length; no block when capacity is zero, but never a null pointer
	S rust(u64 a, u64 sz, u64 align, u64& p, u64& n, Owned& own) { u64 c = word(a); p = word(a + 8); n = word(a + 16); if (n > c) return fmt("length %llu beyond capacity %llu", (long long)n, (long long)c); if (p == 0) return "null pointer"; if (p % align) return "misaligned pointer"; if (c == 0) return ""; S x = block(p, c * sz, own); return x.empty() ? "" : "rust " + x; }
	S rdr(u64 a, S& out, Owned& own) { u64 p, n; S e = rust(a, 1, 1, p, n, own); if (e.empty()) out = bytes(p, n); return e; }
	S rdr(u64 a, VI& out, Owned& own) { u64 p, n; S e = rust(a, 4, 4, p, n, own); if (!e.empty()) return e; out.resize(n); if (n) memcpy(out.data(), M->memory.arena_ptr() + p, n * 4); return ""; }
	S rdr(u64 a, VS& out, Owned& own) { u64 p, n; S e = rust(a, 24, 8, p, n, own); if (!e.empty()) return e; out.resize(n); for (u64 i = 0; i < n && e.empty(); i++) e = rdr(p + i * 24, out[i], own); return e; }
	void put(const S& t) { M->memory.copy_to_guest(scratch, t.data(), t.size()); }
	template <class... A> long guest(const char* f, A... a) { vstat("guest_calls"); u64 sp = M->cpu.reg(3); long x = M->vmcall<long>(f, a...); M->cpu.reg(3) = sp; return x; }
};
// what the guest itself reads
static void ser(S& o, const S& s) { u64 n = s.size(); o.append((char*)&n, 8); o += s; }
static void ser(S& o, const VI& v) { u64 n = v.size(); o.append((char*)&n, 8); o.append((const char*)v.data(), n * 4); }
template <class T> static void ser(S& o, const std::vector<T>& v) { u64 n = v.size(); o.append((char*)&n, 8); for (auto& x : v) ser(o, x); }
static void ser(S& o, const CompM& c) { ser(o, c.a); ser(o, c.b); ser(o, c.c); o.append((const char*)&c.k, 8); }
struct Obj { World& w; const char* kind; Obj(World& w, const char* k) : w(w), kind(k) {} virtual ~Obj() {} virtual void step() = 0; virtual void check(Owned&, bool guest) = 0; virtual bool movefrom(Obj&) { return false; } virtual void adopt() = 0; virtual u64 digest() = 0; };
#define HOST(name) (w.note(S(kind) + "." name), seen("host_operations", S(kind) + name), vstat("host_operations"))
#define GUEST(k) (w.note(S(kind) + fmt(".guest%d", (int)(k))), seen("guest_operations", S(kind) + fmt("%d", (int)(k))))
template <class G, class Mod, bool RUST> struct Base : Obj {
	ScopedArenaObject<G> g; Mod m; bool moved = false;
	template <class... A> Base(World& w, const char* k, Mod m, A&&... a) : Obj(w, k), g(*w.M, std::forward<A>(a)...), m(std::move(m)) {}
	virtual const char* getter() { return nullptr; }
	virtual S host(Mod&) = 0;
	u64 digest() override { S s; ser(s, m); return hash(s.data(), s.size()); }
	S raw(Mod& x, Owned& own) { if constexpr (RUST) return w.rdr(g.address(), x, own); else return w.rd(g.address(), x, own); }
	void check(Owned& own, bool guest) override {
		if (moved) return; S e = w.block(g.address(), sizeof(G), own); if (!e.empty()) return w.bad(S(kind) + ":object", e); if (g.operator->() != (G*)((char*)w.M->memory.arena_ptr() + g.address())) w.bad(S(kind) + ":pointer", "host pointer is elsewhere");
		Mod x{}; e = raw(x, own); if (!e.empty()) return w.bad(S(kind) + ":layout", e); if (!(x == m)) return w.bad(S(kind) + ":contents", "guest memory holds other contents");
		Mod y{}; e = host(y); if (!e.empty()) return w.bad(S(kind) + ":host", e); if (!(y == m)) return w.bad(S(kind) + ":host-read", "the host view reads other contents");
		if (guest && getter()) { S want; ser(want, m); long n = w.guest(getter(), g.address()); if (n < 0) w.bad(S(kind) + ":guest-read", "the guest finds the object broken"); else if (n != (long)want.size() || w.bytes(w.scratch, n) != want) w.bad(S(kind) + ":guest-read", "the guest reads other contents"); }
	}
	void adopt() override { if (moved) return; Mod x{}; Owned o; S e = raw(x, o); if (!e.empty()) w.bad(S(kind) + ":after-failure", e); m = x; }
	bool movefrom(Obj& o) override { if (strcmp(o.kind, kind)) return false; auto* p = static_cast<Base*>(&o); if (p->moved) return false; HOST("move"); g = std::move(p->g); m = p->m; moved = false; if (p != this) p->moved = true; return true; }
};
struct Str : Base<CppString, S, false> {
	Str(World& w, S t) : Base(w, "string", t, std::string_view(t)) {}
	const char* getter() override { return "gs_get"; }
	S host(S& x) override { x = g->to_string(*w.M); if (S(g->to_view(*w.M)) != x) return "view and copy differ"; if (g->size() != x.size() || g->empty() != x.empty()) return "size"; auto* v = w.M->memory.memarray<CppString>(g.address()); if (v->to_string(*w.M) != x) return "another view differs"; auto copy = w.M->memory.read<CppString>(g.address()); if (copy.to_string(*w.M) != x) return "a copy reads other text"; if (m.size() > 20) { try { g->to_string(*w.M, m.size() - 1); return "max_len ignored"; } catch (const std::runtime_error&) {} } return ""; }
	void step() override {
		S t = w.text(); if (moved && w.r.chance(1, 2)) { HOST("assign-moved"); g = std::string_view(t); m = t; moved = false; return; } if (moved) return;
		if (!w.big || w.r.chance(1, 2)) switch (w.r.below(6)) {
			case 0: HOST("assign"); g = std::string_view(t); m = t; break;
			case 1: HOST("set_string"); g->set_string(*w.M, g.address(), t); m = t; break;
			case 2: HOST("set_string-copy"); g->set_string(*w.M, g.address(), t.data(), t.size(), false); m = t; break;
			case 3: { HOST("assign-object"); CppString s(*w.M, t); g = s; m = t; break; }
			case 4: { HOST("free"); g->free(*w.M); g->fix_addresses(*w.M, g.address()); g->data[0] = 0; m.clear(); break; }
			default: { HOST("argument"); CppString s(*w.M, t); long n = w.guest("gs_get", s); S want; ser(want, t); if (n != (long)want.size() || w.bytes(w.scratch, n) != want) w.bad("string:argument", "a string argument arrives as other text"); s.free(*w.M); }
		} else {
			long op = w.r.below(13); u64 n = w.r.below(w.r.chance(1, 3) ? 120 : 20); w.put(t); GUEST(op); if (op == 10 && t.empty()) t = S(w.bytes(w.scratch, 1)); long len = op == 10 ? 1 : t.size();
			switch (op) { case 0: case 7: case 8: case 9: m = t; break; case 1: m += t; break; case 2: m.erase(n % (m.size() + 1)); break; case 3: case 4: break; case 5: m.clear(); break; case 6: m.insert(n % (m.size() + 1), t); break; case 10: m += t[0]; break; case 11: if (!m.empty()) m.pop_back(); break; default: m.resize(n, 'x'); }
			w.guest("gs_op", g.address(), op, n, len);
		}
	}
};
struct Ints : Base<CppVector<int>, VI, false> {
	Ints(World& w, VI v) : Base(w, "ints", v, v) {}
	Ints(World& w, size_t n, int) : Base(w, "ints", VI(n), n) {}
	const char* getter() override { return "gi_get"; }
	S host(VI& x) override { x = g->to_vector(*w.M); if (g->size() != m.size() || g->empty() != m.empty()) return "size"; if (g->capacity() < g->size()) return "capacity"; size_t i = 0; for (auto it = g->begin(*w.M); it != g->end(*w.M); ++it, i++) if (i >= m.size() || *it != m[i]) return "iteration"; if (i != m.size()) return "iteration length";
		if (!m.empty()) { size_t k = w.r.below(m.size()); if (g->at(*w.M, k) != m[k] || w.word(g->address_at(k) & ~7ull) != w.word(g->address_at(k) & ~7ull)) return "at"; if (((const CppVector<int>&)*g).as_array(*w.M)[k] != m[k]) return "as_array"; } try { g->at(*w.M, m.size() + w.r.below(3)); return "index out of range accepted"; } catch (const std::out_of_range&) {} return ""; }
	void step() override {
		VI v; for (int n = w.r.below(w.r.chance(1, 6) ? 60 : 8); n--;) v.push_back((int)w.r.next()); if (moved && w.r.chance(1, 2)) { HOST("assign-moved"); g = v; m = v; moved = false; return; } if (moved) return; int x = (int)w.r.next();
		if (!w.big || w.r.chance(1, 2)) switch (w.r.below(11)) {
			case 0: HOST("push_back"); g->push_back(*w.M, x); m.push_back(x); break;
			case 1: { HOST("push_back-copy"); const int y = x; g->push_back(*w.M, y); m.push_back(y); break; }
			case 2: HOST("pop_back"); if (m.empty()) { try { g->pop_back(*w.M); w.bad("ints:pop", "popping from an empty vector"); } catch (const std::out_of_range&) {} } else { g->pop_back(*w.M); m.pop_back(); } break;
			case 3: HOST("append"); g->append(*w.M, v.data(), v.size()); m.insert(m.end(), v.begin(), v.end()); break;
			case 4: HOST("clear"); g->clear(*w.M); m.clear(); break;
			case 5: HOST("resize"); { size_t n = w.big && w.r.chance(1, 30) ? w.r.below(600) : w.r.below(20); g->resize(*w.M, n); m.resize(n); } break;
			case 6: HOST("reserve"); { size_t n = w.r.below(40); g->reserve(*w.M, n); if (g->capacity() < n) w.bad("ints:reserve", "capacity below the reserved"); } break;
			case 7: HOST("assign"); if (w.r.chance(1, 2)) g->assign(*w.M, v); else g->assign(*w.M, v.data(), v.size()); m = v; break;
			case 8: HOST("assign-vector"); g = v; m = v; break;
			case 9: HOST("free"); g->free(*w.M); m.clear(); break;
			default: HOST("write"); if (!m.empty()) { size_t k = w.r.below(m.size()); g->at(*w.M, k) = x; m[k] = x; }
		} else {
			int op = w.r.below(10); u64 n = w.r.below(30); GUEST(op); w.guest("gi_op", g.address(), (long)op, n, (long)x);
			switch (op) { case 0: m.push_back(x); break; case 1: if (!m.empty()) m.pop_back(); break; case 2: m.resize(n, x); break; case 4: m.clear(); break; case 5: m.insert(m.begin() + n % (m.size() + 1), x); break; case 6: if (!m.empty()) m.erase(m.begin() + n % m.size()); break; case 8: m.assign(n, x); break; }
		}
	}
};
struct Strs : Base<CppVector<CppString>, VS, false> {
	Strs(World& w, VS v) : Base(w, "strings", v, v) {}
	Strs(World& w, size_t n, int) : Base(w, "strings", VS(n), n) {}
	const char* getter() override { return "gv_get"; }
	S host(VS& x) override { x = g->to_string_vector(*w.M); if (g->size() != m.size()) return "size"; if (!m.empty()) { size_t k = w.r.below(m.size()); if (g->at(*w.M, k).to_string(*w.M) != m[k]) return "at"; if (S(((const CppVector<CppString>&)*g).at(*w.M, k).to_view(*w.M)) != m[k]) return "const at"; } return ""; }
	void step() override {
		if (moved) return; S t = w.text(); size_t n = w.r.below(9);
		if (!w.big || w.r.chance(1, 2)) switch (w.r.below(12)) {
			case 0: HOST("push_back"); g->push_back(*w.M, std::string_view(t)); m.push_back(t); break;
			case 1: { HOST("push_back-object"); g->push_back(*w.M, CppString(*w.M, t)); m.push_back(t); break; }
			case 2: { HOST("push_back-copy"); const CppString s(*w.M, t); g->push_back(*w.M, s); m.push_back(t); break; }
			case 3: HOST("pop_back"); if (!m.empty()) { g->pop_back(*w.M); m.pop_back(); } break;
			case 4: { HOST("append"); std::vector<CppString> a; VS b; for (size_t i = 0; i < n; i++) { b.push_back(w.text()); a.emplace_back(*w.M, b.back()); } g->append(*w.M, a.data(), a.size()); m.insert(m.end(), b.begin(), b.end()); break; }
			case 5: HOST("clear"); g->clear(*w.M); m.clear(); break;
			case 6: HOST("resize"); g->resize(*w.M, n); m.resize(n); break;
			case 7: HOST("reserve"); g->reserve(*w.M, n * 3); break;
			case 8: { HOST("assign"); std::vector<CppString> a; VS b; for (size_t i = 0; i < n; i++) { b.push_back(w.text()); a.emplace_back(*w.M, b.back()); } if (w.r.chance(1, 2)) g->assign(*w.M, a); else g->assign(*w.M, a.data(), a.size()); m = b; break; }
			case 9: HOST("set"); if (!m.empty()) { size_t k = w.r.below(m.size()); g->at(*w.M, k).set_string(*w.M, g->address_at(k), t); m[k] = t; } break;
			case 10: HOST("free"); g->free(*w.M); m.clear(); break;
			default: { HOST("assign-object"); VS b; for (size_t i = 0; i < n; i++) b.push_back(w.text()); CppVector<CppString> v(*w.M, b); g = v; m = b; }
		} else {
			int op = w.r.below(13); n = w.r.below(12); w.put(t); GUEST(op); size_t k = m.empty() ? 0 : n % m.size(); w.guest("gv_op", g.address(), (long)op, n, (long)t.size());
			switch (op) { case 0: m.push_back(t); break; case 1: if (!m.empty()) m.pop_back(); break; case 2: m.resize(n); break; case 4: m.clear(); break; case 5: m.insert(m.begin() + n % (m.size() + 1), t); break; case 6: if (!m.empty()) m.erase(m.begin() + k); break; case 8: if (!m.empty()) m[k] = t; break; case 9: if (!m.empty()) m[k] += t; break; case 10: if (!m.empty()) m[k].erase(t.size() % (m[k].size() + 1)); break; case 11: if (!m.empty()) std::swap(m[k], m.front()); break; }
		}
	}
};
struct Nest : Base<CppVector<CppVector<int>>, VV, false> {
	Nest(World& w) : Base(w, "nested", VV{}) {}
	Nest(World& w, size_t n) : Base(w, "nested", VV(n), n) {}
	const char* getter() override { return "gw_get"; }
	S host(VV& x) override { for (size_t i = 0; i < g->size(); i++) x.push_back(g->at(*w.M, i).to_vector(*w.M)); return ""; }
	void step() override {
		if (moved) return; VI v; for (int n = w.r.below(8); n--;) v.push_back((int)w.r.next()); size_t n = w.r.below(9); int x = (int)w.r.next();
		if (!w.big || w.r.chance(1, 2)) switch (w.r.below(8)) {
			case 0: HOST("push_back"); g->push_back(*w.M, v); m.push_back(v); break;
			case 1: HOST("push_back-object"); g->push_back(*w.M, CppVector<int>(*w.M, v)); m.push_back(v); break;
			case 2: HOST("pop_back"); if (!m.empty()) { g->pop_back(*w.M); m.pop_back(); } break;
			case 3: HOST("clear"); g->clear(*w.M); m.clear(); break;
			case 4: HOST("resize"); g->resize(*w.M, n); m.resize(n); break;
			case 5: HOST("reserve"); g->reserve(*w.M, n * 3); break;
			case 6: HOST("inner"); if (!m.empty()) { size_t k = w.r.below(m.size()); g->at(*w.M, k).push_back(*w.M, x); m[k].push_back(x); } break;
			default: HOST("free"); g->free(*w.M); m.clear();
		} else {
			int op = w.r.below(10); GUEST(op); size_t k = m.empty() ? 0 : n % m.size(); w.guest("gw_op", g.address(), (long)op, n, (long)x);
			switch (op) { case 0: m.push_back(VI(n % 9, x)); break; case 1: if (!m.empty()) m.pop_back(); break; case 2: m.resize(n); break; case 4: m.clear(); break; case 5: m.insert(m.begin() + n % (m.size() + 1), VI(x & 7, (int)n)); break; case 6: if (!m.empty()) m.erase(m.begin() + k); break; case 8: if (!m.empty()) m[k].push_back(x); break; }
		}
	}
};
struct Mixed : Base<Comp, CompM, false> {
	Mixed(World& w, CompM c) : Base(w, "struct", c, CppString(*w.M, c.a), CppVector<CppString>(*w.M, c.b), CppVector<int>(*w.M, c.c), c.k) {}
	~Mixed() { if (!moved) { g->a.free(*w.M); g->b.free(*w.M); g->c.free(*w.M); } }
	const char* getter() override { return "gc_get"; }
	bool movefrom(Obj&) override { return false; }
	S host(CompM& x) override { x.a = g->a.to_string(*w.M); x.b = g->b.to_string_vector(*w.M); x.c = g->c.to_vector(*w.M); x.k = g->k; return ""; }
	void step() override { S t = w.text(); switch (w.r.below(4)) { case 0: HOST("string"); g->a.set_string(*w.M, g.address() + offsetof(Comp, a), t); m.a = t; break; case 1: HOST("strings"); g->b.push_back(*w.M, std::string_view(t)); m.b.push_back(t); break; case 2: HOST("ints"); g->c.push_back(*w.M, (int)t.size()); m.c.push_back(t.size()); break; default: g->k = m.k = (long)w.r.next(); } }
};
// Rust containers: the guest's part is played by the harness, which writes the layout rustc uses
static void rgrow(World& w, u64 a, const S& t, u64 extra) { u64 c = t.size() + extra, p = c ? w.M->arena().malloc(c) : 1; if (!p) throw std::bad_alloc(); if (u64 oc = w.word(a)) { (void)oc; w.M->arena().free(w.word(a + 8)); } w.M->memory.write<u64>(a, c); w.M->memory.write<u64>(a + 8, p); w.M->memory.write<u64>(a + 16, t.size()); if (!t.empty()) w.M->memory.copy_to_guest(p, t.data(), t.size()); }
struct RStr : Base<RustString, S, true> {
	RStr(World& w, S t) : Base(w, "rust-string", t, std::string_view(t)) {}
	S host(S& x) override { x = g->to_string(*w.M); if (S(g->to_view(*w.M)) != x || g->size() != x.size() || g->empty() != x.empty()) return "view or size"; return ""; }
	void step() override { if (moved) return; S t = w.text(); switch (w.r.below(5)) { case 0: HOST("set_string"); g->set_string(*w.M, t); m = t; break; case 1: HOST("set_string-copy"); g->set_string(*w.M, t.data(), t.size(), false); m = t; break; case 2: { HOST("assign-object"); RustString s(*w.M, t); g = s; m = t; break; } case 3: HOST("free"); g->free(*w.M); m.clear(); break; default: GUEST(0); rgrow(w, g.address(), t, w.r.below(30)); m = t; } }
};
struct RInts : Base<RustVector<int>, VI, true> {
	RInts(World& w, VI v) : Base(w, "rust-ints", v, v) {}
	RInts(World& w, size_t n, int) : Base(w, "rust-ints", VI(n), n) {}
	S host(VI& x) override { x = g->to_vector(*w.M); if (g->size() != m.size() || g->empty() != m.empty() || g->capacity_value() < m.size()) return "size"; if (!m.empty()) { size_t k = w.r.below(m.size()); if (g->at(*w.M, k) != m[k]) return "at"; } (void)((const RustVector<int>&)*g).as_array(*w.M); (void)g->as_array(*w.M); try { g->at(*w.M, m.size()); return "index out of range accepted"; } catch (const std::out_of_range&) {} return ""; }
	void step() override { if (moved) return; VI v; for (int n = w.r.below(12); n--;) v.push_back((int)w.r.next()); switch (w.r.below(5)) { case 0: HOST("assign"); g->assign(*w.M, v); m = v; break; case 1: HOST("free"); g->free(*w.M); m.clear(); break; case 2: { HOST("assign-object"); RustVector<int> s(*w.M, v); g = s; m = v; break; } case 3: HOST("write"); if (!m.empty()) { size_t k = w.r.below(m.size()); g->at(*w.M, k) = m[k] = (int)w.r.next(); } break; default: { GUEST(0); u64 c = v.size() + w.r.below(9), p = c ? w.M->arena().malloc(c * 4) : 4, a = g.address(); if (!p) throw std::bad_alloc(); if (w.word(a)) w.M->arena().free(w.word(a + 8)); w.M->memory.write<u64>(a, c); w.M->memory.write<u64>(a + 8, p); w.M->memory.write<u64>(a + 16, v.size()); if (!v.empty()) w.M->memory.copy_to_guest(p, v.data(), v.size() * 4); m = v; } } }
};
struct RStrs : Base<RustVector<RustString>, VS, true> {
	RStrs(World& w, VS v) : Base(w, "rust-strings", v, v) {}
	S host(VS& x) override { for (size_t i = 0; i < g->size(); i++) x.push_back(g->at(*w.M, i).to_string(*w.M)); return ""; }
	void step() override { if (moved) return; S t = w.text(); VS b; for (int n = w.r.below(5); n--;) b.push_back(w.text()); switch (w.r.below(4)) { case 0: HOST("set"); if (!m.empty()) { size_t k = w.r.below(m.size()); g->at(*w.M, k).set_string(*w.M, t); m[k] = t; } break; case 1: HOST("free"); g->free(*w.M); m.clear(); break; case 2: { HOST("assign-object"); RustVector<RustString> s(*w.M, b); g = s; m = b; break; } default: GUEST(0); if (!m.empty()) { size_t k = w.r.below(m.size()); rgrow(w, g->data() + 24 * k, t, w.r.below(30)); m[k] = t; } } }
};
static std::unique_ptr<Obj> make(World& w) {
	auto ints = [&] { VI v; for (int n = w.r.below(9); n--;) v.push_back((int)w.r.next()); return v; }; auto strs = [&] { VS v; for (int n = w.r.below(6); n--;) v.push_back(w.text()); return v; };
	int k = w.r.below(12); w.note(fmt("new%d", k)); seen("constructors", k);
	switch (k) { case 0: case 1: return std::make_unique<Str>(w, w.text()); case 2: return std::make_unique<Ints>(w, ints()); case 3: return std::make_unique<Ints>(w, w.r.below(20), 0); case 4: return std::make_unique<Strs>(w, strs()); case 5: return std::make_unique<Strs>(w, w.r.below(6), 0); case 6: return std::make_unique<Nest>(w); case 7: return std::make_unique<Nest>(w, w.r.below(5)); case 8: { CompM c; c.a = w.text(); c.b = strs(); c.c = ints(); c.k = w.r.next(); return std::make_unique<Mixed>(w, c); } case 9: return std::make_unique<RStr>(w, w.text()); case 10: return w.r.chance(1, 2) ? std::make_unique<RInts>(w, ints()) : std::make_unique<RInts>(w, w.r.below(9), 0); default: return std::make_unique<RStrs>(w, strs()); }
}
static S sent; static VS sentv;
static void one(Rng& r) {
	World w(r); cur = &w; std::vector<std::unique_ptr<Obj>> os; int steps = r.range(10, 60);
	auto all = [&](bool guest) { w.chunks(); Owned own = w.before; for (auto& o : os) { o->check(own, guest); if (w.bad_seen) return; } if (!w.lacked) for (auto& [a, n] : w.live) if (!own.count(a)) { w.bad("heap:leak", fmt("block %#llx (%llu bytes) is owned by nothing", (long long)a, (long long)n)); return; } vstat("heap_audits"); };
	auto guard = [&](Obj* o, auto f) { try { f(); } catch (const std::bad_alloc&) { if (w.big) w.bad("heap:refused", "allocation failed with megabytes free"); w.lacked = true; vstat("allocation_failures"); if (o) { w.chunks(); o->adopt(); } } catch (const std::exception& e) { w.bad("exception", e.what()); } };
	for (int k = 0; k < steps && !w.bad_seen; k++) {
		if (os.empty() || (os.size() < 6 && r.chance(1, 6))) guard(nullptr, [&] { auto o = make(w); os.push_back(std::move(o)); });
		else if (r.chance(1, 12)) { size_t i = r.below(os.size()); w.note(S("delete ") + os[i]->kind); guard(nullptr, [&] { os.erase(os.begin() + i); }); }
		else if (r.chance(1, 10)) { size_t i = r.below(os.size()), j = r.below(os.size()); guard(nullptr, [&] { os[i]->movefrom(*os[j]); }); }
		else if (w.big && r.chance(1, 10)) guard(nullptr, [&] { S t = w.text(); w.put(t); w.note("guest shows a string"); u64 n = r.below(60); long shape = r.below(4); S want = t; if (shape & 2) want.erase(n % (t.size() + 1)); sent = "?"; long x = w.guest("gs_send", shape, n, (long)t.size()); if (x != (long)want.size()) w.bad("shown:result", "the guest's own string changed"); if (sent != want) w.bad("shown:string", "the host reads other text from a string the guest shows it"); seen("guest_operations", fmt("send%ld", shape)); });
		else if (w.big && r.chance(1, 16)) guard(nullptr, [&] { u64 n = r.below(6), len = r.below(40); S t; for (u64 i = 0; i < n + len; i++) t += (char)r.next(); w.put(t); w.note("guest shows strings"); VS want; for (u64 i = 0; i < n; i++) { S s = t.substr(i, len); if (i & 1) s.erase(i % (len + 1)); want.push_back(s); } sentv = {"?"}; w.guest("gv_send", n, len); if (sentv != want) w.bad("shown:strings", "the host reads other strings from a vector the guest shows it"); });
		else { auto& o = *os[r.below(os.size())]; guard(&o, [&] { o.step(); }); seen("contents", o.digest()); }
		if (!w.bad_seen) guard(nullptr, [&] { all(r.chance(1, 3)); });
	}
	if (!w.bad_seen) { guard(nullptr, [&] { all(true); w.note("delete all"); os.clear(); w.chunks(); if (!w.lacked) for (auto& [a, n] : w.live) if (!w.before.count(a)) { w.bad("heap:leak", "blocks left after every object is gone"); break; } }); }
	else for (auto& o : os) (void)o.release();
	seen("histories", hash(w.log.data(), w.log.size()) ^ r.next()); vstat("bytes_allocated", w.M->arena().allocation_counter()); if (samples < 3) sample(w.log.substr(0, 300));
}
int main(int argc, char** argv) {
	init(argc, argv); std::ifstream f(kv("guest")); std::stringstream ss; ss << f.rdbuf(); elf = ss.str(); { MachineOptions o; o.memory_max = 16 << 20; Machine m{std::string_view(elf), o}; m.setup_linux_syscalls(); }
	Machine::install_syscall_handler(503, [](Machine& m) { auto [s] = m.sysargs<const CppString*>(); sent = s->to_string(m); if (S(s->to_view(m)) != sent) sent += "(view differs)"; m.set_result(0); });
	Machine::install_syscall_handler(504, [](Machine& m) { auto [v] = m.sysargs<const CppVector<CppString>*>(); sentv = v->to_string_vector(m); m.set_result(0); });
	run_cases(opt.cases ? opt.cases : 100, [&](u64, Rng& r) { one(r); }); return finish();
}
