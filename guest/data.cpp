// Guest side of the container monitor: libstdc++ itself builds, changes and reads the objects.
#include <string>
#include <vector>
#include <cstring>
#include <cstdint>
#define SYS(nr, a, b) ({ register long a0 __asm__("a0") = (long)(a); register long a1 __asm__("a1") = (long)(b); register long a7 __asm__("a7") = (nr); __asm__ volatile("syscall 0" : "+r"(a0) : "r"(a1), "r"(a7) : "memory", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "a2", "a3", "a4", "a5", "a6"); a0; })
void* operator new(size_t n) { return (void*)SYS(495, n, 0); }
void operator delete(void* p) noexcept { SYS(498, p, 0); }
void operator delete(void* p, size_t) noexcept { SYS(498, p, 0); }
typedef std::string S; typedef std::vector<int> VI; typedef std::vector<S> VS; typedef std::vector<VI> VV;
struct Comp { S a; VS b; VI c; long k; };
#define API extern "C" __attribute__((used, noinline))
API char scratch[1 << 17]; char scratch[1 << 17];
asm(".pushsection .text\n.global fast_exit\n.type fast_exit, @function\nfast_exit:\n.word 0x00150000\n.popsection\n");
static void put(char*& o, const void* p, long n) { memcpy(o, p, n); o += n; }
static long get(char*& o, const S& s) { if (s.c_str() == nullptr || s.c_str()[s.size()] != 0 || s.capacity() < s.size()) return -1; long n = s.size(); put(o, &n, 8); put(o, s.data(), n); return 0; }
static long get(char*& o, const VI& v) { if (v.capacity() < v.size()) return -1; long n = v.size(); put(o, &n, 8); for (int x : v) put(o, &x, 4); return 0; }
template <class T> static long get(char*& o, const std::vector<T>& v) { if (v.capacity() < v.size()) return -1; long n = v.size(); put(o, &n, 8); for (auto& x : v) if (get(o, x)) return -2; return 0; }
static long get(char*& o, const Comp& c) { long r = get(o, c.a); if (!r) r = get(o, c.b); if (!r) r = get(o, c.c); put(o, &c.k, 8); return r; }
#define GET(name, T) API long name(const T* p) { char* o = scratch; long r = get(o, *p); return r ? r : o - scratch; }
GET(gs_get, S) GET(gi_get, VI) GET(gv_get, VS) GET(gw_get, VV) GET(gc_get, Comp)
API long gs_op(S* s, long op, unsigned long n, long len) {
	S t(scratch, len);
	switch (op) { case 0: s->assign(scratch, len); break; case 1: s->append(scratch, len); break; case 2: s->erase(n % (s->size() + 1)); break; case 3: s->reserve(n); break; case 4: s->shrink_to_fit(); break; case 5: s->clear(); break;
	case 6: s->insert(n % (s->size() + 1), t); break; case 7: s->swap(t); break; case 8: *s = std::move(t); break; case 9: *s = t; break; case 10: s->push_back(scratch[0]); break; case 11: if (!s->empty()) s->pop_back(); break; default: s->resize(n, 'x'); } return s->size(); }
API long gi_op(VI* v, long op, unsigned long n, long x) {
	switch (op) { case 0: v->push_back(x); break; case 1: if (!v->empty()) v->pop_back(); break; case 2: v->resize(n, x); break; case 3: v->reserve(n); break; case 4: v->clear(); break; case 5: v->insert(v->begin() + n % (v->size() + 1), x); break;
	case 6: if (!v->empty()) v->erase(v->begin() + n % v->size()); break; case 7: v->shrink_to_fit(); break; case 8: v->assign(n, x); break; default: { VI t(*v); v->swap(t); } } return v->size(); }
API long gv_op(VS* v, long op, unsigned long n, long len) {
	S t(scratch, len);
	switch (op) { case 0: v->push_back(t); break; case 1: if (!v->empty()) v->pop_back(); break; case 2: v->resize(n); break; case 3: v->reserve(n); break; case 4: v->clear(); break; case 5: v->insert(v->begin() + n % (v->size() + 1), t); break;
	case 6: if (!v->empty()) v->erase(v->begin() + n % v->size()); break; case 7: v->shrink_to_fit(); break; case 8: if (!v->empty()) (*v)[n % v->size()] = t; break; case 9: if (!v->empty()) (*v)[n % v->size()].append(t); break;
	case 10: if (!v->empty()) { S& s = (*v)[n % v->size()]; s.reserve(100); s.erase(len % (s.size() + 1)); } break; case 11: if (!v->empty()) std::swap((*v)[n % v->size()], v->front()); break; default: { VS u(*v); v->swap(u); } } return v->size(); }
API long gw_op(VV* v, long op, unsigned long n, long x) {
	switch (op) { case 0: v->push_back(VI(n % 9, x)); break; case 1: if (!v->empty()) v->pop_back(); break; case 2: v->resize(n); break; case 3: v->reserve(n); break; case 4: v->clear(); break; case 5: v->insert(v->begin() + n % (v->size() + 1), VI(x & 7, n)); break;
	case 6: if (!v->empty()) v->erase(v->begin() + n % v->size()); break; case 7: v->shrink_to_fit(); break; case 8: if (!v->empty()) (*v)[n % v->size()].push_back(x); break; default: { VV u(*v); v->swap(u); } } return v->size(); }
// a string living on the guest stack, shown to the host in a system call
API long gs_send(long shape, unsigned long n, long len) { S s; if (shape & 1) s.reserve(n); s.append(scratch, len); if (shape & 2) s.erase(n % (s.size() + 1)); long r = SYS(503, &s, shape); long m = s.size(); char* o = scratch; if (get(o, s)) return -1; (void)r; return m; }
API long gv_send(unsigned long n, long len) { VS v; for (unsigned long i = 0; i < n; i++) { v.emplace_back(scratch + i, len); if (i & 1) { v.back().reserve(64); v.back().erase(i % (len + 1)); } } return SYS(504, &v, 0); }
int main() { return 0; }
