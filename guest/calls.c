#include "calls.h"
#define H(x) h = (h ^ (uint64_t)(x)) * 0x100000001b3ull + (h >> 29)
static uint64_t bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
/* comparisons against constants expose values that are not properly extended in their registers */
static uint64_t u32(uint32_t x) { return (x == 0x90000000u) + 2 * (x > 0x80000000u) + 4 * (x >= 0xfffffff0u) + 8 * (x < 5); }
static uint64_t s32(int32_t x) { return (x == -7) + 2 * (x < -100) + 4 * (x > 1000) + 8 * (x == (int32_t)0x80000000); }
__attribute__((noinline)) long f_ext(int8_t a, uint8_t b, int16_t c, uint16_t d, int32_t e, uint32_t f, int64_t g, uint64_t hh) { uint64_t h = 1; H(a); H(b); H(c); H(d); H(e); H(f); H(g); H(hh); H(u32(f)); H(s32(e)); H(a < -3); H(b > 200); H(c == -2); H(d == 0xfffe); return (long)h; }
__attribute__((noinline)) long f_u32(uint32_t a, uint32_t b, int32_t c) { uint64_t h = 3; H(u32(a)); H(u32(b)); H(s32(c)); H(a < b); H((uint64_t)a + b); H(a / (b | 1)); H((int64_t)c * 3); H(a == b); return (long)h; }
__attribute__((noinline)) long f_bool(_Bool a, char b, signed char c) { uint64_t h = 5; H(a ? 11 : 22); H((signed char)b); H(c == -1); H(c); return (long)h; }
__attribute__((noinline)) long f_many(int8_t a, uint32_t b, int64_t c, uint8_t d, int32_t e, uint16_t f, int64_t g, uint64_t hh, int32_t i, uint32_t j, int8_t k, uint64_t l, int16_t m) { uint64_t h = 7; H(a); H(u32(b)); H(b); H(c); H(d); H(s32(e)); H(e); H(f); H(g); H(hh); H(i); H(s32(i)); H(j); H(u32(j)); H(k); H(l); H(m); return (long)h; }
__attribute__((noinline)) double f_fp8(double a, float b, double c, float d, double e, float f, double g, float h) { return a * 2 - b * 3 + c * 5 - d * 7 + e * 11 - f * 13 + g * 17 - h * 19; }
__attribute__((noinline)) double f_fp11(double a, float b, double c, float d, double e, float f, double g, float h, double i, float j, double k) { return a * 2 - b * 3 + c * 5 - d * 7 + e * 11 - f * 13 + g * 17 - h * 19 + i * 23 - j * 29 + k * 31; }
__attribute__((noinline)) double f_mix(int32_t a, double b, uint32_t c, float d, int64_t e, double f, uint8_t g, float hh, int64_t i, double j, int32_t k, float l, uint32_t m, double n, int64_t o, float p, int8_t q, double r, float s, uint32_t t) { uint64_t h = 9; H(a); H(bits(b)); H(c); H(bits(d)); H(e); H(bits(f)); H(g); H(bits(hh)); H(i); H(bits(j)); H(k); H(bits(l)); H(m); H(u32(m)); H(bits(n)); H(o); H(bits(p)); H(q); H(bits(r)); H(bits(s)); H(t); H(u32(t)); return (double)(int64_t)(h >> 12); }
__attribute__((noinline)) float f_retf(float a, uint32_t b) { return a * 0.5f + (float)(b & 0xffff); }
__attribute__((noinline)) int32_t f_ret32(uint32_t a) { return (int32_t)(a * 3 + 1); }
__attribute__((noinline)) uint32_t f_retu32(uint32_t a) { return a * 5 + 1; }
__attribute__((noinline)) int8_t f_ret8(int32_t a) { return (int8_t)((uint32_t)a + 1u); }
__attribute__((noinline)) uint16_t f_retu16(int32_t a) { return (uint16_t)((uint32_t)a * 3u); }
static uint64_t str(const char* s) { uint64_t h = 77; while (*s) H((unsigned char)*s++); return h; }
__attribute__((noinline)) long f_str(const char* a, uint32_t n, const char* b) { uint64_t h = str(a); H(n); H(u32(n)); H(str(b)); return (long)h; }
__attribute__((noinline)) long f_struct(const S1* a, uint32_t k, const S2* b, const S3* c) { uint64_t h = 15; H(a->a); H(bits(a->b)); H(a->c); H(a->d); H(u32(k)); H(b->x); for (int i = 0; i < 9; i++) H(c->v[i]); H(bits(c->w)); return (long)h; }
__attribute__((noinline)) long f_str12(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f, const char* g, const char* i, const char* j, const char* k, const char* l, const char* m) { const char* v[12] = {a, b, c, d, e, f, g, i, j, k, l, m}; int n = *a - 48; if (n < 0 || n > 12) n = 1; uint64_t h = 5 + n; for (int q = 0; q < n; q++) H(str(v[q])); return (long)h; }
__attribute__((noinline)) long f_strmany(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f, const char* g, const char* hh, const char* i, uint32_t j) { uint64_t h = 21; H(str(a)); H(str(b)); H(str(c)); H(str(d)); H(str(e)); H(str(f)); H(str(g)); H(str(hh)); H(str(i)); H(u32(j)); H(j); return (long)h; }
#ifdef GUEST
static long host_call(long a, long b) { register long a0 __asm__("a0") = a; register long a1 __asm__("a1") = b; register long a7 __asm__("a7") = 502; __asm__ volatile("syscall 0" : "+r"(a0) : "r"(a1), "r"(a7) : "memory"); return a0; }
#else
extern long host_call(long a, long b);
#endif
/* keeps values in every callee- and caller-saved register and on the stack across a call into the host */
__attribute__((noinline)) long f_nest(uint32_t depth, uint64_t seed) {
	volatile uint64_t local[40]; uint64_t v[14]; double w[10]; uint64_t h = seed;
	for (int i = 0; i < 40; i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; local[i] = h; }
	for (int i = 0; i < 14; i++) v[i] = local[i] ^ (local[i + 20] >> 7); for (int i = 0; i < 10; i++) w[i] = (double)(int64_t)(local[i + 9] >> 20);
	uint64_t r = 0; for (unsigned k = 0; k < 1 + (seed & 1); k++) r += (uint64_t)(depth ? host_call(depth - 1, (long)(local[k] * 31)) : 1);
	for (int i = 0; i < 14; i++) H(v[i]); for (int i = 0; i < 10; i++) H(bits(w[i] * 0.5 + i)); for (int i = 0; i < 40; i++) H(local[i]); H(r); return (long)h;
}
__attribute__((noinline)) long f_deep(uint32_t depth, uint64_t seed) { volatile char pad[48]; pad[depth & 31] = (char)seed; return depth ? (long)((uint64_t)f_deep(depth - 1, seed * 3) + (uint64_t)(int64_t)pad[depth & 31]) : f_nest((uint32_t)(seed & 3), seed); }
#ifdef GUEST
volatile uint64_t counter_cell;
long f_spin(long n) { for (long i = 0; n < 0 || i < n; i++) counter_cell++; return 77; }
long f_fault(long how) { if (how == 0) return *(volatile long*)0x10; if (how == 1) *(volatile long*)-64L = 1; if (how == 2) ((void (*)(void))8)(); __asm__ volatile(".word 0xffffffff"); return 0; }
__asm__(".text\n.global fast_exit\n.type fast_exit,@function\nfast_exit:\n li.w $a7, 500\n syscall 0\n .size fast_exit, .-fast_exit\n"
	/* stores the whole entry state: a0-a7, sp, ra, tp, fa0-fa7 and 16 stack words */
	".global dump\n.type dump,@function\ndump:\n la.local $t0, dump_area\n st.d $a0,$t0,0\n st.d $a1,$t0,8\n st.d $a2,$t0,16\n st.d $a3,$t0,24\n st.d $a4,$t0,32\n st.d $a5,$t0,40\n st.d $a6,$t0,48\n st.d $a7,$t0,56\n st.d $sp,$t0,64\n st.d $ra,$t0,72\n st.d $tp,$t0,80\n"
	" fst.d $fa0,$t0,88\n fst.d $fa1,$t0,96\n fst.d $fa2,$t0,104\n fst.d $fa3,$t0,112\n fst.d $fa4,$t0,120\n fst.d $fa5,$t0,128\n fst.d $fa6,$t0,136\n fst.d $fa7,$t0,144\n ret\n .size dump, .-dump\n.bss\n.align 3\n.global dump_area\n.type dump_area,@object\n.size dump_area,256\ndump_area: .space 256\n.text\n.global _start\n_start:\n li.w $a7, 500\n syscall 0\n");
#endif
