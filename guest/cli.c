// What the command line monitor runs, in the emulator and natively.  Each argument is one action.
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char** environ;
static volatile uint64_t sink;
static uint64_t rng(uint64_t* s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
static int depth(int n) { volatile char pad[256]; pad[0] = n; return n <= 0 ? 0 : depth(n - 1) + pad[0]; }
int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		char* a = argv[i]; char* v = strchr(a, '='); long long n = v ? strtoll(v + 1, 0, 0) : 0;
		if (!strncmp(a, "args", 4)) { printf("argc %d\n", argc); for (int k = 0; k <= argc; k++) { printf("%d:", k); if (!argv[k]) { puts(" null"); continue; } for (unsigned char* c = (unsigned char*)argv[k]; *c; c++) printf("%02x", *c); puts(""); } for (char** e = environ; *e; e++) printf("env %s\n", *e); fflush(stdout); }
		else if (!strncmp(a, "out=", 4)) { uint64_t s = n * 77 + 1; long len = n % 60000; char* b = malloc(len + 8); fflush(stdout); for (long k = 0; k < len; k += 8) { uint64_t x = rng(&s); memcpy(b + k, &x, 8); } for (long k = 0; k < len;) { long w = write(1, b + k, len - k); if (w <= 0) return 99; k += w; } free(b); }
		else if (!strncmp(a, "say=", 4)) { printf("%s|", v + 1); }
		else if (!strncmp(a, "flush", 5)) { fflush(stdout); }
		else if (!strncmp(a, "spin=", 5)) { uint64_t s = 88172645463325252ull; for (long long k = 0; k < n; k++) sink += rng(&s); printf("spun %llx\n", (unsigned long long)sink); fflush(stdout); }
		else if (!strncmp(a, "heap=", 5)) { uint64_t s = n + 5, h = 0; char* p[64] = {0}; for (int k = 0; k < 400; k++) { int j = rng(&s) % 64; free(p[j]); size_t z = rng(&s) % 3000; p[j] = malloc(z + 1); if (!p[j]) return 98; memset(p[j], k, z); p[j][z] = 0; h = h * 31 + strlen(p[j]); } printf("heap %llx\n", (unsigned long long)h); fflush(stdout); }
		else if (!strncmp(a, "deep=", 5)) { printf("deep %d\n", depth(n)); fflush(stdout); }
		else if (!strncmp(a, "exit=", 5)) exit((int)n);
		else if (!strncmp(a, "_exit=", 6)) { fflush(stdout); _exit((int)n); }
		else if (!strncmp(a, "ret=", 4)) return (int)n;
#ifndef __loongarch__
		else if (a[0] == '!') { fflush(stdout); _exit(0); } // where the output ends
#else
		else if (!strcmp(a, "!forever")) { fflush(stdout); for (;;) sink++; }
		else if (!strcmp(a, "!null")) { fflush(stdout); *(volatile int*)0 = 1; }
		else if (!strcmp(a, "!far")) { fflush(stdout); sink = *(volatile uint64_t*)0x7fffffffff00; }
		else if (!strcmp(a, "!jump")) { fflush(stdout); ((void (*)(void))8)(); }
		else if (!strcmp(a, "!text")) { fflush(stdout); *(volatile char*)(uintptr_t)&main = 1; }
		else if (!strcmp(a, "!ill")) { fflush(stdout); __asm__ volatile(".word 0xffffffff"); }
		else if (!strcmp(a, "!abort")) { fflush(stdout); abort(); }
		else if (!strcmp(a, "!stack")) { fflush(stdout); depth(2000000000); }
#endif
		else { printf("arg %zu\n", strlen(a)); fflush(stdout); }
	}
	return 0;
}
