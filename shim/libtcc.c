/* See libtcc.h.  TinyCC predefines __TINYC__, wraps signed arithmetic, ignores aliasing rules, never
   contracts floating point and emits no unwind tables; GCC is told to do the same. */
#define _GNU_SOURCE
#include "libtcc.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
extern char** environ;
struct TCCState { char defs[64][160]; int ndefs; void* dl; };
TCCState* tcc_new(void) { return calloc(1, sizeof(TCCState)); }
void tcc_delete(TCCState* s) { if (s && s->dl) dlclose(s->dl); free(s); }
int tcc_set_output_type(TCCState* s, int t) { (void)s; (void)t; return 0; }
void tcc_define_symbol(TCCState* s, const char* n, const char* v) { if (s->ndefs < 64) snprintf(s->defs[s->ndefs++], 160, "#define %s %s\n", n, v ? v : "1"); }
void tcc_set_options(TCCState* s, const char* o) { (void)s; (void)o; }
int tcc_add_include_path(TCCState* s, const char* p) { (void)s; (void)p; return 0; }
int tcc_add_symbol(TCCState* s, const char* n, const void* p) { (void)s; (void)n; (void)p; return 0; }
int tcc_compile_string(TCCState* s, const char* code) {
	const char* dir = getenv("VH_SCRATCH"); static unsigned serial; char base[512], src[560], obj[560];
	snprintf(base, sizeof base, "%s/jit.%d.%u", dir ? dir : "/tmp", (int)getpid(), __atomic_add_fetch(&serial, 1, __ATOMIC_RELAXED));
	snprintf(src, sizeof src, "%s.c", base); snprintf(obj, sizeof obj, "%s.so", base);
	FILE* f = fopen(src, "w"); if (!f) return -1;
	for (int i = 0; i < s->ndefs; i++) fputs(s->defs[i], f);
	fputs(code, f); if (fclose(f)) return -1;
	const char* opt = getenv("VH_JIT_OPT");
	char* argv[] = {"gcc", opt ? (char*)opt : "-O0", "-w", "-std=gnu99", "-D__TINYC__=1", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-asynchronous-unwind-tables", "-fno-unwind-tables", "-fno-exceptions", "-fno-toplevel-reorder", "-fno-reorder-functions", "-fno-builtin", "-fPIC", "-shared", "-nostdlib", "-pipe", src, "-o", obj, NULL};
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
	if (!getenv("VERBOSE")) posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
	pid_t pid; int st = -1, r = posix_spawnp(&pid, "gcc", &fa, NULL, argv, environ); posix_spawn_file_actions_destroy(&fa);
	if (r == 0) while (waitpid(pid, &st, 0) < 0);
	unlink(src);
	if (r != 0 || st != 0) { fprintf(stderr, "the stand-in compiler failed\n"); unlink(obj); return -1; }
	s->dl = dlopen(obj, RTLD_NOW | RTLD_LOCAL); if (!s->dl) fprintf(stderr, "%s\n", dlerror());
	unlink(obj); return s->dl ? 0 : -1;
}
int tcc_relocate(TCCState* s, void* p) { (void)p; return s->dl ? 0 : -1; }
void* tcc_get_symbol(TCCState* s, const char* n) { return s->dl ? dlsym(s->dl, n) : NULL; }
