/* Stand-in for the TinyCC library the binary translator links with (it is downloaded by the real
   build, and there is no network here): the same interface, compiled code produced by GCC. */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct TCCState TCCState;
#define TCC_OUTPUT_MEMORY 1
#define TCC_RELOCATE_AUTO (void*)1
TCCState* tcc_new(void);
void tcc_delete(TCCState*);
int tcc_set_output_type(TCCState*, int);
void tcc_define_symbol(TCCState*, const char*, const char*);
void tcc_set_options(TCCState*, const char*);
int tcc_add_include_path(TCCState*, const char*);
int tcc_add_symbol(TCCState*, const char*, const void*);
int tcc_compile_string(TCCState*, const char*);
int tcc_relocate(TCCState*, void*);
void* tcc_get_symbol(TCCState*, const char*);
#ifdef __cplusplus
}
#endif
