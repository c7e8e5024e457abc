#ifdef __cplusplus
#define _Bool bool
#endif
/* Functions called across the host/guest boundary; compiled for the guest and for the host. */
#pragma once
#include <stdint.h>
typedef struct { int32_t a; float b; uint64_t c; int16_t d; } S1;
typedef struct { uint8_t x; } S2;
typedef struct { uint64_t v[9]; double w; } S3;
#ifdef __cplusplus
extern "C" {
#endif
long f_ext(int8_t a, uint8_t b, int16_t c, uint16_t d, int32_t e, uint32_t f, int64_t g, uint64_t h);
long f_u32(uint32_t a, uint32_t b, int32_t c);
long f_bool(_Bool a, char b, signed char c);
long f_many(int8_t a, uint32_t b, int64_t c, uint8_t d, int32_t e, uint16_t f, int64_t g, uint64_t h, int32_t i, uint32_t j, int8_t k, uint64_t l, int16_t m);
double f_fp8(double a, float b, double c, float d, double e, float f, double g, float h);
double f_fp11(double a, float b, double c, float d, double e, float f, double g, float h, double i, float j, double k);
double f_mix(int32_t a, double b, uint32_t c, float d, int64_t e, double f, uint8_t g, float h, int64_t i, double j, int32_t k, float l, uint32_t m, double n, int64_t o, float p, int8_t q, double r, float s, uint32_t t);
float f_retf(float a, uint32_t b);
int32_t f_ret32(uint32_t a);
uint32_t f_retu32(uint32_t a);
int8_t f_ret8(int32_t a);
uint16_t f_retu16(int32_t a);
long f_str(const char* a, uint32_t n, const char* b);
long f_struct(const S1* a, uint32_t k, const S2* b, const S3* c);
long f_str12(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f, const char* g, const char* h, const char* i, const char* j, const char* k, const char* l);
long f_strmany(const char* a, const char* b, const char* c, const char* d, const char* e, const char* f, const char* g, const char* h, const char* i, uint32_t j);
long f_deep(uint32_t depth, uint64_t seed);
long f_nest(uint32_t depth, uint64_t seed);
#ifdef __cplusplus
}
#endif
