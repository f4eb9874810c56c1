// Native replay of one harness entry on the real compiled code.
// usage: runner LIB ENTRY PARAMS VALUES   (comma separated decimal u64 lists; '-' for none)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <dlfcn.h>
static uint64_t par[64], val[4096]; static int np, nv, iv; static int fails;
static int list(const char *s, uint64_t *o, int max) { int n = 0; if (!strcmp(s, "-")) return 0; while (*s && n < max) { char *e; o[n++] = strtoull(s, &e, 10); s = *e ? e + 1 : e; } return n; }
static uint64_t next(void) { uint64_t r = iv < nv ? val[iv] : 0; iv++; return r; }
uint8_t sym_u8(void) { return (uint8_t)next(); }
uint16_t sym_u16(void) { return (uint16_t)next(); }
uint32_t sym_u32(void) { return (uint32_t)next(); }
uint64_t sym_u64(void) { return next(); }
uint64_t sym_param(uint64_t i) { return i < (uint64_t)np ? par[i] : 0; }
uint64_t sym_fork(uint64_t x) { return x; }
uint64_t sym_is_replay(void) { return 1; }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); exit(0); } }
void sym_assert(bool c, const char *p, size_t n) { if (!c) { printf("ASSERT-FAIL %.*s\n", (int)n, p); fflush(stdout); fails++; } }
void sym_cover(const char *p, size_t n) { printf("COVER %.*s\n", (int)n, p); }
void sym_obs(uint64_t x) { printf("OBS %llu\n", (unsigned long long)x); }
void sym_note(const char *p, size_t n) { printf("NOTE %.*s\n", (int)n, p); fflush(stdout); }
int main(int c, char **v) {
    if (c < 5) return 2;
    np = list(v[3], par, 64); nv = list(v[4], val, 4096);
    void *h = dlopen(v[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void (*f)(void) = (void (*)(void))dlsym(h, v[2]);
    if (!f) { fprintf(stderr, "no entry %s\n", v[2]); return 2; }
    setvbuf(stdout, 0, _IOLBF, 0);
    f();
    printf("DONE\n");
    return fails ? 1 : 0;
}
