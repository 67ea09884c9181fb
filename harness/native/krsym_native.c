/* Native counterparts of the engine's builtins: replay one assignment. */
#include <errno.h>
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t *vals;
static size_t nvals, next;

/* Reads "name a b c" and then "value width name" lines. */
int krsym_load(const char *file, char *name, uint64_t *a) {
    FILE *f = fopen(file, "r");
    char line[4096];
    if (!f || !fgets(line, sizeof line, f)) return 1;
    unsigned long long x, y, z;
    if (sscanf(line, "%255s %llu %llu %llu", name, &x, &y, &z) != 4) return 1;
    a[0] = x, a[1] = y, a[2] = z;
    vals = calloc(256, sizeof *vals);
    while (fgets(line, sizeof line, f) && nvals < 256) {
        unsigned long long v;
        if (sscanf(line, "%llu", &v) == 1) vals[nvals++] = v;
    }
    fclose(f);
    return 0;
}
uint64_t krsym_bits(uint64_t w, const char *p, uint64_t n) {
    (void)p, (void)n;
    uint64_t v = next < nvals ? vals[next] : 0;
    next++;
    return w >= 64 ? v : v & ((1ull << w) - 1);
}
void krsym_assume(uint8_t b) {
    if (!b) { fflush(stdout); printf("ASSUME\n"); fflush(stdout); _Exit(0); }
}
void krsym_check(uint8_t b, const char *p, uint64_t n) {
    if (!b) { printf("FAIL %.*s\n", (int)n, p); fflush(stdout); _Exit(77); }
}
void krsym_reach(const char *p, uint64_t n) { (void)p, (void)n; }
void krsym_emit(uint64_t v) { printf("T %llu\n", (unsigned long long)v); fflush(stdout); }
uint64_t krsym_concretize(uint64_t v) { return v; }
uint64_t krsym_is_symbolic(uint64_t v) { (void)v; return 0; }

/* The file system model shared with the engine: everything below /k exists and is
   canonical, nothing else exists. */
