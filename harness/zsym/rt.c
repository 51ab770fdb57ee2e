// Native runtime: values of the symbolic variables come from $ZSYM_REPLAY
// (a file with decimal numbers separated by commas or white space).
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <unistd.h>

static uint64_t *vals; static size_t nvals, pos; static int loaded;
static void load(void) {
    if (loaded) return;
    loaded = 1;
    const char *f = getenv("ZSYM_REPLAY");
    if (!f) return;
    FILE *h = fopen(f, "r");
    if (!h) { fprintf(stderr, "cannot open %s\n", f); _exit(96); }
    size_t cap = 1024; vals = malloc(cap * 8);
    int c; uint64_t x = 0; int in = 0;
    while ((c = fgetc(h)) != EOF) {
        if (c >= '0' && c <= '9') { x = x * 10 + (c - '0'); in = 1; }
        else if (in) { if (nvals == cap) vals = realloc(vals, (cap *= 2) * 8); vals[nvals++] = x; x = 0; in = 0; }
    }
    if (in) vals[nvals++] = x;
    fclose(h);
}
static uint64_t next(void) { load(); return pos < nvals ? vals[pos++] : (pos++, 0); }
uint8_t zsym_u8(void) { return next(); }
uint16_t zsym_u16(void) { return next(); }
uint32_t zsym_u32(void) { return next(); }
uint64_t zsym_u64(void) { return next(); }
uint8_t zsym_in(const uint8_t *p, size_t n) {
    uint8_t v = next();
    for (size_t i = 0; i < n; i++) if (p[i] == v) return v;
    fflush(stdout); fprintf(stderr, "value outside the alphabet\n"); _exit(98);
}
uint8_t zsym_range(uint8_t lo, uint8_t hi) {
    uint8_t v = next();
    if (v < lo || v > hi) { fflush(stdout); fprintf(stderr, "value outside the range\n"); _exit(98); }
    return v;
}
void zsym_assume(bool c) { if (!c) { fflush(stdout); fprintf(stderr, "assumption does not hold\n"); _exit(98); } }
void zsym_assert(bool c, const uint8_t *p, size_t n) {
    if (!c) { fflush(stdout); fprintf(stderr, "ZSYM-ASSERT: %.*s\n", (int)n, (const char *)p); _exit(97); }
}
void zsym_out(uint64_t v) { printf("OUT %llu\n", (unsigned long long)v); }
void zsym_cover(uint32_t i) { (void)i; }
uint64_t zsym_param(uint32_t i) {
    const char *s = getenv("ZSYM_PARAM");
    if (!s) return 0;
    while (i && *s) { if (*s == ',') i--; s++; }
    return i ? 0 : strtoull(s, 0, 10);
}
static int allow;
static void on_abort(void) {}
void zsym_allow_panic(bool b) { allow = b; (void)on_abort; }
uint64_t zsym_concretize(uint64_t v) { return v; }
void zsym_begin(void) {}
int zsym_panic_allowed(void) { return allow; }
