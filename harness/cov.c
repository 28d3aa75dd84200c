// Callbacks of SanitizerCoverage: which edges were taken how often, and how close the
// operands of comparisons came.  Linked into the harness for mode "cov".
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define MODULES 64
#define VALUES (1u << 18)

static struct { uint8_t *start, *stop, *seen; } modules[MODULES];
static int n_modules;
static uint8_t values[VALUES], values_seen[VALUES];
static uint32_t touched[1 << 16];
static unsigned n_touched;
static int on;

void *calloc(size_t, size_t);

void __sanitizer_cov_8bit_counters_init(uint8_t *start, uint8_t *stop) {
  if (start == stop || n_modules == MODULES) return;
  for (int i = 0; i < n_modules; i++)
    if (modules[i].start == start) return;
  modules[n_modules].start = start;
  modules[n_modules].stop = stop;
  modules[n_modules].seen = calloc(1, stop - start + 8);
  n_modules++;
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }

static inline void compare(uintptr_t pc, uint64_t a, uint64_t b) {
  if (!on) return;
  uint64_t d = a > b ? a - b : b - a;
  // 0, 1, 2, 3, then by powers of two
  unsigned k = d < 4 ? (unsigned)d : 64 - __builtin_clzll(d) + 1;
  if (k > 24) k = 24;
  uint64_t h = ((pc * 0x9e3779b97f4a7c15ull) >> 20) + k * 2 + (a > b);
  uint32_t v = h & (VALUES - 1);
  if (!values[v]) {
    values[v] = 1;
    if (n_touched < sizeof touched / sizeof *touched) touched[n_touched++] = v;
  }
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { compare(PC, a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) { (void)v; (void)cases; }

unsigned hv_cov_size(void) {
  unsigned n = 0;
  for (int i = 0; i < n_modules; i++) n += modules[i].stop - modules[i].start;
  return n;
}
// Start a case
void hv_cov_start(void) {
  for (int i = 0; i < n_modules; i++)
    memset(modules[i].start, 0, modules[i].stop - modules[i].start);
  for (unsigned i = 0; i < n_touched; i++) values[touched[i]] = 0;
  n_touched = 0;
  on = 1;
}
static unsigned bucket(uint8_t c) {
  return c < 4 ? c - 1 : c < 8 ? 3 : c < 16 ? 4 : c < 32 ? 5 : c < 128 ? 6 : 7;
}
// End a case; the number of things never seen before: edges and counts, near comparisons
void hv_cov_stop(unsigned *edges, unsigned *compares) {
  on = 0;
  unsigned n = 0, m = 0;
  for (int i = 0; i < n_modules; i++) {
    uint8_t *p = modules[i].start, *e = modules[i].stop, *s = modules[i].seen;
    while (p < e) {
      if (p + 8 <= e) {
        uint64_t w;
        memcpy(&w, p, 8);
        if (!w) { p += 8; s += 8; continue; }
      }
      if (*p) {
        uint8_t b = 1u << bucket(*p);
        if (!(*s & b)) { *s |= b; n++; }
      }
      p++; s++;
    }
  }
  for (unsigned i = 0; i < n_touched; i++)
    if (!values_seen[touched[i]]) { values_seen[touched[i]] = 1; m++; }
  *edges = n;
  *compares = m;
}
