// Allocation wrappers (link with -Wl,--wrap=malloc,...): while control is inside a library call they count and
// track allocations, fill fresh memory with a chosen pattern and can refuse chosen allocations.
#pragma once
#include "api.hpp"
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
namespace alloc {
static const size_t SLOTS = 1u << 16;
static void *table_[SLOTS]; static size_t sizes_[SLOTS]; static size_t live = 0, live_bytes = 0;
static u64 count = 0;                          // allocations requested inside the library since reset
static bool armed = false; static u64 fail_at = 0; // fail the fail_at-th (1-based)
static u64 fail_from = 0;                      // fail this and all later ones
static u64 fail_mask = 0; static bool use_mask = false; // fail number k when bit k%64 is set
static u64 failed = 0; static u64 fill = 0; static bool fill_on = false;
static void track(void *p, size_t n) { if (!p) return; size_t h = mix64((u64)p) % SLOTS; for (size_t k = 0; k < SLOTS; k++) { size_t q = (h + k) % SLOTS; if (!table_[q] || table_[q] == (void *)1) { table_[q] = p; sizes_[q] = n; live++; live_bytes += n; return; } } }
static bool untrack(void *p) { if (!p || !live) return false; size_t h = mix64((u64)p) % SLOTS; for (size_t k = 0; k < SLOTS; k++) { size_t q = (h + k) % SLOTS; if (!table_[q]) return false; if (table_[q] == p) { table_[q] = (void *)1; live--; live_bytes -= sizes_[q]; return true; } } return false; }
static void reset() { memset(table_, 0, sizeof table_); live = live_bytes = 0; count = failed = 0; armed = false; fail_at = fail_from = 0; use_mask = false; fill_on = false; }
static bool refuse() {
  count++;
  if (!armed) return false;
  bool r = (fail_at && count == fail_at) || (fail_from && count >= fail_from) || (use_mask && (fail_mask >> (count % 64) & 1));
  if (r) failed++;
  return r;
}
static void dofill(void *p, size_t n) { if (!fill_on || !p) return; u8 *b = (u8 *)p; u64 x = fill; for (size_t k = 0; k < n; k++) { b[k] = (u8)x; x = x * 6364136223846793005ull + 1442695040888963407ull; x ^= x >> 29; if ((fill & 3) == 0) x = fill; } }
}
#ifdef HARNESS_TSAN
extern "C" { // no bookkeeping: it would add synchronisation between the threads
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void __wrap_free(void *p) { __real_free(p); }
}
#else
extern "C" {
void *__wrap_malloc(size_t n) {
  if (!g_inlib) return __real_malloc(n);
  if (alloc::refuse()) return nullptr;
  void *p = __real_malloc(n); alloc::track(p, n); alloc::dofill(p, n); return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!g_inlib) return __real_calloc(a, b);
  if (alloc::refuse()) return nullptr;
  void *p = __real_calloc(a, b); alloc::track(p, a * b); return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (!g_inlib) { bool t = alloc::untrack(q); void *p = __real_realloc(q, n); if (t) alloc::track(p, n); return p; }
  if (alloc::refuse()) return nullptr;
  alloc::untrack(q); void *p = __real_realloc(q, n); if (p) alloc::track(p, n); else if (n) alloc::track(q, 0); return p;
}
void __wrap_free(void *p) { alloc::untrack(p); __real_free(p); }
}
#endif
