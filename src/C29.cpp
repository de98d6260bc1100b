// C29: running out of memory is reported, not fatal. Every single allocation of a call is made to fail, then random patterns.
#include "alloc.hpp"
static Api A;
// Documented fallbacks: corner detection (and the extraction built on it) falls back to the corners of the whole
// image, sort_corners to zeros, drawing to an unchanged image.
static Corners whole(const Call &k) { double r = (double)k.img.w - 1, b = (double)k.img.h - 1; return Corners{0, 0, r, 0, r, b, 0, b}; }
static Result fallback(const Call &k) {
  Result r; Corners q = whole(k);
  switch (k.fn) {
    case F_fcv_detect_corners: case F_fcv_detect_corners_ptr: r.putds(&q, 8); return r;
    case F_fcv_extract_document: case F_fcv_extract_document_auto: {
      u32 ow = k.u[0], oh = k.u[1];
      if (k.fn == F_fcv_extract_document_auto) { ow = std::max(100.0, q.tr_x + 0.5); oh = std::max(100.0, q.br_y + 0.5); }
      double R = (double)ow - 1, B = (double)oh - 1; Corners dst{0, 0, R, 0, R, B, 0, B};
      Call t; t.fn = F_fcv_calculate_perspective_transform; t.c1 = dst; t.c2 = q; Result m = exec(A, t, eng::scratch_dir); if (m.null) { r.null = true; return r; }
      Call ap; ap.fn = F_fcv_apply_matrix_3x3; ap.img = k.img; ap.i[0] = ow; ap.i[1] = oh; memcpy(&ap.m, m.bytes.data(), 72); return exec(A, ap, eng::scratch_dir); }
    default: r.null = true; return r;
  }
}
static std::string pattern(const char *what, u64 k, u64 n) { return fmt("%s %llu of %llu allocations", what, (unsigned long long)k, (unsigned long long)n); }
static void judge(const Call &k, const Result &full, const Result &r, const std::string &how, bool hit) {
  const char *N = fn_name[k.fn];
  if (alloc::live) FAILF("%s leaks %zu allocation(s), %zu bytes, when memory runs out (%s)", N, alloc::live, alloc::live_bytes, how.c_str());
  if (r == full || r.null) return;
  bool inplace = k.fn == F_fcv_apply_global_threshold || (k.fn >= F_fcv_set_circle_pixel && k.fn <= F_fcv_fill_disk_lines);
  if (hit && inplace && r.bytes == k.img.d) return; // nothing drawn
  if (hit && k.fn == F_sort_corners) { bool z = r.bytes.size() >= 64; for (int q = 0; z && q < 64; q++) z = r.bytes[q] == 0; if (z) return; }
  if (hit && is_heavy(k.fn) && r == fallback(k)) return;
  FAILF("%s reports an incomplete or different result when memory runs out (%s): %s instead of %s", N, how.c_str(), r.describe().c_str(), full.describe().c_str());
}
static Result run(const Call &k) { u64 c0 = alloc::count; (void)c0; alloc::count = alloc::failed = 0; return exec(A, k, eng::scratch_dir); }
static void one(Case &c, Call &k) {
  c.note(k.show()); c.label(fn_name[k.fn]);
  alloc::reset(); alloc::fill_on = true; alloc::fill = 0xfffffffcull;
  Result full = run(k); u64 n = alloc::count; if (alloc::live) FAILF("%s leaks %zu allocation(s)", fn_name[k.fn], alloc::live);
  if (!n) { c.label("no allocation"); return; }
  c.label(n == 1 ? "1 allocation" : n <= 8 ? "2-8 allocations" : "more than 8 allocations"); c.nontrivial();
  std::vector<u64> ks; if (n <= 40) for (u64 q = 1; q <= n; q++) ks.push_back(q); else { for (u64 q = 1; q <= 12; q++) ks.push_back(q); for (int q = 0; q < 24; q++) ks.push_back(1 + c.draw(n)); for (u64 q = n - 3; q <= n; q++) ks.push_back(q); }
  if (is_heavy(k.fn)) { std::vector<u64> t; for (int q = 0; q < 6; q++) t.push_back(1 + c.draw(n)); ks = t; } // slow: each case tries some, all cases together all
  for (u64 q : ks) {
    alloc::armed = true; alloc::fail_at = q; alloc::fail_from = 0; alloc::use_mask = false;
    Result r = run(k); bool hit = alloc::failed; alloc::armed = false; judge(k, full, r, pattern("fails: number", q, n), hit);
    if (is_heavy(k.fn) && !c.chance(1, 8)) continue;
    alloc::fail_at = 0; alloc::fail_from = q; alloc::armed = true;
    r = run(k); hit = alloc::failed; alloc::armed = false; alloc::fail_from = 0; judge(k, full, r, pattern("all fail from number", q, n), hit);
  }
  for (int t = 0; t < (is_heavy(k.fn) ? 1 : 3); t++) {
    alloc::use_mask = true; alloc::fail_mask = c.draw(~0ull >> 1); if (c.coin()) alloc::fail_mask &= c.draw(~0ull >> 1); alloc::armed = true;
    Result r = run(k); bool hit = alloc::failed; alloc::armed = false; alloc::use_mask = false; judge(k, full, r, "a random pattern of failures", hit);
  }
  Result again = run(k); if (!(again == full)) FAILF("%s gives a different result after a call that ran out of memory", fn_name[k.fn]);
}
static void single(Case &c) { A = api_linked(); Call k = gen_call(c, false); one(c, k); }
// The functions with several stages, more often and with larger images.
static void pipeline(Case &c) {
  A = api_linked();
  Fn f = c.oneof<Fn>({F_fcv_detect_corners, F_fcv_detect_corners_ptr, F_fcv_extract_document, F_fcv_extract_document_auto, F_fcv_bw_smart, F_fcv_watershed_segmentation, F_fcv_corner_peaks, F_fcv_foerstner_corner, F_fcv_binary_closing_disk, F_fcv_binary_opening_disk, F_fcv_otsu_threshold_rgba, F_sort_corners});
  Call k = gen_call_of(c, f, c.chance(1, 5)); one(c, k);
}
// A history in which some calls run out of memory: the others are not affected.
static void history(Case &c) {
  A = api_linked(); alloc::reset(); int n = c.range(2, 5); std::vector<Call> v; std::vector<Result> want;
  for (int q = 0; q < n; q++) { v.push_back(gen_call(c, false)); c.note(fmt("#%d ", q) + v.back().show().substr(0, 120)); want.push_back(run(v[q])); }
  int steps = c.range(3, 10);
  for (int s = 0; s < steps; s++) {
    int q = c.draw(n); bool bad = c.coin();
    if (bad) { alloc::use_mask = true; alloc::fail_mask = c.draw(~0ull >> 1) | 1; if (c.coin()) alloc::fail_mask = 1ull << c.range(1, 9); alloc::armed = true; }
    Result r = run(v[q]); bool hit = alloc::failed; alloc::armed = false; alloc::use_mask = false;
    if (bad) { judge(v[q], want[q], r, fmt("step %d", s), hit); if (hit) c.nontrivial(); }
    else if (!(r == want[q])) FAILF("%s at step %d differs from its first result after other calls ran out of memory", fn_name[v[q].fn], s);
  }
}
Property property() {
  return {"C29", "the call allocates, so at least one failing allocation was injected",
          {{"single", single, 2500, 100000}, {"pipeline", pipeline, 240, 20000}, {"history", history, 800, 30000}},
          {"failures are injected at malloc, calloc and realloc called from the library's objects", "corner detection and extraction: 6 failing allocations are drawn per case", "for calls with more than 40 allocations the failing one is sampled: the first 12, the last 4, 24 random"}};
}
