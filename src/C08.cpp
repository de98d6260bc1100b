#include "img.hpp"
struct Hist { u64 n[256] = {}; u64 N = 0; u64 S = 0; };
static Hist hist(const std::vector<u8> &g) { Hist h; for (u8 v : g) { h.n[v]++; h.N++; h.S += v; } return h; }
// between-class variance times N^2 (exact up to long double) for every threshold
static void variances(const Hist &h, long double v[256]) { u64 w = 0, s = 0; for (int t = 0; t < 256; t++) { w += h.n[t]; s += h.n[t] * t; u64 w1 = h.N - w; if (!w || !w1) { v[t] = 0; continue; } long double d = (long double)s / w - (long double)(h.S - s) / w1; v[t] = (long double)w * w1 * d * d; } }
static const long double REL = 1e-5L;
static Img gen_gray_mix(Case &c) { // histogram-shaped images
  u32 w, h; gen_size(c, w, h, 4000); int k = c.pick({3, 3, 2, 2, 2}); if (k == 4) return gen_content(c, w, h, 4); Img a; a.w = w; a.h = h; a.d.assign(a.n() * 4, 255); u64 seed = c.draw(1u << 30); Rng r(seed);
  int m1 = c.draw(256), m2 = c.draw(256), s1 = 1 + c.draw(30), s2 = 1 + c.draw(30), mixp = c.oneof<int>({50, 1, 5, 95, 99, 20});
  for (size_t i = 0; i < a.n(); i++) { int v; if (k == 0) v = (int)r.below(100) < mixp ? m1 + (int)r.below(s1) - s1 / 2 : m2 + (int)r.below(s2) - s2 / 2; else if (k == 1) v = i < 1 + c.index % 3 ? m1 : m2; /* a few outliers */ else if (k == 2) v = (m1 % 32) + (int)r.below(1 + s1); /* very dark */ else v = 255 - (m1 % 32) - (int)r.below(1 + s1); /* very bright */ v = std::max(0, std::min(255, v)); for (int q = 0; q < 3; q++) a.d[i * 4 + q] = (u8)v; a.d[i * 4 + 3] = (u8)r.next(); }
  return a;
}
static void hard(Case &c) {
  Img a = c.chance(2, 3) ? gen_gray_mix(c) : gen_img(c, 4, 4000, c.coin()); c.note("threshold " + show(a)); Buf in(a); Img o = take(fcv_otsu_threshold_rgba(a.w, a.h, false, in.p), a.w, a.h, 4, "otsu"); REQUIRE_F(in.same(a.d), "input modified");
  auto g = ref_gray(a); Hist h = hist(g); int maxb = -1, minw = 256; for (size_t i = 0; i < g.size(); i++) { const u8 *p = &o.d[i * 4]; REQUIRE_F((p[0] == 0 || p[0] == 255) && p[0] == p[1] && p[1] == p[2] && p[3] == 255, "pixel %zu is %u,%u,%u,%u: neither opaque black nor white", i, p[0], p[1], p[2], p[3]); if (p[0]) minw = std::min<int>(minw, g[i]); else maxb = std::max<int>(maxb, g[i]); }
  REQUIRE_F(maxb < minw, "gray %d is black but gray %d is white: no single threshold", maxb, minw);
  long double v[256]; variances(h, v); long double best = 0; for (long double x : v) best = std::max(best, x); int distinct = 0; for (u64 n : h.n) distinct += n > 0; c.nontrivial(distinct > 1); c.label(distinct == 1 ? "single gray" : distinct == 2 ? "two grays" : "many grays");
  if (distinct == 1) return; // one colour either way
  REQUIRE_F(maxb >= 0 && minw < 256, "an image with %d gray values became one colour", distinct);
  REQUIRE_F(v[maxb] >= best * (1 - REL), "threshold %d has between-class variance %.9Lg, the optimum is %.9Lg", maxb, v[maxb] / ((long double)h.N * h.N), best / ((long double)h.N * h.N));
}
static void smooth(Case &c) {
  Img a = c.chance(4, 5) ? gen_gray_mix(c) : gen_img(c, 4, 4000); c.note("smooth threshold " + show(a)); Buf in(a); Img o = take(fcv_otsu_threshold_rgba(a.w, a.h, true, in.p), a.w, a.h, 4, "otsu"); REQUIRE_F(in.same(a.d), "input modified");
  auto g = ref_gray(a); Hist h = hist(g); int map[256]; for (int &m : map) m = -1; for (size_t i = 0; i < g.size(); i++) { const u8 *p = &o.d[i * 4]; REQUIRE_F(p[0] == p[1] && p[1] == p[2] && p[3] == 255, "pixel %zu is not opaque gray", i); REQUIRE_F(map[g[i]] < 0 || map[g[i]] == p[0], "gray %u maps to %d and %u", g[i], map[g[i]], p[0]); map[g[i]] = p[0]; }
  int last = 0; for (int t = 0; t < 256; t++) if (map[t] >= 0) { REQUIRE_F(map[t] >= last, "brightness order reversed: gray %d becomes %d after %d", t, map[t], last); last = map[t]; }
  int distinct = 0; for (u64 n : h.n) distinct += n > 0; long double v[256]; variances(h, v); long double best = 0; for (long double x : v) best = std::max(best, x); c.nontrivial(distinct > 1);
  if (distinct == 1) { c.label("single gray"); return; }
  bool ok = false; int T0 = -1; // some (near-)optimal threshold explains the whole output
  for (int t = 0; t < 256 && !ok; t++) if (v[t] >= best * (1 - REL)) { if (T0 < 0) T0 = t; for (int clamp = 0; clamp < 2 && !ok; clamp++) { int lo = t - 16, hi = t + 16; if (clamp) { lo = std::max(lo, 0); hi = std::min(hi, 255); } bool all = true; for (int q = 0; q < 256 && all; q++) if (map[q] >= 0) { double e = q < lo ? 0 : q > hi ? 255 : (q - lo) * 255.0 / (hi - lo); if (fabs(map[q] - e) >= 1.0) all = false; } ok = all; } }
  if (T0 < 16) c.label("threshold below 16"); else if (T0 > 239) c.label("threshold above 239"); else c.label("threshold in the middle");
  REQUIRE_F(ok, "output is not the 32-level ramp around an optimal threshold (optimum %d); gray %d maps to %d", T0, T0, map[T0]);
}
static void global(Case &c) { Img a = gen_img(c, 1, 5000); u8 t = gen_byte(c); c.note(fmt("global threshold %u on %s", t, show(a).c_str())); c.nontrivial(multi_valued(a)); Buf in(a); fcv_apply_global_threshold(a.n(), in.p, t); for (size_t i = 0; i < a.n(); i++) REQUIRE_F(in.p[i] == (a.d[i] > t ? 255 : 0), "value %u with threshold %u becomes %u", a.d[i], t, in.p[i]); }
// nearly constant large images: numerically hard histograms
static void large(Case &c) {
  u32 w = c.range(300, 1400), h = c.range(300, 1400); Img a; a.w = w; a.h = h; a.d.assign(a.n() * 4, 255); int base = c.draw(256), other = c.coin() ? std::min(255, base + 1 + (int)c.draw(3)) : (int)c.draw(256); int m = 1 + c.draw(c.coin() ? 4 : 400); for (size_t i = 0; i < a.n(); i++) a.d[i * 4] = a.d[i * 4 + 1] = a.d[i * 4 + 2] = base; Rng r(c.draw(1 << 20)); for (int k = 0; k < m; k++) { size_t i = r.below(a.n()); int v = c.coin() ? other : (other + (int)r.below(4)) & 255; a.d[i * 4] = a.d[i * 4 + 1] = a.d[i * 4 + 2] = v; }
  c.note(fmt("threshold %ux%u of gray %d with %d outliers near %d", w, h, base, m, other)); c.label("nearly constant large"); Buf in(a); Img o = take(fcv_otsu_threshold_rgba(w, h, false, in.p), w, h, 4, "otsu"); auto g = ref_gray(a); Hist hh = hist(g); long double v[256]; variances(hh, v); long double best = 0; for (long double x : v) best = std::max(best, x); if (best == 0) return; c.nontrivial();
  int maxb = -1, minw = 256; for (size_t i = 0; i < g.size(); i++) if (o.d[i * 4]) minw = std::min<int>(minw, g[i]); else maxb = std::max<int>(maxb, g[i]); REQUIRE_F(maxb < minw && maxb >= 0 && minw < 256, "black up to %d, white from %d: no class separation", maxb, minw); REQUIRE_F(v[maxb] >= best * (1 - REL), "threshold %d has variance %.9Lg, optimum %.9Lg", maxb, v[maxb] / ((long double)hh.N * hh.N), best / ((long double)hh.N * hh.N));
}
// scanned pages: more than 2^24 pixels, sums of gray values beyond 32 bits
static void page(Case &c) {
  u32 w = c.range(4200, 5600), h = c.range(4200, 5600); Img a; a.w = w; a.h = h; a.d.assign(a.n() * 4, 255); int paper = c.index % 3 == 0 ? c.range(0, 60) : c.range(200, 255), ink = c.draw(256), share = 1 + c.draw(40), noise = c.draw(20); u64 s = c.draw(1 << 20); Rng r(s); for (size_t i = 0; i < a.n(); i++) { u64 z = r.next(); int v = (int)(z % 100) < share ? ink : paper; v += noise ? (int)((z >> 20) % noise) - noise / 2 : 0; v = std::max(0, std::min(255, v)); a.d[i * 4] = a.d[i * 4 + 1] = a.d[i * 4 + 2] = v; }
  c.note(fmt("threshold %ux%u page %d, %d%% ink %d, noise %d", w, h, paper, share, ink, noise)); c.label("page over 16 megapixels"); auto g = ref_gray(a); Hist hh = hist(g); Buf in(a); a.d.clear(); a.d.shrink_to_fit(); u8 *o = fcv_otsu_threshold_rgba(w, h, false, in.p); REQUIRE_F(o, "no image"); Out own(o); long double v[256]; variances(hh, v); long double best = 0; for (long double x : v) best = std::max(best, x); if (best == 0) return; c.nontrivial();
  int maxb = -1, minw = 256; for (size_t i = 0; i < g.size(); i++) if (o[i * 4]) minw = std::min<int>(minw, g[i]); else maxb = std::max<int>(maxb, g[i]); REQUIRE_F(maxb < minw && maxb >= 0 && minw < 256, "black up to %d, white from %d: no class separation", maxb, minw); REQUIRE_F(v[maxb] >= best * (1 - REL), "threshold %d has variance %.9Lg, optimum %.9Lg", maxb, v[maxb] / ((long double)hh.N * hh.N), best / ((long double)hh.N * hh.N));
}
Property property() {
  return {"C08", "Images with shaped histograms (mixtures, outliers, very dark, very bright, nearly constant large, arbitrary); oracle: exact between-class variance of every threshold, the output partition must attain the maximum within 1e-5 relative; smooth mode must be the ramp around some optimal threshold. Non-trivial: at least two gray values.",
    {{"hard", hard, 16000, 250000}, {"smooth", smooth, 16000, 250000}, {"global", global, 5000, 60000}, {"large", large, 160, 3000}, {"page", page, 6, 40}}, {"any of several (near-)optimal thresholds is accepted", "images of one gray value may become black or white", "ramp ends outside 0..255 may be clamped or extrapolated"}};
}
