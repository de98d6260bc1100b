#include "img.hpp"
static void compose_on(Case &c, Img a) {
  bool dbl = c.coin(); c.note(fmt("bw_smart%s %s", dbl ? " smooth" : "", show(a).c_str())); c.nontrivial(multi_valued(a)); c.label(dbl ? "smooth" : "hard");
  Buf in(a); Img o = take(fcv_bw_smart(a.w, a.h, dbl, in.p), a.w, a.h, 4, "bw_smart"); REQUIRE_F(in.same(a.d), "input modified");
  for (size_t i = 0; i < a.n(); i++) { const u8 *p = &o.d[i * 4]; REQUIRE_F(p[0] == p[1] && p[1] == p[2] && p[3] == 255, "pixel %zu is not opaque gray", i); if (!dbl) REQUIRE_F(p[0] == 0 || p[0] == 255, "pixel %zu is %u, not black or white", i, p[0]); }
  // independent high-pass on top of the public blur and Otsu
  Img g = a; auto gr = ref_gray(a); for (size_t i = 0; i < a.n(); i++) { g.d[i * 4] = g.d[i * 4 + 1] = g.d[i * 4 + 2] = gr[i]; g.d[i * 4 + 3] = 255; }
  double r = 0.1 * sqrt((double)a.w * a.h); Buf gb(g); Img bl = take(fcv_apply_gaussian_blur(a.w, a.h, r, gb.p), a.w, a.h, 4, "blur"); Img hf = g; bool sat = false; for (size_t i = 0; i < a.n(); i++) { int v = 127 + gr[i] - bl.d[i * 4]; if (v < 0 || v > 255) sat = true; v = std::max(0, std::min(255, v)); hf.d[i * 4] = hf.d[i * 4 + 1] = hf.d[i * 4 + 2] = v; } if (sat) c.label("high-pass saturates");
  Buf hb(hf); Img e = take(fcv_otsu_threshold_rgba(a.w, a.h, dbl, hb.p), a.w, a.h, 4, "otsu"); cmp_img(o, e, "bw_smart vs Otsu of the high-pass image");
}
static void compose(Case &c) { compose_on(c, gen_img(c, 4, 4500, c.coin())); }
// sides beyond 65535, and blur radii beyond 100 (more than a megapixel)
static void big(Case &c) {
  u32 w, h; bool mega = c.chance(1, 3); if (mega) { if (c.coin()) { w = c.range(700, 1500); h = c.range(1, 300) + 1020000 / w; } else { h = c.range(1, 60); w = 1020000 / h + c.range(1, 20000); } } else { h = c.range(1, 3); w = c.range(65536, 140000); } if (c.coin()) std::swap(w, h); c.label(mega ? "more than a megapixel" : "long"); compose_on(c, gen_content(c, w, h, 4));
}
// fully independent: double Gaussian, thresholds recovered from the output
static void independent(Case &c) {
  u32 w, h; gen_size(c, w, h, 1600); Img a = gen_content(c, w, h, 4); c.note("bw_smart independent " + show(a)); c.nontrivial(multi_valued(a)); auto g = ref_gray(a); double r = 0.1 * sqrt((double)w * h); int K = (int)floor(r); double s2 = 2 * (r / 3) * (r / 3);
  std::vector<double> t(a.n()), b(a.n()); auto wt = [&](int k) { return k == 0 ? 1.0 : exp(-(double)k * k / s2); };
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { double s = 0, ws = 0; for (int k = -K; k <= K; k++) { i64 q = (i64)x + k; if (q < 0 || q >= w) continue; s += wt(k) * g[(size_t)y * w + q]; ws += wt(k); } t[(size_t)y * w + x] = s / ws; }
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { double s = 0, ws = 0; for (int k = -K; k <= K; k++) { i64 q = (i64)y + k; if (q < 0 || q >= h) continue; s += wt(k) * t[(size_t)q * w + x]; ws += wt(k); } b[(size_t)y * w + x] = s / ws; }
  Buf in(a); Img o = take(fcv_bw_smart(w, h, false, in.p), w, h, 4, "bw_smart"); double maxb = -1e9, minw = 1e9; for (size_t i = 0; i < a.n(); i++) { double v = std::max(0.0, std::min(255.0, 127 + g[i] - b[i])); if (o.d[i * 4]) minw = std::min(minw, v); else maxb = std::max(maxb, v); }
  REQUIRE_F(maxb <= minw + 2.3, "a pixel with local contrast %.2f is black while one with %.2f is white", maxb - 127, minw - 127);
}
Property property() {
  return {"C09", "Random images of all shapes; output compared with Otsu of an independently computed high-pass image over the public blur, plus a fully independent double-precision separation test and well-formedness. Non-trivial: non-constant image.",
    {{"compose", compose, 10000, 150000}, {"independent", independent, 5000, 80000}, {"big", big, 3, 100}}, {"blur and Otsu themselves are decided by C06 and C08"}};
}
