#include "img.hpp"
static std::vector<u8> sobel(const Img &a) { Buf in(a); Img o = take(fcv_sobel_edge_detection(a.w, a.h, a.ch, in.p), a.w, a.h, 1, "sobel"); REQUIRE_F(in.same(a.d), "input modified"); return o.d; }
static std::vector<u8> gray_of(const Img &a) { std::vector<u8> g(a.n()); for (size_t i = 0; i < g.size(); i++) g[i] = a.ch == 1 ? a.d[i] : luma(a.d[i * a.ch], a.d[i * a.ch + 1], a.d[i * a.ch + 2]); return g; }
static void check(const Img &a, const std::vector<u8> &o) {
  auto g = gray_of(a); std::vector<double> m(a.n()); auto at = [&](i64 x, i64 y) -> int { x = std::max<i64>(0, std::min<i64>(a.w - 1, x)); y = std::max<i64>(0, std::min<i64>(a.h - 1, y)); return g[(size_t)y * a.w + x]; };
  double mn = 1e18, mx = 0; for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) { int gx = at(x + 1, y - 1) + 2 * at(x + 1, y) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x - 1, y) - at(x - 1, y + 1), gy = at(x - 1, y + 1) + 2 * at(x, y + 1) + at(x + 1, y + 1) - at(x - 1, y - 1) - 2 * at(x, y - 1) - at(x + 1, y - 1); double v = sqrt((double)gx * gx + (double)gy * gy); m[(size_t)y * a.w + x] = v; mn = std::min(mn, v); mx = std::max(mx, v); }
  for (size_t i = 0; i < m.size(); i++) { if (mx == mn) { REQUIRE_F(o[i] == 0, "equal gradients everywhere, but pixel %zu is %u", i, o[i]); continue; } double e = (m[i] - mn) / (mx - mn) * 255; REQUIRE_F(fabs(o[i] - e) <= 1.0 + 1e-9, "pixel (%zu,%zu) is %u, expected %.3f (gradient %.3f in %.3f..%.3f)", i % a.w, i / a.w, o[i], e, m[i], mn, mx); if (m[i] == mx) REQUIRE_F(o[i] == 255, "the strongest edge is %u", o[i]); if (m[i] == mn) REQUIRE_F(o[i] == 0, "the weakest edge is %u", o[i]); }
}
static void value(Case &c) { u32 ch = c.oneof<u32>({4, 1, 3}); Img a = gen_img(c, ch, 5000, c.coin()); c.note("sobel " + show(a)); c.nontrivial(multi_valued(a)); c.label(fmt("%u channels", ch)); check(a, sobel(a)); }
static void layouts(Case &c) { // the same picture in all three layouts
  Img a = gen_img(c, 4, 2500, c.coin()); c.note("sobel layouts " + show(a)); c.nontrivial(multi_valued(a)); Img r; r.w = a.w; r.h = a.h; r.ch = 3; Img g = r; g.ch = 1; g.d = ref_gray(a); for (size_t i = 0; i < a.n(); i++) for (int k = 0; k < 3; k++) r.d.push_back(a.d[i * 4 + k]);
  auto o = sobel(a); REQUIRE_F(sobel(g) == o, "RGBA and gray layouts give different edges"); REQUIRE_F(sobel(r) == o, "RGBA and RGB layouts give different edges");
}
static void symmetry(Case &c) {
  Img a = gen_img(c, 1, 2500); c.note("sobel symmetries " + show(a)); c.nontrivial(multi_valued(a)); Img o; o.w = a.w; o.h = a.h; o.ch = 1; o.d = sobel(a); auto S = [&](const Img &x) { Img y; y.w = x.w; y.h = x.h; y.ch = 1; y.d = sobel(x); return y; };
  cmp_img(R_flipx(S(R_flipx(a))), o, "horizontal mirror"); cmp_img(R_flipy(S(R_flipy(a))), o, "vertical mirror"); cmp_img(R_transpose(S(R_transpose(a))), o, "transpose"); Img n = a; for (u8 &v : n.d) v = 255 - v; cmp_img(S(n), o, "inverted image");
}
static void big(Case &c) { u32 w = c.range(300, 1200), h = c.range(300, 1200), ch = c.oneof<u32>({4, 1, 3}); if (c.chance(1, 3)) { w = c.range(30000, 90000); h = c.range(1, 4); if (c.coin()) std::swap(w, h); } Img a = gen_content(c, w, h, ch, true); c.note(fmt("sobel %ux%ux%u", w, h, ch)); c.nontrivial(); c.label("big"); check(a, sobel(a)); }
static void strips(Case &c) { Strips s; value(c); c.label("strip"); }
Property property() {
  return {"C10", "Random 1/3/4 channel images of all sizes; integer-exact gradients with replicated borders, normalised to the image's range, tolerance one level; layout agreement; mirror/transpose/inversion laws. Non-trivial: non-constant image.",
    {{"value", value, 14000, 250000}, {"layouts", layouts, 6000, 80000}, {"symmetry", symmetry, 5000, 80000}, {"big", big, 30, 400}, {"strips", strips, 80, 1500}}, {}};
}
