#include "img.hpp"
static const double TOL = 1.1; // two roundings of the separable passes: at most 1.0, plus float error
static Img blur(const Img &a, double r) { Buf in(a); u8 *p = fcv_apply_gaussian_blur(a.w, a.h, r, in.p); REQUIRE_F(in.same(a.d), "input modified"); return take(p, a.w, a.h, 4, "blur"); }
// exact separable, renormalised Gaussian in double precision
static std::vector<double> ref(const Img &a, double r) {
  int K = (int)floor(r); double s2 = 2 * (r / 3) * (r / 3); std::vector<double> wt(K + 1); for (int k = 0; k <= K; k++) wt[k] = k == 0 ? 1 : exp(-(double)k * k / s2);
  std::vector<double> h(a.n() * 3), o(a.n() * 3);
  for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { double s[3] = {0, 0, 0}, ws = 0; for (int k = -std::min<i64>(K, x); k <= std::min<i64>(K, (i64)a.w - 1 - x); k++) { double w = wt[abs(k)]; ws += w; const u8 *p = a.px(x + k, y); for (int c = 0; c < 3; c++) s[c] += w * p[c]; } for (int c = 0; c < 3; c++) h[((size_t)y * a.w + x) * 3 + c] = s[c] / ws; }
  for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { double s[3] = {0, 0, 0}, ws = 0; for (int k = -std::min<i64>(K, y); k <= std::min<i64>(K, (i64)a.h - 1 - y); k++) { double w = wt[abs(k)]; ws += w; for (int c = 0; c < 3; c++) s[c] += w * h[((size_t)(y + k) * a.w + x) * 3 + c]; } for (int c = 0; c < 3; c++) o[((size_t)y * a.w + x) * 3 + c] = s[c] / ws; }
  return o;
}
static double radius(Case &c) { switch (c.pick({4, 3, 3, 1, 1, 1})) { case 0: return c.range(1, 5); case 1: return c.range(1, 24) / 2.0; case 2: return c.real(0.05, 12); case 3: return c.range(10, 60); case 4: return c.oneof<double>({1000, 999.5, 500, 100.25, 255}); default: return c.oneof<double>({0.5, 0.999, 1e-3, 1e-10, 1e-30, 1e-200, 5e-324}); } }
static void value(Case &c) {
  double r = radius(c); Img a = gen_img(c, 4, r > 12 ? 900 : 2500); c.note(fmt("blur %.17g of %s", r, show(a).c_str())); c.label(r != floor(r) ? "fractional radius" : r > 12 ? "large radius" : "integral radius"); if (r >= std::max(a.w, a.h)) c.label("radius covers the image"); c.nontrivial(multi_valued(a) && r >= 1);
  Img o = blur(a, r); auto e = ref(a, r); int K = (int)floor(r);
  // running local range in both directions
  for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { const u8 *p = o.px(x, y); for (int k = 0; k < 3; k++) { double v = e[((size_t)y * a.w + x) * 3 + k]; REQUIRE_F(fabs(p[k] - v) <= TOL, "pixel (%u,%u) channel %d is %u, the exact Gaussian average is %.4f (radius %.6g, %ux%u)", x, y, k, p[k], v, r, a.w, a.h); } REQUIRE_F(p[3] == 255, "pixel (%u,%u) is not opaque", x, y); }
  for (int t = 0; t < 8; t++) { u32 x = c.draw(a.w), y = c.draw(a.h); u8 lo[3] = {255, 255, 255}, hi[3] = {0, 0, 0}; for (i64 yy = std::max<i64>(0, (i64)y - K); yy <= std::min<i64>(a.h - 1, (i64)y + K); yy++) for (i64 xx = std::max<i64>(0, (i64)x - K); xx <= std::min<i64>(a.w - 1, (i64)x + K); xx++) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], a.px(xx, yy)[k]); hi[k] = std::max(hi[k], a.px(xx, yy)[k]); } for (int k = 0; k < 3; k++) REQUIRE_F(o.px(x, y)[k] >= lo[k] && o.px(x, y)[k] <= hi[k], "pixel (%u,%u) channel %d is %u, outside the covered range %u..%u", x, y, k, o.px(x, y)[k], lo[k], hi[k]); }
}
static void symmetry(Case &c) {
  double r = radius(c); Img a = gen_img(c, 4, 1200); c.note(fmt("symmetries of blur %.17g on %s", r, show(a).c_str())); c.nontrivial(multi_valued(a) && r >= 1);
  Img o = blur(a, r); auto near = [&](const Img &x, const char *t, int d) { REQUIRE_F(x.w == o.w && x.h == o.h, "%s size", t); for (size_t i = 0; i < x.d.size(); i++) REQUIRE_F(abs((int)x.d[i] - o.d[i]) <= d, "%s: byte %zu is %u vs %u", t, i, x.d[i], o.d[i]); };
  near(R_flipx(blur(R_flipx(a), r)), "horizontal mirror", 1); near(R_flipy(blur(R_flipy(a), r)), "vertical mirror", 1); near(R_transpose(blur(R_transpose(a), r)), "transpose", 2);
  Img b = a; for (size_t i = 0; i < b.n(); i++) { std::swap(b.d[i * 4], b.d[i * 4 + 1]); b.d[i * 4 + 3] = ~b.d[i * 4 + 3]; } Img p = blur(b, r); for (size_t i = 0; i < p.n(); i++) std::swap(p.d[i * 4], p.d[i * 4 + 1]); near(p, "exchanging channels and changing alpha", 0);
}
static void constant(Case &c) {
  double r = radius(c); u32 w, h; gen_size(c, w, h, 3000); u8 v[4] = {gen_byte(c), gen_byte(c), (u8)c.draw(256), gen_byte(c)}; Img a; a.w = w; a.h = h; a.d.resize(a.n() * 4); for (size_t i = 0; i < a.n(); i++) memcpy(&a.d[i * 4], v, 4); c.note(fmt("blur %.17g of constant %u,%u,%u %ux%u", r, v[0], v[1], v[2], w, h)); c.nontrivial(r >= 1); c.label("constant");
  Img o = blur(a, r); for (size_t i = 0; i < a.n(); i++) REQUIRE_F(!memcmp(&o.d[i * 4], v, 3), "constant colour %u,%u,%u becomes %u,%u,%u (radius %.6g, %ux%u)", v[0], v[1], v[2], o.d[i * 4], o.d[i * 4 + 1], o.d[i * 4 + 2], r, w, h);
  if (c.coin()) { Img q = gen_img(c, 4, 500, true); cmp_img(blur(q, 0), q, "radius 0"); }
}
static void reject(Case &c) { Img a = gen_img(c, 4, 64); double r = c.oneof<double>({-1, -0.5, NAN, INFINITY, -INFINITY, 1000.0001, 1001, 1e9, 1e300, -1e-300, 4294967296.0}); c.note(fmt("invalid radius %g", r)); c.nontrivial(); c.label("invalid radius"); Buf in(a); u8 *p = fcv_apply_gaussian_blur(a.w, a.h, r, in.p); bool got = p; free(p); REQUIRE_F(!got, "radius %g accepted", r); }
static void big(Case &c) { double r = c.real(1, 8); u32 w = c.range(300, 1000), h = c.range(300, 1000); if (c.chance(1, 3)) { w = c.range(30000, 70000); h = c.range(1, 3); if (c.coin()) std::swap(w, h); } Img a = gen_content(c, w, h, 4); c.note(fmt("blur %.6g of %ux%u", r, w, h)); c.nontrivial(); c.label("big"); Img o = blur(a, r); auto e = ref(a, r); for (size_t i = 0; i < a.n(); i++) for (int k = 0; k < 3; k++) REQUIRE_F(fabs(o.d[i * 4 + k] - e[i * 3 + k]) <= TOL && o.d[i * 4 + 3] == 255, "pixel %zu channel %d is %u, exact %.4f", i, k, o.d[i * 4 + k], e[i * 3 + k]); }
Property property() {
  return {"C06", "Random images and radii (integral, fractional, larger than the image, tiny, maximal); every pixel compared with a double-precision renormalised Gaussian; mirror/transpose/channel laws; constants; invalid radii. Non-trivial: non-constant image and radius at least 1 (or an invalid radius, or a constant image with radius at least 1).",
    {{"value", value, 9000, 150000}, {"symmetry", symmetry, 5000, 80000}, {"constant", constant, 6000, 100000}, {"reject", reject, 300, 2000}, {"big", big, 16, 200}}, {"tolerance 1.1 grey levels for the rounding of two 8-bit passes in single precision"}};
}
