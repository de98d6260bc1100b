#include "img.hpp"
static void one(const Img &a) { // all three conversions of one image against the formula
  Buf in(a); auto g = ref_gray(a);
  Img rg = take(fcv_grayscale(a.w, a.h, in.p), a.w, a.h, 4, "grayscale"); Img sg = take(fcv_rgba_to_grayscale(a.w, a.h, in.p), a.w, a.h, 1, "rgba_to_grayscale"); REQUIRE_F(in.same(a.d), "input modified");
  for (size_t i = 0; i < g.size(); i++) {
    const u8 *p = &rg.d[i * 4], *s = &a.d[i * 4];
    REQUIRE_F(p[0] == g[i] && p[1] == g[i] && p[2] == g[i] && p[3] == 255, "pixel %zu (%u,%u,%u) becomes %u,%u,%u,%u, expected gray %u opaque", i, s[0], s[1], s[2], p[0], p[1], p[2], p[3], g[i]);
    REQUIRE_F(sg.d[i] == g[i], "pixel %zu (%u,%u,%u) has single-channel gray %u, expected %u", i, s[0], s[1], s[2], sg.d[i], g[i]);
  }
}
static void convert(Case &c) { Img a = gen_img(c, 4, 20000, c.coin()); c.note("grayscale of " + show(a)); c.nontrivial(multi_valued(a)); one(a); }
// slices of the full colour cube: 2^24 colours = 256 slices of 65536
static void cube(Case &c) { u32 r = c.tier ? (u32)(c.index % 256) : (u32)c.draw(256); Img a; a.w = a.h = 256; a.d.resize(65536 * 4); for (u32 g = 0; g < 256; g++) for (u32 b = 0; b < 256; b++) { u8 *p = a.px(b, g); p[0] = r; p[1] = g; p[2] = b; p[3] = (u8)(g * 7 + b); } c.note(fmt("all colours with red %u", r)); c.nontrivial(); c.label("colour cube slice"); one(a); }
static void expand(Case &c) {
  Img a = gen_img(c, 1, 20000); c.note("expand " + show(a)); c.nontrivial(multi_valued(a)); Buf in(a); Img o = take(fcv_single_to_multichannel(a.w, a.h, in.p), a.w, a.h, 4, "single_to_multichannel"); REQUIRE_F(in.same(a.d), "input modified");
  for (size_t i = 0; i < a.n(); i++) REQUIRE_F(o.d[i * 4] == a.d[i] && o.d[i * 4 + 1] == a.d[i] && o.d[i * 4 + 2] == a.d[i] && o.d[i * 4 + 3] == 255, "pixel %zu: %u becomes %u,%u,%u,%u", i, a.d[i], o.d[i * 4], o.d[i * 4 + 1], o.d[i * 4 + 2], o.d[i * 4 + 3]);
  // gray -> RGBA -> gray returns the values (76+150+30 = 256)
  Buf ob(o); Img b = take(fcv_rgba_to_grayscale(a.w, a.h, ob.p), a.w, a.h, 1, "rgba_to_grayscale"); cmp_img(b, a, "expand then convert back");
}
static void stretch(Case &c) {
  Img a; if (c.chance(1, 2)) { u32 w, h; gen_size(c, w, h, 6000); if (c.coin()) { w = 8 * c.range(1, 12); h = 8 * c.range(1, 12); } a = gen_content(c, w, h, 4); if (c.coin()) { // sparse extremes around the 1/64 cut-off
      u64 cut = a.n() / 64; int lo = 40 + c.draw(60), hi = 150 + c.draw(60); for (size_t i = 0; i < a.n(); i++) { u8 v = lo + (i * 37) % (hi - lo); for (int k = 0; k < 3; k++) a.d[i * 4 + k] = v; } i64 nd = (i64)cut + c.range(-1, 1), nb = (i64)cut + c.range(-1, 1); for (i64 i = 0; i < nd && i < (i64)a.n(); i++) for (int k = 0; k < 3; k++) a.d[i * 4 + k] = 5; for (i64 i = 0; i < nb && i < (i64)a.n(); i++) for (int k = 0; k < 3; k++) a.d[(a.n() - 1 - i) * 4 + k] = 250; c.label("extremes near the cut-off"); } }
  else a = gen_img(c, 4, 5000, c.coin());
  c.note("stretch " + show(a)); Buf in(a); Img o = take(fcv_grayscale_stretch(a.w, a.h, in.p), a.w, a.h, 4, "grayscale_stretch"); REQUIRE_F(in.same(a.d), "input modified");
  auto g = ref_gray(a); auto s = g; std::sort(s.begin(), s.end()); size_t k = s.size() / 64; int mn = s[k], mx = s[s.size() - 1 - k]; c.nontrivial(mx > mn); c.label(mx > mn ? "stretched" : "no contrast"); int map[256]; for (int &m : map) m = -1;
  for (size_t i = 0; i < g.size(); i++) { const u8 *p = &o.d[i * 4]; REQUIRE_F(p[0] == p[1] && p[1] == p[2] && p[3] == 255, "pixel %zu is not opaque gray", i); int v = p[0];
    if (mx == mn) REQUIRE_F(v == g[i], "no contrast to stretch, but gray %u becomes %d", g[i], v);
    else if (g[i] < mn) REQUIRE_F(v == 0, "gray %u is among the darkest 1/64 but becomes %d", g[i], v); else if (g[i] > mx) REQUIRE_F(v == 255, "gray %u is among the brightest 1/64 but becomes %d", g[i], v);
    else { double e = (g[i] - mn) * 255.0 / (mx - mn); REQUIRE_F(fabs(v - e) < 1.0, "gray %u in %d..%d becomes %d, expected about %.2f", g[i], mn, mx, v, e); }
    REQUIRE_F(map[g[i]] < 0 || map[g[i]] == v, "equal grays %u map to %d and %d", g[i], map[g[i]], v); map[g[i]] = v; }
  int last = -1; for (int m : map) if (m >= 0) { REQUIRE_F(m >= last, "brightness order reversed"); last = m; }
  if (mx > mn) REQUIRE_F(map[mn] == 0 && map[mx] == 255, "the remaining extremes map to %d and %d", map[mn], map[mx]);
}
static void big(Case &c) { u32 w = c.range(1000, 4000), h = c.range(1000, 3000); if (c.chance(1, 3)) { w = c.range(60000, 200000); h = c.range(1, 4); if (c.coin()) std::swap(w, h); } Img a = gen_content(c, w, h, 4, true); c.note(fmt("%ux%u", w, h)); c.nontrivial(); c.label("big"); one(a); auto g = ref_gray(a); auto s = g; std::sort(s.begin(), s.end()); size_t k = s.size() / 64; int mn = s[k], mx = s[s.size() - 1 - k]; Buf in(a); Img o = take(fcv_grayscale_stretch(w, h, in.p), w, h, 4, "stretch"); for (size_t i = 0; i < g.size(); i++) { double e = mx == mn ? g[i] : g[i] < mn ? 0 : g[i] > mx ? 255 : (g[i] - mn) * 255.0 / (mx - mn); REQUIRE_F(fabs(o.d[i * 4] - e) < 1.0 && o.d[i * 4] == o.d[i * 4 + 2] && o.d[i * 4 + 3] == 255, "stretch pixel %zu: gray %u becomes %u, expected %.2f", i, g[i], o.d[i * 4], e); } }
static void strips(Case &c) { Strips s; int k = c.draw(3); if (k == 0) convert(c); else if (k == 1) expand(c); else stretch(c); c.label("strip"); }
Property property() {
  return {"C07", "Random RGBA images and slices of the whole colour cube (the thorough tier enumerates all 256 slices = 2^24 colours) against the luma formula; single-channel expansion round trip; contrast stretch against a sort-based percentile reference with pixel counts placed around the 1/64 cut-off. Non-trivial: non-constant image, or an image with contrast left after the cut.",
    {{"convert", convert, 12000, 200000}, {"cube", cube, 96, 512}, {"expand", expand, 8000, 100000}, {"stretch", stretch, 16000, 250000}, {"big", big, 16, 200}, {"strips", strips, 200, 4000}}, {"the linear scaling may round either way"}};
}
