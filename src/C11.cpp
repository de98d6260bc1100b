#include "img.hpp"
typedef std::vector<u8> V;
typedef u8 *(*Op)(u8 const *, i32, i32, i32);
static V run(Op f, const Img &a, i32 r, const char *n) { Buf in(a); u8 *p = f(in.p, a.w, a.h, r); REQUIRE_F(p, "%s returned no image", n); REQUIRE_F(in.same(a.d), "%s modified its input", n); V v(p, p + a.n()); free(p); for (u8 b : v) REQUIRE_F(b == 0 || b == 255, "%s output contains %u", n, b); return v; }
static bool in_disk(i64 dx, i64 dy, i64 r) { return 4 * (dx * dx + dy * dy) <= (2 * r + 1) * (2 * r + 1); }
// is any / are all pixels within the disk white; coordinates clamped to the image or outside = black
static V ref_dilate(const Img &a, i64 r) { V o(a.n(), 0); for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) { bool any = false; for (i64 v = std::max<i64>(0, y - r); v <= std::min<i64>(a.h - 1, y + r) && !any; v++) for (i64 u = std::max<i64>(0, x - r); u <= std::min<i64>(a.w - 1, x + r); u++) if (a.d[v * a.w + u] == 255 && in_disk(u - x, v - y, r)) { any = true; break; } o[y * a.w + x] = any ? 255 : 0; } return o; }
static V ref_erode(const Img &a, i64 r, bool clamp) {
  V o(a.n(), 0); i64 W = a.w, H = a.h; for (i64 y = 0; y < H; y++) for (i64 x = 0; x < W; x++) { bool all = true;
    if (!clamp && (x < r || y < r || x + r >= W || y + r >= H)) all = false; // the disk contains its four extreme points
    for (i64 v = y - r; v <= y + r && all; v++) for (i64 u = x - r; u <= x + r; u++) if (in_disk(u - x, v - y, r)) { i64 cu = std::max<i64>(0, std::min(W - 1, u)), cv = std::max<i64>(0, std::min(H - 1, v)); if (a.d[cv * W + cu] != 255) { all = false; break; } }
    o[y * W + x] = all ? 255 : 0; } return o;
}
static Img gen_mask(Case &c, u64 maxpx) {
  u32 w, h; gen_size(c, w, h, maxpx); Img a; a.w = w; a.h = h; a.ch = 1; a.d.assign(a.n(), 0); size_t n = a.n(); int k = n <= 64 ? c.pick({5, 1, 1, 1, 1, 1}) : c.pick({0, 3, 2, 3, 2, 1});
  if (k == 0) { for (u8 &b : a.d) b = c.coin() ? 255 : 0; return a; }
  Rng r(c.draw(1u << 30)); int p = c.oneof<int>({50, 2, 10, 90, 98});
  if (k == 1) for (u8 &b : a.d) b = (int)r.below(100) < p ? 255 : 0;
  else if (k == 2) { int m = 1 + c.draw(4); for (int i = 0; i < m; i++) a.d[r.below(n)] = 255; }
  else if (k == 3) { int m = 1 + c.draw(6); bool inv = c.coin(); for (int i = 0; i < m; i++) { u32 x0 = r.below(w), x1 = x0 + r.below(w - x0) + 1, y0 = r.below(h), y1 = y0 + r.below(h - y0) + 1; u8 v = r.below(4) ? 255 : 0; for (u32 y = y0; y < y1; y++) for (u32 x = x0; x < x1; x++) a.d[(size_t)y * w + x] = v; } if (inv) for (u8 &b : a.d) b = 255 - b; }
  else if (k == 4) { for (u8 &b : a.d) b = 255; int m = c.draw(4); for (int i = 0; i < m; i++) a.d[r.below(n)] = 0; }
  else { static const u8 g[] = {255, 254, 1, 128, 0}; for (u8 &b : a.d) b = g[r.below(5)]; c.label("non-binary values"); } // anything but 255 is not white
  return a;
}
static i32 gen_radius(Case &c, const Img &a) { int k = c.pick({4, 3, 2, 1}); i32 m = std::max(a.w, a.h); i32 r = k == 0 ? c.range(0, 3) : k == 1 ? c.range(0, 8) : k == 2 ? c.range(0, std::min(m, 24)) : std::min<i32>(m + c.range(0, 3), 40); while (r > 4 && (u64)r * r * a.n() > 3000000) r--; return r; }
static void eqm(const V &g, const V &e, const Img &a, const char *what) { for (size_t i = 0; i < e.size(); i++) REQUIRE_F(g[i] == e[i], "%s: pixel (%zu,%zu) is %u, expected %u", what, i % a.w, i / a.w, g[i], e[i]); }
static Img with(const Img &a, const V &v) { Img b = a; b.d = v; return b; }
static void setup(Case &c, Img &a, i32 &r, const char *n) { a = gen_mask(c, 2500); r = gen_radius(c, a); c.note(fmt("%s radius %d of %s", n, r, show(a).c_str())); bool w = false, b = false; for (u8 v : a.d) (v == 255 ? w : b) = true; c.nontrivial(w && b && r > 0); c.label(r == 0 ? "radius 0" : r >= (i32)std::max(a.w, a.h) ? "radius covers image" : "ordinary radius"); }
static void dilation(Case &c) { Img a; i32 r; setup(c, a, r, "dilation"); eqm(run(fcv_binary_dilation_disk, a, r, "dilation"), ref_dilate(a, r), a, "dilation"); }
static void erosion(Case &c) { Img a; i32 r; setup(c, a, r, "erosion"); eqm(run(fcv_binary_erosion_disk, a, r, "erosion"), ref_erode(a, r, false), a, "erosion"); }
static void closing(Case &c) { Img a; i32 r; setup(c, a, r, "closing"); V o = run(fcv_binary_closing_disk, a, r, "closing"); eqm(o, ref_erode(with(a, ref_dilate(a, r)), r, true), a, "closing"); for (size_t i = 0; i < o.size(); i++) REQUIRE_F(!(a.d[i] == 255 && o[i] == 0), "closing removed the white pixel (%zu,%zu)", i % a.w, i / a.w); }
static void opening(Case &c) { Img a; i32 r; setup(c, a, r, "opening"); V o = run(fcv_binary_opening_disk, a, r, "opening"); eqm(o, ref_dilate(with(a, ref_erode(a, r, false)), r), a, "opening"); for (size_t i = 0; i < o.size(); i++) REQUIRE_F(!(a.d[i] != 255 && o[i] == 255), "opening added the white pixel (%zu,%zu)", i % a.w, i / a.w); eqm(run(fcv_binary_opening_disk, with(a, o), r, "opening"), o, a, "opening twice"); }
static void laws(Case &c) { // growth with the set and with the radius, symmetry
  Img a; i32 r; setup(c, a, r, "laws"); Img b = a; Rng g(c.draw(1 << 20)); int m = 1 + g.below(6); for (int i = 0; i < m; i++) b.d[g.below(b.n())] = 255; Op ops[] = {fcv_binary_dilation_disk, fcv_binary_erosion_disk, fcv_binary_closing_disk, fcv_binary_opening_disk}; const char *nm[] = {"dilation", "erosion", "closing", "opening"}; int k = c.draw(4);
  V oa = run(ops[k], a, r, nm[k]), ob = run(ops[k], b, r, nm[k]); for (size_t i = 0; i < oa.size(); i++) REQUIRE_F(oa[i] <= ob[i], "%s is not monotone: adding white removed (%zu,%zu)", nm[k], i % a.w, i / a.w);
  Img o = with(a, oa); cmp_img(R_flipx(with(a, run(ops[k], R_flipx(a), r, nm[k]))), o, "mirror"); Img t = R_transpose(a); V ot = run(ops[k], t, r, nm[k]); cmp_img(R_transpose(with(t, ot)), o, "transpose");
}
static void hugeradius(Case &c) { Img a = gen_mask(c, 64); i32 r = c.oneof<i32>({100, 1000, 5000, 40000, 46341, 1000000, 1073741823, 2147483647, (i32)(a.w + a.h)}); if (r >= 1000 && (u64)r * r * a.n() > 0) c.label("huge radius"); c.note(fmt("radius %d of %s", r, show(a).c_str())); c.nontrivial(); bool any = false, all = true; for (u8 v : a.d) if (v == 255) any = true; else all = false; V d = run(fcv_binary_dilation_disk, a, r, "dilation"); for (u8 v : d) REQUIRE_F(v == (any ? 255 : 0), "a disk covering the image gives %u", v); V e = run(fcv_binary_erosion_disk, a, r, "erosion"); for (u8 v : e) REQUIRE_F(v == 0, "eroding with a disk larger than the image gives %u", v); V q = run(fcv_binary_closing_disk, a, r, "closing"); for (u8 v : q) REQUIRE_F(v == (any ? 255 : 0), "closing with a disk larger than the image gives %u", v); }
static void rejects(Case &c) { Img a = gen_mask(c, 64); Buf in(a); i32 w = a.w, h = a.h, r = c.range(0, 3); int k = c.draw(6); if (k == 0) w = 0; if (k == 1) h = 0; if (k == 2) w = -(i32)c.range(1, 1 << 30); if (k == 3) h = INT32_MIN; if (k == 4) r = -(i32)c.range(1, 1 << 30); c.note(fmt("%dx%d radius %d", w, h, r)); c.nontrivial(); Op ops[] = {fcv_binary_dilation_disk, fcv_binary_erosion_disk, fcv_binary_closing_disk, fcv_binary_opening_disk}; for (Op f : ops) { u8 *p = f(k == 5 ? nullptr : in.p, w, h, r); bool n = p == nullptr; free(p); REQUIRE_F(n, "invalid arguments were accepted"); } }
static void wide(Case &c) { // radii of hundreds of pixels that do not cover the image
  Img a; a.ch = 1; u32 n = c.range(200, 900), t = c.range(1, 3); bool tall = c.coin(); a.w = tall ? t : n; a.h = tall ? n : t; i32 r = c.coin() ? c.range(24, 340) : c.oneof<i32>({63, 64, 65, 100, 127, 128, 129, 180, 181, 182, 254, 255, 256, 257, 300}); bool dil = c.coin(); a.d.assign(a.n(), dil ? 0 : 255); int m = 1 + c.draw(3); for (int i = 0; i < m; i++) a.d[c.draw(a.n())] = dil ? 255 : 0;
  c.note(fmt("%s radius %d of %s", dil ? "dilation" : "erosion and closing", r, show(a).c_str())); c.nontrivial(); c.label("radius of hundreds of pixels");
  if (dil) eqm(run(fcv_binary_dilation_disk, a, r, "dilation"), ref_dilate(a, r), a, "dilation");
  else { // pixels with at most t rows: plain erosion is black unless r is small against t; closing repeats the border
    eqm(run(fcv_binary_erosion_disk, a, r, "erosion"), ref_erode(a, r, false), a, "erosion"); if (r <= 70) eqm(run(fcv_binary_closing_disk, a, r, "closing"), ref_erode(with(a, ref_dilate(a, r)), r, true), a, "closing"); }
}
static void vast(Case &c) { // radii of thousands of pixels that do not cover the image
  Img a; a.ch = 1; u32 n = c.range(1500, 9000), t = c.range(1, 2); bool tall = c.coin(); a.w = tall ? t : n; a.h = tall ? n : t; i32 r = c.coin() ? c.range(300, 3000) : c.oneof<i32>({511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049}); a.d.assign(a.n(), 0); std::vector<size_t> at; int m = 1 + c.draw(2); for (int i = 0; i < m; i++) { at.push_back(c.draw(a.n())); a.d[at.back()] = 255; }
  c.note(fmt("dilation radius %d of %s", r, show(a).c_str())); c.nontrivial(); c.label("radius of thousands of pixels"); V e(a.n(), 0); for (size_t q : at) for (size_t i = 0; i < a.n(); i++) if (in_disk((i64)(i % a.w) - (i64)(q % a.w), (i64)(i / a.w) - (i64)(q / a.w), r)) e[i] = 255; eqm(run(fcv_binary_dilation_disk, a, r, "dilation"), e, a, "dilation");
}
Property property() {
  return {"C11", "Random binary masks (per-pixel tiny, noise of several densities, dots, rectangles, nearly white, non-binary bytes) and radii 0..beyond the image; brute-force set reference for the four operations, extensivity, monotonicity, mirror/transpose, opening idempotence. Non-trivial: both colours present and radius > 0.",
    {{"dilation", dilation, 12000, 150000}, {"erosion", erosion, 12000, 150000}, {"closing", closing, 12000, 150000}, {"opening", opening, 12000, 150000}, {"laws", laws, 10000, 120000}, {"hugeradius", hugeradius, 1500, 10000}, {"rejects", rejects, 2000, 10000}, {"wide", wide, 160, 2500}, {"vast", vast, 30, 600}}, {"a pixel is white iff its value is 255", "erosion inside closing repeats the border pixels, plain erosion counts outside as black (as documented)"}};
}
