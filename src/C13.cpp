#include "img.hpp"
typedef void (*Draw)(u32, u32, u32, const char *, double, double, double, u8 *);
struct Shape { bool disk; double r, x, y; std::string hex; u8 col[4]; };
static void colour_bytes(u32 ch, const u8 *rgb, u8 out[4]) { if (ch == 1) { out[0] = (u8)(0.299 * rgb[0] + 0.587 * rgb[1] + 0.114 * rgb[2]); } else { memcpy(out, rgb, 3); out[3] = 255; } }
static void draw(const Shape &s, Img &a) { Buf b(a); (s.disk ? fcv_draw_disk : fcv_draw_circle)(a.w, a.h, a.ch, s.hex.c_str(), s.r, s.x, s.y, b.p); a.d.assign(b.p, b.p + b.n); }
static std::string desc(const Shape &s, const Img &a) { return fmt("%s radius %.17g at (%.17g,%.17g) colour %s on ", s.disk ? "disk" : "circle", s.r, s.x, s.y, s.hex.c_str()) + show(a); }
// the set of painted pixels, found by drawing on two different canvases; checks colour and untouched bytes
static std::vector<u8> painted(const Shape &s, const Img &a, u32 ch) {
  Img before = a, after = a; draw(s, after); std::vector<u8> m(a.n(), 0); u8 e[4]; colour_bytes(ch, s.col, e); Img inv = a; for (size_t i = 0; i < inv.d.size(); i++) inv.d[i] = ~a.d[i]; Img inv2 = inv; draw(s, inv2);
  for (size_t i = 0; i < a.n(); i++) { bool ch1 = memcmp(&after.d[i * ch], &before.d[i * ch], ch) != 0, ch2 = memcmp(&inv2.d[i * ch], &inv.d[i * ch], ch) != 0; m[i] = ch1 || ch2; if (m[i]) for (const Img *q : {&after, &inv2}) for (u32 k = 0; k < ch; k++) REQUIRE_F(abs(q->d[i * ch + k] - e[k]) <= (ch == 1 ? 1 : 0), "painted pixel (%zu,%zu) channel %u is %u, expected %u", i % a.w, i / a.w, k, q->d[i * ch + k], e[k]); }
  return m;
}
static std::string hexof(Case &c, u8 *rgb) { for (int k = 0; k < 3; k++) rgb[k] = gen_byte(c); std::string h = fmt(c.coin() ? "%02X%02X%02X" : "%02x%02x%02x", rgb[0], rgb[1], rgb[2]); return (c.coin() ? "#" : "") + h; }
static Shape gen_shape(Case &c, u32 w, u32 h) {
  Shape s; s.disk = c.coin(); s.hex = hexof(c, s.col); int m = g_strip ? 40 : std::max(w, h); int k = c.pick({3, 4, 2, 1}); s.r = k == 0 ? c.range(0, 3) : k == 1 ? c.range(0, m) : k == 2 ? c.range(0, 3 * m + 3) : c.range(0, g_strip ? 300 : 3000);
  auto coord = [&](u32 n) -> double { int q = c.pick({5, 3, 2}); return q == 0 ? c.range(0, n - 1) : q == 1 ? (double)c.range(-(i64)s.r - 3, (i64)n + (i64)s.r + 3) : c.oneof<i64>({-1, 0, (i64)n - 1, (i64)n, -(i64)s.r, (i64)n - 1 + (i64)s.r, (i64)n + (i64)s.r}); }; s.x = coord(w); s.y = coord(h); return s;
}
static const double TOL = 1.0, HALF = 0.5 + 1e-9; // gaps; deviation from the ideal outline (Bresenham picks the nearest pixel)
static void geometry(Case &c) {
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 6000, true); Shape s = gen_shape(c, a.w, a.h); c.note(desc(s, a)); auto m = painted(s, a, ch); size_t np = 0; double worst_out = -1, worst_in = -1;
  for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) { bool p = m[y * a.w + x]; np += p; double d = sqrt((x - s.x) * (x - s.x) + (y - s.y) * (y - s.y));
    if (s.disk) { if (p) REQUIRE_F(d <= s.r + HALF, "pixel (%lld,%lld) at distance %.3f is painted by a disk of radius %g", (long long)x, (long long)y, d, s.r); else REQUIRE_F(d > s.r - HALF, "pixel (%lld,%lld) at distance %.3f is not painted by a disk of radius %g", (long long)x, (long long)y, d, s.r); }
    else if (p) REQUIRE_F(fabs(d - s.r) <= HALF, "pixel (%lld,%lld) at distance %.3f is painted by a circle of radius %g", (long long)x, (long long)y, d, s.r); }
  (void)worst_in; (void)worst_out;
  if (s.disk) { // the centre belongs to every disk; every row of it is one run
    if (s.x >= 0 && s.y >= 0 && s.x < a.w && s.y < a.h) REQUIRE_F(m[(size_t)s.y * a.w + (size_t)s.x], "the centre is not painted"); for (u32 y = 0; y < a.h; y++) { int runs = 0; for (u32 x = 0; x < a.w; x++) if (m[(size_t)y * a.w + x] && (x == 0 || !m[(size_t)y * a.w + x - 1])) runs++; REQUIRE_F(runs <= 1, "row %u of the disk has a gap", y); } }
  else { // no gaps: every point of the ideal outline inside the image has a painted pixel next to it
    int n = std::max(8, (int)(s.r * 16)); if (n > 20000) n = 20000; for (int i = 0; i < n; i++) { double t = 2 * M_PI * i / n, ux = s.x + s.r * cos(t), uy = s.y + s.r * sin(t); if (ux < 2 || uy < 2 || ux > (double)a.w - 3 || uy > (double)a.h - 3) continue; bool near = false; for (i64 y = (i64)floor(uy) - 1; y <= (i64)floor(uy) + 2 && !near; y++) for (i64 x = (i64)floor(ux) - 1; x <= (i64)floor(ux) + 2; x++) if (x >= 0 && y >= 0 && x < a.w && y < a.h && m[y * a.w + x] && (x - ux) * (x - ux) + (y - uy) * (y - uy) <= TOL * TOL) { near = true; break; } REQUIRE_F(near, "gap in the outline at (%.2f,%.2f)", ux, uy); } }
  bool clipped = s.x - s.r < 0 || s.y - s.r < 0 || s.x + s.r >= a.w || s.y + s.r >= a.h; c.nontrivial(np > 0); c.label(np == 0 ? "nothing visible" : clipped ? "clipped" : "inside"); c.label(s.disk ? "disk" : "circle");
}
static void clip(Case &c) { // drawing on a part of a canvas = that part of the drawing; symmetry of the whole drawing
  u32 ch = c.oneof<u32>({4, 3, 1}); i64 R = c.range(0, c.chance(1, 4) ? 60 : 12); Img big; big.ch = ch; big.w = big.h = 2 * R + 9; big.d.assign(big.n() * ch, 7); Shape s; s.disk = c.coin(); s.hex = hexof(c, s.col); s.r = R; s.x = s.y = R + 4; auto M = painted(s, big, ch); i64 S = big.w;
  for (i64 y = 0; y < S; y++) for (i64 x = 0; x < S; x++) { bool p = M[y * S + x]; REQUIRE_F(p == (bool)M[x * S + y] && p == (bool)M[y * S + S - 1 - x] && p == (bool)M[(S - 1 - y) * S + x], "the drawing of radius %lld is not symmetric at (%lld,%lld)", (long long)R, (long long)(x - R - 4), (long long)(y - R - 4)); }
  i64 x0 = c.range(0, S - 1), y0 = c.range(0, S - 1); u32 w = c.range(1, S - x0), h = c.range(1, S - y0); Img win; win.ch = ch; win.w = w; win.h = h; win.d.assign(win.n() * ch, 9); Shape t = s; t.x = s.x - x0; t.y = s.y - y0; c.note(desc(t, win)); auto m = painted(t, win, ch); size_t np = 0;
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { REQUIRE_F((bool)m[(size_t)y * w + x] == (bool)M[(y + y0) * S + x + x0], "pixel (%u,%u) of the clipped drawing differs from the whole drawing", x, y); np += m[(size_t)y * w + x]; }
  c.nontrivial(np > 0); c.label("window");
}
static void filled(Case &c) { // a disk is the circle of the same radius, filled
  u32 ch = c.oneof<u32>({1, 4, 3}); i64 R = c.pick({4, 2, 1}) == 0 ? c.range(0, 40) : c.coin() ? c.range(0, 150) : c.range(0, 400); Img a; a.ch = ch; a.w = 2 * R + 1 + c.range(0, 6); a.h = 2 * R + 1 + c.range(0, 6); a.d.assign(a.n() * ch, 7); Shape s; s.hex = hexof(c, s.col); s.r = R; s.x = R + c.range(0, a.w - 2 * R - 1); s.y = R + c.range(0, a.h - 2 * R - 1); s.disk = false; c.note(desc(s, a)); auto o = painted(s, a, ch); s.disk = true; auto d = painted(s, a, ch); c.nontrivial(); c.label("filled circle");
  for (u32 y = 0; y < a.h; y++) { i64 l = -1, r = -2; for (u32 x = 0; x < a.w; x++) if (o[(size_t)y * a.w + x]) { if (l < 0) l = x; r = x; } for (i64 x = 0; x < a.w; x++) REQUIRE_F((bool)d[(size_t)y * a.w + x] == (x >= l && x <= r), "pixel (%lld,%u): the disk of radius %lld is not the filled circle", (long long)x, y, (long long)R); }
}
static void fractional(Case &c) { // whole-pixel parts of centre and radius decide
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 2000, true); Shape s = gen_shape(c, a.w, a.h), t = s; double f = c.real(0, 0.999), g = c.real(0, 0.999), q = c.real(0, 0.999); s.r = t.r + f; s.x = t.x + (t.x < 0 ? -g : g); s.y = t.y + (t.y < 0 ? -q : q); c.note(desc(s, a)); Img x = a, y = a; draw(s, x); draw(t, y); cmp_img(x, y, "fractional centre or radius"); c.nontrivial(!(x == a)); c.label("fractional");
}
static void outside(Case &c) { // rejected or far away: nothing changes
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 500, true); Shape s = gen_shape(c, a.w, a.h); int k = c.draw(4); double far = c.oneof<double>({1e4, 1e6, 2147483646.0, 2147483647.0, 2147483648.0, 4294967296.0, 1e18, 1e300}); if (c.coin()) far = -far;
  s.r = std::min(s.r, 1000.0); if (k == 0) (c.coin() ? s.x : s.y) = far; else if (k == 1) (c.coin() ? s.x : s.y) = c.oneof<double>({NAN, INFINITY, -INFINITY}); else if (k == 2) s.r = c.oneof<double>({-1, -0.5, NAN, INFINITY, -INFINITY, -1e300}); else { s.r = c.range(0, 50); s.x = c.coin() ? -s.r - c.range(2, 100) : a.w + s.r + c.range(1, 100); }
  c.note(desc(s, a)); c.nontrivial(); c.label("rejected or outside"); Img x = a; draw(s, x); cmp_img(x, a, "invisible shape");
}
static void large(Case &c) { // covering disks, huge outlines: clipping must work for any size
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 200, true); Shape s; s.disk = c.coin(); s.hex = hexof(c, s.col); s.r = c.oneof<double>({2000, 20000, 100000, 46341, 1000000, 65536}); s.x = c.range(0, a.w - 1); s.y = c.range(0, a.h - 1); c.note(desc(s, a)); c.nontrivial(); c.label("far larger than the image"); auto m = painted(s, a, ch); for (size_t i = 0; i < m.size(); i++) REQUIRE_F((bool)m[i] == s.disk, "pixel %zu is %spainted", i, m[i] ? "" : "not ");
}
static void strips(Case &c) { Strips s(70000); if (c.pick({3, 1}) == 0) geometry(c); else fractional(c); c.label("strip"); }
Property property() {
  return {"C13", "Random canvases (1/3/4 channels), colours, radii and centres (inside, on the edge, outside, far away, non-finite). Painted set found by drawing on complementary canvases; two-sided geometric predicate with half a pixel of rasterisation, disk = filled circle, gap-freeness, symmetry, clipping = window of the whole drawing. Non-trivial: something is painted, or a rejected/outside argument.",
    {{"geometry", geometry, 30000, 400000}, {"clip", clip, 20000, 250000}, {"filled", filled, 3000, 60000}, {"fractional", fractional, 10000, 150000}, {"outside", outside, 10000, 100000}, {"large", large, 1500, 10000}, {"strips", strips, 600, 8000}}, {"centre and radius are truncated to whole pixels, as implemented and documented in DESIGN.md"}};
}
