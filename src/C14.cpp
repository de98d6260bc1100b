#include "img.hpp"
struct H { Img o; };
static Img histo(const Img &a) { Buf in(a); u32 w = 12345, h = 54321; u8 *p = fcv_generate_histogram(a.w, a.h, a.ch, in.p, &w, &h); REQUIRE_F(p, "no histogram returned"); bool ok = w == 256 && h == 200; if (!ok) free(p); REQUIRE_F(ok, "reported size %ux%u instead of 256x200", w, h); Img o = take(p, w, h, 4, "histogram"); REQUIRE_F(in.same(a.d), "input modified"); return o; }
// heights of the R, G and B bars of every column; requires solid bars standing on the bottom edge
static void bars(const Img &o, int hgt[3][256]) {
  for (u32 x = 0; x < 256; x++) for (int k = 0; k < 3; k++) { int n = 0; bool ended = false; for (int y = 199; y >= 0; y--) { u8 v = o.px(x, y)[k]; REQUIRE_F(v == 0 || v == 255, "pixel (%u,%d) channel %d is %u", x, y, k, v); if (v) { REQUIRE_F(!ended, "bar of value %u channel %d has a gap at row %d", x, k, y); n++; } else ended = true; } hgt[k][x] = n; }
  for (size_t i = 3; i < o.d.size(); i += 4) REQUIRE_F(o.d[i] == 255, "histogram is not opaque");
}
static void check(Case &c, const Img &a, const Img &o) {
  int hg[3][256]; bars(o, hg); u64 n[3][256] = {}; bool gray = a.ch == 1; if (a.ch == 4) { gray = true; for (size_t i = 0; i < a.n(); i++) if (a.d[i * 4] != a.d[i * 4 + 1] || a.d[i * 4] != a.d[i * 4 + 2]) { gray = false; break; } }
  for (size_t i = 0; i < a.n(); i++) for (int k = 0; k < 3; k++) n[k][a.d[i * a.ch + (a.ch == 1 ? 0 : k)]]++;
  u64 mx = 0; for (auto &r : n) for (u64 v : r) mx = std::max(mx, v);
  for (int k = 0; k < 3; k++) for (int x = 0; x < 256; x++) { double e = (double)n[k][x] * 200.0 / mx; REQUIRE_F(fabs(hg[k][x] - e) <= 1.0 - 1e-9 || hg[k][x] == (int)llround(e), "value %d, channel %d: %llu of at most %llu pixels drawn %d rows high, expected %.3f", x, k, (unsigned long long)n[k][x], (unsigned long long)mx, hg[k][x], e); if (n[k][x] == mx) REQUIRE_F(hg[k][x] == 200, "the most frequent value %d has height %d", x, hg[k][x]); if (n[k][x] == 0) REQUIRE_F(hg[k][x] == 0, "absent value %d has height %d", x, hg[k][x]); }
  c.label(fmt("%u channels%s", a.ch, gray ? ", gray" : ""));
}
static void value(Case &c) { u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 5000, c.coin()); if (ch == 4 && c.chance(1, 4)) for (size_t i = 0; i < a.n(); i++) a.d[i * 4 + 1] = a.d[i * 4 + 2] = a.d[i * 4]; if (ch == 4 && c.chance(1, 6)) { // gray except one late pixel
    for (size_t i = 0; i < a.n(); i++) a.d[i * 4 + 1] = a.d[i * 4 + 2] = a.d[i * 4]; a.d[(a.n() - 1) * 4 + 1 + c.draw(2)] ^= 1 + c.draw(255); }
  c.note("histogram of " + show(a)); c.nontrivial(multi_valued(a)); check(c, a, histo(a)); }
static void invariant(Case &c) { // pixel order, shape and alpha do not matter
  Img a = gen_img(c, 4, 3000, true), b = a; c.note("order/alpha " + show(a)); c.nontrivial(multi_valued(a)); Rng r(c.draw(1 << 20)); for (size_t i = b.n(); i > 1; i--) { size_t j = r.below(i); for (int k = 0; k < 4; k++) std::swap(b.d[(i - 1) * 4 + k], b.d[j * 4 + k]); } for (size_t i = 0; i < b.n(); i++) b.d[i * 4 + 3] = (u8)r.next(); if (c.coin()) { b.w = a.n(); b.h = 1; } cmp_img(histo(b), histo(a), "permuted image"); }
static void big(Case &c) { // counts that overflow 32-bit products
  u32 ch = c.oneof<u32>({1, 4, 3}); u32 w = ch == 1 ? c.range(4650, 5200) : c.range(4640, 4800), h = c.range(4640, ch == 1 ? 5200 : 4800); Img a; a.w = w; a.h = h; a.ch = ch; u8 v = c.draw(256); a.d.assign(a.n() * ch, v); int m = c.draw(5); size_t part = m == 0 ? 0 : m == 1 ? a.n() / 2 : m == 2 ? a.n() / 5 : c.draw(1000); for (size_t i = 0; i < part; i++) memset(&a.d[i * ch], (u8)(v + 1), ch); c.note(fmt("histogram of %ux%ux%u value %u with %zu others", w, h, ch, v, part)); c.nontrivial(); c.label("more than 21 million pixels"); check(c, a, histo(a)); }
static void strips(Case &c) { Strips s; value(c); c.label("strip"); }
Property property() {
  return {"C14", "Random 1/3/4 channel images incl. gray RGBA, gray but one pixel, and >21 megapixel images; oracle: counts, bar height within one row of count*200/max, solid bars, exact 0 and full height; order/alpha/shape invariance. Non-trivial: non-constant image (or a huge one).",
    {{"value", value, 20000, 250000}, {"invariant", invariant, 10000, 100000}, {"big", big, 16, 60}, {"strips", strips, 200, 3000}}, {}};
}
