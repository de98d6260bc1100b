// Image generators and helpers shared by the checks.
#pragma once
#include "engine.hpp"
extern "C" {
#include "flatcv_all.h" // generated: every public header of /repo/include
}

struct Img {
  u32 w = 0, h = 0, ch = 4;
  std::vector<u8> d;
  u8 *px(u32 x, u32 y) { return &d[((size_t)y * w + x) * ch]; }
  const u8 *px(u32 x, u32 y) const { return &d[((size_t)y * w + x) * ch]; }
  size_t n() const { return (size_t)w * h; }
  bool operator==(const Img &o) const { return w == o.w && h == o.h && ch == o.ch && d == o.d; }
};

// exactly sized heap buffer, so that sanitizers see any access outside it
struct Buf {
  u8 *p; size_t n;
  explicit Buf(const std::vector<u8> &v) : n(v.size()) { p = (u8 *)malloc(n ? n : 1); if (n) memcpy(p, v.data(), n); }
  explicit Buf(const Img &i) : Buf(i.d) {}
  Buf(const Buf &) = delete;
  ~Buf() { free(p); }
  bool same(const std::vector<u8> &v) const { return n == v.size() && (n == 0 || memcmp(p, v.data(), n) == 0); }
};
// owner of a buffer returned by the library
struct Out {
  u8 *p;
  explicit Out(u8 *q) : p(q) {}
  Out(const Out &) = delete;
  ~Out() { free(p); }
  explicit operator bool() const { return p != nullptr; }
};
static inline Img take(u8 *p, u32 w, u32 h, u32 ch, const char *what) { // copies and frees
  if (!p) FAILF("%s returned no image", what);
  Img r; r.w = w; r.h = h; r.ch = ch;
  r.d.assign(p, p + (size_t)w * h * ch);
  free(p);
  return r;
}

// While a Strips object lives, gen_size yields very long, thin images: rows or columns beyond
// 2^12..2^17 elements, where 16-bit counters, row buffers and block sizes give out.
static u32 g_strip = 0;
struct Strips { u32 old; explicit Strips(u32 longest = 140000) : old(g_strip) { g_strip = longest; } ~Strips() { g_strip = old; } };
static inline void gen_size(Case &c, u32 &w, u32 &h, u64 maxpx) {
  if (g_strip) {
    u32 n = c.coin() ? (u32)c.range(600, g_strip) : c.oneof<u32>({1023, 1025, 2049, 4095, 4097, 8193, 16383, 16384, 16385, 21846, 32767, 32769, 65535, 65536, 65537, 131073}); n = std::min(n, g_strip); u32 t = c.range(1, 4);
    if (c.coin()) { w = n; h = t; } else { w = t; h = n; }
    return;
  }
  int k = c.pick({20, 30, 25, 10, 10, 5});
  u64 s = maxpx;
  switch (k) {
    case 0: w = c.range(1, 4); h = c.range(1, 4); break;
    case 1: w = c.range(1, 16); h = c.range(1, 16); break;
    case 2: w = c.range(1, 64); h = c.range(1, 64); break;
    case 3: { u32 a = c.range(1, 3), b = c.range(1, std::max<u64>(1, std::min<u64>(3000, s / 3))); if (c.coin()) { w = a; h = b; } else { w = b; h = a; } break; }
    case 4: { u32 m = (u32)std::max(8.0, std::sqrt((double)s)); w = c.range(1, m); h = c.range(1, m); break; }
    default: { // sizes around powers of two and block sizes
      u32 a = c.oneof<u32>({1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025});
      u32 b = c.oneof<u32>({1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257});
      if (c.coin()) std::swap(a, b);
      w = a; h = b; break;
    }
  }
  while ((u64)w * h > maxpx) { if (w > h) w = (w + 1) / 2; else h = (h + 1) / 2; }
}

static inline u8 gen_byte(Case &c) {
  switch (c.pick({3, 3, 4})) {
    case 0: return c.oneof<u8>({0, 255});
    case 1: return c.oneof<u8>({0, 1, 2, 127, 128, 129, 253, 254, 255});
    default: return (u8)c.draw(256);
  }
}

// content of an image with given size and channels
static inline Img gen_content(Case &c, u32 w, u32 h, u32 ch, bool force_alpha_mix = false) {
  Img im; im.w = w; im.h = h; im.ch = ch; im.d.resize((size_t)w * h * ch);
  size_t n = im.n();
  int kind = n <= 48 ? c.pick({6, 1, 1, 1, 1, 1, 1, 1, 1}) : c.pick({0, 3, 3, 2, 2, 2, 2, 2, 1});
  if (kind == 0) { // every byte its own choice: shrinks pixel by pixel
    int alpha = c.pick({2, 1});
    bool small = c.coin();
    u8 pal[3]; if (small) for (u8 &b : pal) b = gen_byte(c);
    for (size_t i = 0; i < n; i++) for (u32 k = 0; k < ch; k++) {
      u8 v;
      if (k == 3 && ch == 4 && alpha == 0 && !force_alpha_mix) v = 255;
      else if (small) v = pal[c.draw(3)];
      else v = gen_byte(c);
      im.d[i * ch + k] = v;
    }
    return im;
  }
  u64 seed = c.draw(1u << 30); Rng r(seed ^ 0x5eedull);
  auto put = [&](size_t i, u8 a, u8 b, u8 cc) { u8 v[3] = {a, b, cc}; for (u32 k = 0; k < ch && k < 3; k++) im.d[i * ch + k] = v[k]; };
  switch (kind) {
    case 1: for (u8 &b : im.d) b = (u8)r.next(); break;
    case 2: { int m = 2 + c.draw(4); u8 pal[8][3]; for (auto &p : pal) for (u8 &b : p) { u64 q = r.below(4); b = q == 0 ? 0 : q == 1 ? 255 : (u8)r.next(); }
      for (size_t i = 0; i < n; i++) { u8 *p = pal[r.below(m)]; put(i, p[0], p[1], p[2]); } break; }
    case 3: { // constant with a few outliers
      u8 a = gen_byte(c), b = gen_byte(c), d = gen_byte(c); for (size_t i = 0; i < n; i++) put(i, a, b, d);
      int m = c.draw(6); for (int k = 0; k < m; k++) { size_t i = r.below(n); put(i, (u8)r.next(), (u8)r.next(), (u8)r.next()); } break; }
    case 4: { // gradients
      double ax = (double)r.below(512) / 64 - 4, ay = (double)r.below(512) / 64 - 4; int o = r.below(256); bool wrap = c.coin();
      for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { double v = o + ax * x + ay * y; auto q = [&](double z) -> u8 { if (wrap) return (u8)(i64)std::floor(z); return z < 0 ? 0 : z > 255 ? 255 : (u8)z; }; put((size_t)y * w + x, q(v), q(v * 0.5 + 40), q(255 - v)); } break; }
    case 5: { // random rectangles
      u8 bg[3] = {(u8)r.next(), (u8)r.next(), (u8)r.next()}; for (size_t i = 0; i < n; i++) put(i, bg[0], bg[1], bg[2]);
      int m = 1 + r.below(8);
      for (int k = 0; k < m; k++) { u32 x0 = r.below(w), x1 = x0 + r.below(w - x0 + 1), y0 = r.below(h), y1 = y0 + r.below(h - y0 + 1); u8 p[3] = {(u8)r.next(), (u8)r.next(), (u8)r.next()}; for (u32 y = y0; y < y1; y++) for (u32 x = x0; x < x1; x++) put((size_t)y * w + x, p[0], p[1], p[2]); } break; }
    case 6: { // gray only, narrow range
      u8 lo = gen_byte(c); u32 span = 1 + c.draw(40); for (size_t i = 0; i < n; i++) { u8 v = (u8)std::min<u32>(255, lo + r.below(span)); put(i, v, v, v); } break; }
    case 7: { // extreme bytes
      for (u8 &b : im.d) b = (r.next() & 1) ? 255 : 0; break; }
    default: { // stripes / checker
      u32 p = 1 + r.below(5), q = 1 + r.below(5); u8 a = gen_byte(c), b = gen_byte(c); for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { u8 v = ((x / p + y / q) & 1) ? a : b; put((size_t)y * w + x, v, (u8)(255 - v), v); } break; }
  }
  if (ch == 4) {
    int am = force_alpha_mix ? 1 : c.pick({4, 3, 1, 1});
    u8 ca = am == 3 ? gen_byte(c) : 0;
    for (size_t i = 0; i < n; i++) im.d[i * 4 + 3] = am == 0 ? 255 : am == 1 ? (u8)r.next() : am == 2 ? 0 : ca;
  }
  return im;
}
static inline Img gen_img(Case &c, u32 ch, u64 maxpx, bool alpha_mix = false) {
  u32 w, h; gen_size(c, w, h, maxpx);
  return gen_content(c, w, h, ch, alpha_mix);
}
static inline std::string show(const Img &i) {
  std::string s = fmt("%ux%ux%u", i.w, i.h, i.ch);
  if (i.d.size() <= 64) { s += " ["; for (size_t k = 0; k < i.d.size(); k++) s += fmt(k ? " %u" : "%u", i.d[k]); s += "]"; }
  else s += fmt(" (content hash %016llx)", (unsigned long long)fnv(i.d.data(), i.d.size()));
  return s;
}
static inline bool multi_valued(const Img &i) { // more than one colour
  for (size_t k = i.ch; k < i.d.size(); k++) if (i.d[k] != i.d[k % i.ch]) return true;
  return false;
}
static inline void cmp_img(const Img &got, const Img &want, const char *what) {
  if (got == want) return;
  if (got.w != want.w || got.h != want.h || got.ch != want.ch) FAILF("%s: size %ux%ux%u, expected %ux%ux%u", what, got.w, got.h, got.ch, want.w, want.h, want.ch);
  for (size_t k = 0; k < want.d.size(); k++) if (got.d[k] != want.d[k]) { size_t p = k / want.ch; FAILF("%s: pixel (%zu,%zu) channel %zu is %u, expected %u", what, p % want.w, p / want.w, k % want.ch, got.d[k], want.d[k]); }
}
static inline int luma(u8 r, u8 g, u8 b) { return (76 * r + 150 * g + 30 * b) / 256; }
static inline std::vector<u8> ref_gray(const Img &a) { std::vector<u8> v(a.n()); for (size_t i = 0; i < v.size(); i++) v[i] = luma(a.d[i * 4], a.d[i * 4 + 1], a.d[i * 4 + 2]); return v; }

// reference geometric transforms
static inline Img ref_map(const Img &a, u32 w, u32 h, const std::function<std::pair<u32, u32>(u32, u32)> &src) {
  Img r; r.w = w; r.h = h; r.ch = a.ch; r.d.resize((size_t)w * h * a.ch);
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { auto s = src(x, y); memcpy(r.px(x, y), a.px(s.first, s.second), a.ch); }
  return r;
}
static inline Img R_flipx(const Img &a) { return ref_map(a, a.w, a.h, [&](u32 x, u32 y) { return std::make_pair(a.w - 1 - x, y); }); }
static inline Img R_flipy(const Img &a) { return ref_map(a, a.w, a.h, [&](u32 x, u32 y) { return std::make_pair(x, a.h - 1 - y); }); }
static inline Img R_transpose(const Img &a) { return ref_map(a, a.h, a.w, [&](u32 x, u32 y) { return std::make_pair(y, x); }); }
static inline Img R_transverse(const Img &a) { return ref_map(a, a.h, a.w, [&](u32 x, u32 y) { return std::make_pair(a.w - 1 - y, a.h - 1 - x); }); }
static inline Img R_rot90(const Img &a) { return ref_map(a, a.h, a.w, [&](u32 x, u32 y) { return std::make_pair(y, a.h - 1 - x); }); }
static inline Img R_rot180(const Img &a) { return ref_map(a, a.w, a.h, [&](u32 x, u32 y) { return std::make_pair(a.w - 1 - x, a.h - 1 - y); }); }
static inline Img R_rot270(const Img &a) { return ref_map(a, a.h, a.w, [&](u32 x, u32 y) { return std::make_pair(a.w - 1 - y, x); }); }
