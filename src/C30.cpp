// C30: images beyond 4 GiB (and a few results too numerous for 16 bits). The input is sparse memory with a few marked pixels; large allocations of the library are
// served as exactly sized mappings with inaccessible pages behind them, so no sanitizer is needed and untouched parts cost nothing.
#include "img.hpp"
#include <sys/mman.h>
#include <map>
#include <unordered_map>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
struct Map { void *base; size_t total; };
static std::unordered_map<void *, Map> &maps() { static auto *m = new std::unordered_map<void *, Map>; return *m; }
static const size_t BIG = 64u << 20, PG = 4096, GUARD = 1u << 20;
// results of more than 8 GiB, when a check only looks at their end: every GiB of the mapping is the same memory
static bool g_alias = false;
static void *big(size_t n) {
  size_t body = (n + PG - 1) / PG * PG, total = body + 2 * GUARD; if (n > (1ull << 42)) return nullptr;
  u8 *b = (u8 *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return nullptr;
  if (mprotect(b + GUARD, body, PROT_READ | PROT_WRITE)) { munmap(b, total); return nullptr; }
  if (g_alias && n > (8ull << 30)) { int fd = memfd_create("alias", 0); const size_t S = 1ull << 30; if (fd < 0 || ftruncate(fd, S)) { munmap(b, total); return nullptr; } for (size_t o = 0; o < body; o += S) if (mmap(b + GUARD + o, std::min(S, body - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { close(fd); munmap(b, total); return nullptr; } close(fd); }
  u8 *p = b + GUARD + (body - n); maps()[p] = Map{b, total}; return p;
}
extern "C" {
void *__wrap_malloc(size_t n) { return n >= BIG ? big(n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) return nullptr; return a * b >= BIG ? big(a * b) : __real_calloc(a, b); }
void __wrap_free(void *p) { if (!p) return; auto i = maps().find(p); if (i == maps().end()) { __real_free(p); return; } Map m = i->second; maps().erase(i); munmap(m.base, m.total); }
void *__wrap_realloc(void *p, size_t n) { auto i = maps().find(p); if (i == maps().end()) return __real_realloc(p, n); size_t old = (u8 *)i->second.base + i->second.total - GUARD - (u8 *)p; void *q = __wrap_malloc(n); if (q) { memcpy(q, p, std::min(old, n)); __wrap_free(p); } return q; }
}
static u64 avail() { FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long long v = 0; while (f && fgets(l, 200, f)) if (sscanf(l, "MemAvailable: %llu", &v) == 1) break; if (f) fclose(f); return v << 10; }
typedef std::map<u64, std::array<u8, 4>> Marks; // pixel index -> value; every other pixel is zero
struct Giant { // sparse image owned by the harness
  u64 w, h; u32 ch; u8 *p; Marks m;
  Giant(u64 w, u64 h, u32 ch) : w(w), h(h), ch(ch) { p = (u8 *)big(w * h * ch); if (!p) throw Discard(); }
  ~Giant() { __wrap_free(p); }
  Giant(const Giant &) = delete;
  u64 n() const { return w * h; }
  void put(u64 i, std::array<u8, 4> v) { m[i] = v; memcpy(p + i * ch, v.data(), ch); }
};
// size with a little more than 2^bits pixels
static void size_for(Case &c, int bits, u64 &w, u64 &h) {
  u64 n = 1ull << bits; int k = c.pick({2, 2, 1}); w = k == 2 ? c.oneof<u64>({32768, 23171, 40000, 65536, 46341}) : c.range(3, 200);
  h = n / w + 1 + c.range(0, 40); if (k == 1) std::swap(w, h);
}
static void mark(Case &c, Giant &g, bool gray = false) {
  Rng r(c.draw(1u << 30)); u64 n = g.n(); std::vector<u64> at = {0, 1, n - 1, n - 2, g.w - 1, g.w, n - g.w, n / 2};
  for (int b = 28; b <= 33; b++) for (i64 d = -2; d <= 2; d++) at.push_back((1ull << b) + d);
  for (int k = 0; k < 60; k++) at.push_back(r.next() % n); for (int k = 0; k < 40; k++) at.push_back(n - 1 - r.next() % 4096);
  for (u64 i : at) if (i < n) { std::array<u8, 4> v; for (u8 &b : v) b = 1 + r.below(255); if (gray) v[1] = v[2] = v[0]; if (g.ch == 1) v[1] = v[2] = v[3] = 0; g.put(i, v); }
}
// every pixel of the result is `bg`, except the listed ones
static void expect(const u8 *p, u64 n, u32 ch, std::array<u8, 4> bg, const Marks &m, const char *what) {
  auto it = m.begin(); u64 i = 0;
  auto val = [&](u64 k) { std::string s; for (u32 c = 0; c < ch; c++) s += fmt("%s%u", c ? "," : "", p[k * ch + c]); return s; };
  auto run = [&](u64 to) { // background
    if (i >= to) return;
    u64 len = (to - i) * ch; const u8 *q = p + i * ch; if (memcmp(q, bg.data(), ch) || (len > ch && memcmp(q, q + ch, len - ch))) for (u64 k = i; k < to; k++) if (memcmp(p + k * ch, bg.data(), ch)) FAILF("%s: pixel %llu is %s, expected the background", what, (unsigned long long)k, val(k).c_str());
  };
  for (; it != m.end(); ++it) { run(it->first); if (memcmp(p + it->first * ch, it->second.data(), ch)) FAILF("%s: pixel %llu is %s, expected %u,%u,%u,%u", what, (unsigned long long)it->first, val(it->first).c_str(), it->second[0], it->second[1], it->second[2], it->second[3]); i = it->first + 1; }
  run(n);
}
static u8 gray(const std::array<u8, 4> &v) { return luma(v[0], v[1], v[2]); }
struct Res_ { u8 *p; explicit Res_(u8 *q, const char *what) : p(q) { if (!p) FAILF("%s rejected the image although memory was available", what); } ~Res_() { free(p); } };
static void start(Case &c, const char *what, u64 w, u64 h) { c.note(fmt("%s on %llux%llu pixels", what, (unsigned long long)w, (unsigned long long)h)); c.label(what); c.nontrivial(); if (avail() < (14ull << 30)) { c.label("not enough memory"); throw Discard(); } }
static void permute(Case &c) {
  int f = c.index % 7; static const char *N[] = {"flip_x", "flip_y", "transpose", "transverse", "rotate_90_cw", "rotate_180", "rotate_270_cw"}; u64 w, h; do size_for(c, 30, w, h); while ((f == 2 || f == 3 || f == 4 || f == 6) && w > 1000 && h > 1000);
  start(c, N[f], w, h); Giant g(w, h, 4); mark(c, g); typedef u8 *(*F)(u32, u32, const u8 *); static const F fn[] = {fcv_flip_x, fcv_flip_y, fcv_transpose, fcv_transverse, fcv_rotate_90_cw, fcv_rotate_180, fcv_rotate_270_cw};
  Res_ r(fn[f](w, h, g.p), N[f]); Marks e; for (auto &m : g.m) { u64 x = m.first % w, y = m.first / w, X, Y, W = w; switch (f) { case 0: X = w - 1 - x; Y = y; break; case 1: X = x; Y = h - 1 - y; break; case 2: X = y; Y = x; W = h; break; case 3: X = h - 1 - y; Y = w - 1 - x; W = h; break; case 4: X = h - 1 - y; Y = x; W = h; break; case 5: X = w - 1 - x; Y = h - 1 - y; break; default: X = y; Y = w - 1 - x; W = h; } e[Y * W + X] = m.second; }
  expect(r.p, w * h, 4, {0, 0, 0, 0}, e, N[f]);
}
static void grayscale(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "grayscale", w, h); Giant g(w, h, 4); mark(c, g); Res_ r(fcv_grayscale(w, h, g.p), "grayscale"); Marks e; for (auto &m : g.m) { u8 v = gray(m.second); e[m.first] = {v, v, v, 255}; } expect(r.p, w * h, 4, {0, 0, 0, 255}, e, "grayscale"); }
static void to_gray(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "rgba_to_grayscale", w, h); Giant g(w, h, 4); mark(c, g); Res_ r(fcv_rgba_to_grayscale(w, h, g.p), "rgba_to_grayscale"); Marks e; for (auto &m : g.m) e[m.first] = {gray(m.second), 0, 0, 0}; expect(r.p, w * h, 1, {0, 0, 0, 0}, e, "rgba_to_grayscale"); }
static void to_multi(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "single_to_multichannel", w, h); Giant g(w, h, 1); mark(c, g); Res_ r(fcv_single_to_multichannel(w, h, g.p), "single_to_multichannel"); Marks e; for (auto &m : g.m) { u8 v = m.second[0]; e[m.first] = {v, v, v, 255}; } expect(r.p, w * h, 4, {0, 0, 0, 255}, e, "single_to_multichannel"); }
// a handful of bright pixels on black: less than 1/64 of the image, so the contrast has nothing to stretch
static void stretch(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "grayscale_stretch", w, h); Giant g(w, h, 4); mark(c, g); Res_ r(fcv_grayscale_stretch(w, h, g.p), "grayscale_stretch"); Marks e; for (auto &m : g.m) { u8 v = gray(m.second); e[m.first] = {v, v, v, 255}; } expect(r.p, w * h, 4, {0, 0, 0, 255}, e, "grayscale_stretch"); }
static void otsu(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "otsu_threshold", w, h); Giant g(w, h, 4); mark(c, g); for (auto &m : std::map<u64, std::array<u8, 4>>(g.m)) { u8 v = c.index % 2 ? 200 : 255; g.put(m.first, {v, v, v, 9}); } Res_ r(fcv_otsu_threshold_rgba(w, h, false, g.p), "otsu_threshold"); Marks e; for (auto &m : g.m) e[m.first] = {255, 255, 255, 255}; expect(r.p, w * h, 4, {0, 0, 0, 255}, e, "otsu_threshold"); }
// more than 2^32 pixels; only the last 2^27 of them are looked at
static void beyond32(Case &c) {
  u64 w, h; size_for(c, 32, w, h); static const char *N[] = {"otsu_threshold", "bw threshold with ramp", "grayscale_stretch"}; int f = c.index % 3; start(c, N[f], w, h); Giant g(w, h, 4); u64 n = g.n(), from = n - (1u << 27); u8 v = f == 2 ? 90 : c.range(100, 255); Rng r(c.draw(1u << 30)); for (int k = 0; k < 200; k++) { u64 i = k < 100 ? n - 1 - r.below(5000) : from + r.next() % (n - from); g.put(i, {v, v, v, 9}); }
  g_alias = true; u8 *p = f == 2 ? (u8 *)fcv_grayscale_stretch(w, h, g.p) : fcv_otsu_threshold_rgba(w, h, f == 1, g.p); g_alias = false; Res_ q(p, N[f]);
  Marks e; for (auto &m : g.m) { u8 x = f == 2 ? 90 : 255; e[m.first - from] = {x, x, x, 255}; } expect(q.p + from * 4, n - from, 4, {0, 0, 0, 255}, e, N[f]);
}
// radius below 1: every pixel keeps its colour
static void blur(Case &c) { u64 w, h; do size_for(c, 30, w, h); while (w > 1000 && h > 1000); start(c, "gaussian_blur", w, h); Giant g(w, h, 4); mark(c, g); Res_ r(fcv_apply_gaussian_blur(w, h, 0.5, g.p), "gaussian_blur"); Marks e; for (auto &m : g.m) e[m.first] = {m.second[0], m.second[1], m.second[2], 255}; expect(r.p, w * h, 4, {0, 0, 0, 255}, e, "gaussian_blur"); }
// averaging blocks of the giant image
static void shrink_(Case &c) { u64 w, h; size_for(c, 30, w, h); u64 bw = w > 1000 ? 1024 : 1, bh = h > 1000 ? 1024 : 1; u64 ow = w / bw + (w % bw != 0), oh = h / bh + (h % bh != 0); w = ow * bw; h = oh * bh; start(c, "resize (smaller)", w, h); Giant g(w, h, 4); Rng r(c.draw(1u << 30)); Marks e; for (int k = 0; k < 60; k++) { u64 bx = r.next() % ow, by = k < 20 ? oh - 1 - r.next() % std::min<u64>(oh, 5) : r.next() % oh; std::array<u8, 4> v{(u8)(1 + r.below(255)), (u8)(1 + r.below(255)), (u8)(1 + r.below(255)), 255}; for (u64 y = 0; y < bh; y++) for (u64 x = 0; x < bw; x++) memcpy(g.p + ((by * bh + y) * w + bx * bw + x) * 4, v.data(), 4); e[by * ow + bx] = v; } u32 gw, gh; Res_ o(fcv_resize(w, h, 1.0 / bw, 1.0 / bh, &gw, &gh, g.p), "resize"); REQUIRE_F(gw == ow && gh == oh, "size %ux%u, expected %llux%llu", gw, gh, (unsigned long long)ow, (unsigned long long)oh); expect(o.p, ow * oh, 4, {0, 0, 0, 255}, e, "resize (smaller)"); }
// enlarging: constant blocks keep their colour away from their edges
static void enlarge(Case &c) { u64 w = c.range(3, 12), k = c.range(3, 20), n = 1ull << 30; u64 h = 3 + c.range(0, 9); double fx = k, fy; u64 ow = w * k, oh = n / ow + 1; oh = (oh / h + 1) * h; fy = (double)(oh / h); if (c.coin()) { std::swap(w, h); std::swap(fx, fy); std::swap(ow, oh); } start(c, "resize (larger)", ow, oh); Img a; a.w = w; a.h = h; a.ch = 4; a.d.resize(w * h * 4); Rng r(c.draw(1u << 30)); for (u8 &b : a.d) b = 1 + r.below(255); u32 gw, gh; Res_ o(fcv_resize(w, h, fx, fy, &gw, &gh, a.d.data()), "resize"); REQUIRE_F(gw == ow && gh == oh, "size %ux%u, expected %llux%llu", gw, gh, (unsigned long long)ow, (unsigned long long)oh); auto at = [&](u64 i) { u64 X = i % ow, Y = i / ow; double sx = (X + .5) / fx - .5, sy = (Y + .5) / fy - .5; auto cl = [](double v, double m) { return v < 0 ? 0. : v > m ? m : v; }; sx = cl(sx, w - 1); sy = cl(sy, h - 1); u64 x0 = sx, y0 = sy, x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1); double dx = sx - x0, dy = sy - y0; for (int q = 0; q < 3; q++) { double v = a.px(x0, y0)[q] * (1 - dx) * (1 - dy) + a.px(x1, y0)[q] * dx * (1 - dy) + a.px(x0, y1)[q] * (1 - dx) * dy + a.px(x1, y1)[q] * dx * dy; u8 g = o.p[i * 4 + q]; REQUIRE_F(std::fabs(v - g) <= 1.01, "pixel (%llu,%llu) channel %d is %u, expected %.2f", (unsigned long long)X, (unsigned long long)Y, q, g, v); } REQUIRE_F(o.p[i * 4 + 3] == 255, "alpha %u", o.p[i * 4 + 3]); }; u64 N = ow * oh; for (int q = 0; q < 200000; q++) at(r.next() % N); for (u64 i = 0; i < 3000; i++) { at(i); at(N - 1 - i); } for (int b = 28; b <= 30; b++) for (i64 d = -3; d < 4; d++) if ((1ull << b) + d < N) at((1ull << b) + d); }
static void border(Case &c) { u64 w, h; size_for(c, 30, w, h); u32 b = c.range(1, 4), ch = c.oneof<u32>({4, 3}); start(c, "add_border", w, h); Giant g(w, h, ch); mark(c, g); u32 ow, oh; Res_ r(fcv_add_border(w, h, ch, "102030", b, g.p, &ow, &oh), "add_border"); REQUIRE_F(ow == w + 2 * b && oh == h + 2 * b, "size %ux%u", ow, oh); std::array<u8, 4> bc{0x10, 0x20, 0x30, 255}; for (u64 y = 0; y < oh; y++) { const u8 *row = r.p + y * ow * ch; bool in = y >= b && y < oh - b; if (!in) { for (u64 x = 0; x < ow; x++) REQUIRE_F(!memcmp(row + x * ch, bc.data(), ch), "border pixel (%llu,%llu)", (unsigned long long)x, (unsigned long long)y); continue; } for (u32 x = 0; x < b; x++) REQUIRE_F(!memcmp(row + x * ch, bc.data(), ch) && !memcmp(row + (ow - 1 - x) * ch, bc.data(), ch), "border pixel in row %llu", (unsigned long long)y); const u8 *src = g.p + (y - b) * w * ch; REQUIRE_F(!memcmp(row + b * ch, src, w * ch), "row %llu of the image", (unsigned long long)(y - b)); } }
static void cropping(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "crop", w, h); Giant g(w, h, 4); mark(c, g); u32 x = c.range(0, 1), y = c.range(0, 1); u64 cw = w - x, chh = h - y; Res_ r(fcv_crop(w, h, 4, g.p, x, y, cw, chh), "crop"); Marks e; for (auto &m : g.m) { u64 X = m.first % w, Y = m.first / w; if (X >= x && Y >= y) e[(Y - y) * cw + X - x] = m.second; } expect(r.p, cw * chh, 4, {0, 0, 0, 0}, e, "crop"); }
static void trimming(Case &c) { u64 w, h; size_for(c, 30, w, h); bool tol = c.coin(); start(c, tol ? "trim_threshold" : "trim", w, h); Giant g(w, h, 4); u64 l = 1, t = 1, rr = w - 1, bb = h - 1; std::array<u8, 4> v{200, 100, 50, 255}; g.put(t * w + l, v); g.put((bb - 1) * w + rr - 1, {9, 90, 99, 255}); Marks keep = g.m; { std::array<u8, 4> B{70, 80, 90, 255}, Q{33, 44, 55, 255}; for (u64 x = 0; x < w; x++) memcpy(g.p + ((h - 1) * w + x) * 4, B.data(), 4); if (h <= 100000) for (u64 y = 0; y < h; y++) memcpy(g.p + (y * w + w - 1) * 4, Q.data(), 4); } i32 gw = w, gh = h; Res_ r(tol ? fcv_trim_threshold(&gw, &gh, 4, g.p, 1.0) : fcv_trim(&gw, &gh, 4, g.p), "trim"); REQUIRE_F((u64)gw == rr - l && (u64)gh == bb - t, "trimmed to %dx%d", gw, gh); Marks e; for (auto &m : keep) e[(m.first / w - t) * (rr - l) + m.first % w - l] = m.second; expect(r.p, (rr - l) * (bb - t), 4, {0, 0, 0, 0}, e, "trim"); }
static void binary(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "convert_to_binary", w, h); Giant g(w, h, 4); mark(c, g); Rng r(c.draw(1u << 30)); Marks e; for (auto &m : std::map<u64, std::array<u8, 4>>(g.m)) { bool fg = r.below(2); g.put(m.first, fg ? std::array<u8, 4>{1, 2, 3, 255} : std::array<u8, 4>{7, 7, 7, 255}); if (fg) e[m.first] = {255, 0, 0, 0}; } Res_ o(fcv_convert_to_binary(g.p, w, h, "010203", "000000"), "convert_to_binary"); expect(o.p, w * h, 1, {0, 0, 0, 0}, e, "convert_to_binary"); }
static void morph(Case &c) { // more than 2^31 pixels; radius 0 keeps the image, radius 1 grows single points
  u64 w, h; do size_for(c, 31, w, h); while (0); int op = c.index % 4; static const char *N[] = {"dilation", "erosion", "closing", "opening"}; i32 rad = op == 0 ? c.range(0, 2) : 0; start(c, N[op], w, h); Giant g(w, h, 1); mark(c, g); Marks e; for (auto &m : std::map<u64, std::array<u8, 4>>(g.m)) { g.put(m.first, {255, 0, 0, 0}); for (i64 dy = -rad; dy <= rad; dy++) for (i64 dx = -rad; dx <= rad; dx++) { if (dx * dx + dy * dy > (rad + .5) * (rad + .5)) continue; i64 x = m.first % w + dx, y = m.first / w + dy; if (x >= 0 && y >= 0 && x < (i64)w && y < (i64)h) e[(u64)y * w + x] = {255, 0, 0, 0}; } }
  typedef u8 *(*F)(const u8 *, i32, i32, i32); static const F fn[] = {fcv_binary_dilation_disk, fcv_binary_erosion_disk, fcv_binary_closing_disk, fcv_binary_opening_disk}; Res_ r(fn[op](g.p, w, h, rad), N[op]); expect(r.p, w * h, 1, {0, 0, 0, 0}, e, N[op]); }
static void threshold(Case &c) { // in place; the length is a 32-bit count, so up to 2^32 - 1 pixels
  u64 w, h; size_for(c, 31, w, h); start(c, "apply_global_threshold", w, h); Giant g(w, h, 1); mark(c, g); u8 t = c.range(0, 254); fcv_apply_global_threshold((u32)(w * h), g.p, t); Marks e; for (auto &m : g.m) e[m.first] = {(u8)(m.second[0] > t ? 255 : 0), 0, 0, 0}; expect(g.p, w * h, 1, {0, 0, 0, 0}, e, "apply_global_threshold"); }
// more than 2^32 pixels of one brightness
static void histo(Case &c) { u64 w, h; u32 ch = c.index % 2 ? 1 : 4; size_for(c, ch == 1 ? 32 : 30, w, h); if (w > h) w += w / 16; else h += h / 16; start(c, "histogram", w, h); Giant g(w, h, ch); u64 n = w * h, k = n / 64; u8 v = c.range(1, 255); if (ch == 1) memset(g.p + n - k, v, k); else for (u64 i = n - k; i < n; i++) { g.p[i * 4] = g.p[i * 4 + 1] = g.p[i * 4 + 2] = v; } u32 ow, oh; Res_ r(fcv_generate_histogram(w, h, ch, g.p, &ow, &oh), "histogram"); REQUIRE_F(ow == 256 && oh == 200, "size"); for (u32 x = 0; x < 256; x++) { u32 bar = 0; while (bar < 200 && r.p[((199 - bar) * 256 + x) * 4]) bar++; double e = x == 0 ? 200 : x == v ? 200.0 * k / (n - k) : 0; REQUIRE_F(std::fabs(bar - e) < 1.01, "bar %u has height %u, expected %.2f", x, bar, e); } }
// a small picture placed at the far end of a giant output
static void matrix(Case &c) { u64 w, h; size_for(c, 30, w, h); start(c, "apply_matrix_3x3", w, h); u32 iw = std::min<u64>(w, 1 + c.draw(9)), ih = std::min<u64>(h, 1 + c.draw(9)); Img a; a.w = iw; a.h = ih; a.d.resize(iw * ih * 4); Rng r(c.draw(1u << 30)); for (u8 &b : a.d) b = 1 + r.below(255); u64 ox = w - iw, oy = h - ih; Matrix3x3 m{1, 0, -(double)ox, 0, 1, -(double)oy, 0, 0, 1}; Res_ o(fcv_apply_matrix_3x3(iw, ih, a.d.data(), w, h, &m), "apply_matrix_3x3"); for (u64 y = 0; y < ih; y++) REQUIRE_F(!memcmp(o.p + ((oy + y) * w + ox) * 4, a.px(0, y), iw * 4), "row %llu of the placed picture", (unsigned long long)y); for (int k = 0; k < 2000; k++) { u64 i = r.next() % (w * h); if (i % w >= ox && i / w >= oy) continue; REQUIRE_F(!o.p[i * 4] && !o.p[i * 4 + 3], "pixel %llu outside the picture is painted", (unsigned long long)i); } }
static void peaks(Case &c) { u64 w, h; size_for(c, 31, w, h); if (w > h) w += w / 16; else h += h / 16; start(c, "corner_peaks", w, h); Giant g(w, h, 2); Rng r(c.draw(1u << 30)); std::map<std::pair<u64, u64>, int> want; for (int k = 0; k < 40; k++) { u64 x = 1 + r.next() % (w - 2), y = k < 20 ? h - 2 - r.next() % std::min<u64>(h - 2, 9) : 1 + r.next() % (h - 2); bool near = false; for (auto &q : want) if (std::llabs((long long)(q.first.first - x)) < 8 && std::llabs((long long)(q.first.second - y)) < 8) near = true; if (near) continue; want[{x, y}] = 1; g.p[(y * w + x) * 2] = 200 + r.below(50); g.p[(y * w + x) * 2 + 1] = 255; } CornerPeaks *q = fcv_corner_peaks(w, h, g.p, 3, 0.5, 0.5); if (!q) FAILF("corner_peaks rejected the image although memory was available"); u32 n = q->count; std::map<std::pair<u64, u64>, int> got; for (u32 i = 0; i < n; i++) got[{(u64)q->points[i].x, (u64)q->points[i].y}] = 1; free(q->points); free(q); REQUIRE_F(n == want.size() && got == want, "%u peaks, expected the %zu isolated maxima", n, want.size()); }
// more peaks than 16 bits can count
static void manypeaks(Case &c) {
  u32 st = 2, w = 520 + c.draw(60), h = 520 + c.draw(60); start(c, "corner_peaks (many)", w, h); std::vector<u8> d((size_t)w * h * 2, 0); u64 n = 0; for (u32 y = 1; y + 1 < h; y += st) for (u32 x = 1; x + 1 < w; x += st) { d[((size_t)y * w + x) * 2] = 200; d[((size_t)y * w + x) * 2 + 1] = 255; n++; }
  CornerPeaks *q = fcv_corner_peaks(w, h, d.data(), 1, 0.5, 0.5); if (!q) FAILF("corner_peaks failed although memory was available"); u64 k = q->count; std::set<std::pair<double, double>> s; for (u64 i = 0; i < k; i++) s.insert({q->points[i].x, q->points[i].y}); free(q->points); free(q); REQUIRE_F(k == n && s.size() == n, "%llu peaks (%zu different), expected %llu isolated maxima", (unsigned long long)k, s.size(), (unsigned long long)n);
}
// drawing into a giant image: the shape appears where it belongs and nothing else changes
static void drawing(Case &c) {
  u64 w, h; u32 ch = c.index % 2 ? 4 : 1; size_for(c, ch == 1 ? 32 : 30, w, h); bool disk = c.coin(); start(c, disk ? "draw_disk" : "draw_circle", w, h); Giant g(w, h, ch); i64 r = c.range(0, 6), cx = w - 1 - c.draw(std::min<u64>(w, 12)), cy = h - 1 - c.draw(std::min<u64>(h, 12)); if (c.coin()) { cx = c.draw(w); cy = c.draw(h); }
  std::array<u8, 4> v = ch == 4 ? std::array<u8, 4>{0x40, 0x50, 0x60, 0} : std::array<u8, 4>{0x50, 0, 0, 0}; const char *hex = ch == 4 ? "405060" : "505050"; (disk ? fcv_draw_disk : fcv_draw_circle)(w, h, ch, hex, r, cx, cy, g.p);
  // the same drawing on a window around the centre, which C13 decides
  i64 R = r + 3, x0 = std::max<i64>(0, cx - R), y0 = std::max<i64>(0, cy - R), x1 = std::min<i64>(w, cx + R + 1), y1 = std::min<i64>(h, cy + R + 1); u32 ww = x1 - x0, wh = y1 - y0; std::vector<u8> win((size_t)ww * wh * ch, 0); (disk ? fcv_draw_disk : fcv_draw_circle)(ww, wh, ch, hex, r, cx - x0, cy - y0, win.data()); (void)v;
  Marks e; bool any = false; for (u32 y = 0; y < wh; y++) for (u32 x = 0; x < ww; x++) { std::array<u8, 4> q{0, 0, 0, 0}; memcpy(q.data(), &win[((size_t)y * ww + x) * ch], ch); any |= q[0] != 0; e[(u64)(y0 + y) * w + x0 + x] = q; } REQUIRE_F(any, "nothing was drawn"); expect(g.p, w * h, ch, {0, 0, 0, 0}, e, "drawing");
}
// reading a small window from a giant image
static void window(Case &c) {
  u64 w, h; size_for(c, 30, w, h); start(c, "apply_matrix_3x3 (giant input)", w, h); Giant g(w, h, 4); mark(c, g); u32 ow = std::min<u64>(w, 1 + c.draw(40)), oh = std::min<u64>(h, 1 + c.draw(40)); for (int k = 0; k < 4; k++) { u64 ox = k == 0 ? w - ow : c.draw(w - ow + 1), oy = k == 0 ? h - oh : k == 1 ? ((1ull << 30) / w > h - oh ? h - oh : (1ull << 30) / w) : c.draw(h - oh + 1); Matrix3x3 m{1, 0, (double)ox, 0, 1, (double)oy, 0, 0, 1}; Res_ o(fcv_apply_matrix_3x3(w, h, g.p, ow, oh, &m), "apply_matrix_3x3"); for (u64 y = 0; y < oh; y++) REQUIRE_F(!memcmp(o.p + y * ow * 4, g.p + ((oy + y) * w + ox) * 4, ow * 4), "row %llu of the window at (%llu,%llu)", (unsigned long long)y, (unsigned long long)ox, (unsigned long long)oy); }
}
// a document photographed with more than a gigapixel is found like its small version
static void document(Case &c) {
  u64 s = 32800 + c.draw(300), w = s + 64 - s % 64, h = (1ull << 30) / w + 1; h += 64 - h % 64; start(c, "detect_corners", w, h); Giant g(w, h, 4); double q[4]; for (double &x : q) x = c.real(0.12, 0.28); u64 x0 = q[0] * w, x1 = (1 - q[1]) * w, y0 = q[2] * h, y1 = (1 - q[3]) * h; u8 v = 150 + c.draw(100); for (u64 x = x0; x < x1; x++) { u8 *p = g.p + (y0 * w + x) * 4; p[0] = p[1] = p[2] = v; p[3] = 255; } for (u64 y = y0 + 1; y < y1; y++) memcpy(g.p + (y * w + x0) * 4, g.p + (y0 * w + x0) * 4, (x1 - x0) * 4);
  Corners k = fcv_detect_corners(g.p, w, h); double e[8] = {(double)x0, (double)y0, (double)x1, (double)y0, (double)x1, (double)y1, (double)x0, (double)y1}; const double *f = &k.tl_x; for (int i = 0; i < 8; i++) REQUIRE_F(std::fabs(f[i] - e[i]) <= 0.04 * (i & 1 ? h : w), "corner coordinate %d is %.1f, the document has %.1f", i, f[i], e[i]);
}
// more pixels than the segmentation can address: it may refuse, but has to return
static void segmentation(Case &c) {
  u64 w, h; size_for(c, 32, w, h); start(c, "watershed", w, h); Giant g(w, h, 1); Point2D m[2] = {{0, 0}, {(double)(w - 1), (double)(h - 1)}}; u8 *r = fcv_watershed_segmentation(w, h, g.p, m, 2, c.coin()); if (!r) return; REQUIRE_F(r[3] == 255 && r[w * h * 4 - 1] == 255, "incomplete result"); free(r);
}
Property property() {
  return {"C30", "Images of slightly more than 2^30..2^32 pixels in narrow, wide and square shapes; sparse input with marked pixels at 32-bit wrap points, the ends and random places; every pixel of the result is compared with the operation's pixel rule (enlarging: 200,000 sampled ones). Non-trivial: every case (all images exceed 4 GiB, 2^31 pixels or 2^32 pixels).",
    {{"grayscale", grayscale, 1, 8}, {"stretch", stretch, 1, 8}, {"to_gray", to_gray, 1, 8}, {"to_multi", to_multi, 1, 8}, {"otsu", otsu, 1, 8}, {"beyond32", beyond32, 3, 9}, {"blur", blur, 1, 8}, {"shrink", shrink_, 2, 12}, {"enlarge", enlarge, 1, 8}, {"border", border, 2, 12}, {"crop", cropping, 1, 8}, {"trim", trimming, 2, 12}, {"binary", binary, 1, 8}, {"threshold", threshold, 1, 8}, {"morph", morph, 4, 16}, {"histogram", histo, 2, 12}, {"matrix", matrix, 1, 8}, {"peaks", peaks, 1, 8}, {"manypeaks", manypeaks, 1, 6}, {"drawing", drawing, 2, 8}, {"window", window, 1, 8}, {"document", document, 1, 4}, {"segmentation", segmentation, 1, 4}, {"permute", permute, 7, 28}},
    {"14 GiB of free memory; with less the case is discarded", "Sobel, Foerstner, watershed (except that it returns), bw_smart and document extraction are not run on such images: they need several hundred gigabytes or hours, or reject them"}};
}
