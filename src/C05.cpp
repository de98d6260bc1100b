#include "cli.hpp"
static u32 expect_dim(u32 n, double s) { // floor(n*s), tolerant to representation error of s at integers
  long double p = (long double)n * s; long double r = roundl(p); if (fabsl(p - r) <= 1e-9L * std::max<long double>(1, r)) return (u32)r; return (u32)floorl(p);
}
static bool fuzzy_dim(u32 n, double s) { long double p = (long double)n * s, r = roundl(p); return p != r && fabsl(p - r) <= 1e-9L * std::max<long double>(1, r); }
static bool resize(const Img &a, double sx, double sy, Img &o) {
  Buf in(a); u32 ow = 0, oh = 0; u8 *r = fcv_resize(a.w, a.h, sx, sy, &ow, &oh, in.p); REQUIRE_F(in.same(a.d), "input modified");
  u32 ew = expect_dim(a.w, sx), eh = expect_dim(a.h, sy);
  if (ew == 0 || eh == 0) { bool got = r; free(r); REQUIRE_F(!got, "an empty result must be rejected"); return false; }
  REQUIRE_F(r, "%ux%u by %.17g,%.17g returned no image", a.w, a.h, sx, sy);
  if (ow != ew || oh != eh) { free(r); FAILF("%ux%u resized by %.17g,%.17g is %ux%u, expected %ux%u", a.w, a.h, sx, sy, ow, oh, ew, eh); }
  o = take(r, ow, oh, 4, "resize"); return true;
}
// exact real-valued reference, one colour plane at one output pixel
static void ref_px(const Img &a, double sx, double sy, u32 x, u32 y, double v[3], double lo[3], double hi[3]) {
  for (int k = 0; k < 3; k++) { v[k] = 0; lo[k] = 255; hi[k] = 0; }
  auto use = [&](i64 px, i64 py, double w) { const u8 *p = a.px((u32)px, (u32)py); for (int k = 0; k < 3; k++) { v[k] += w * p[k]; if (w > 1e-12) { lo[k] = std::min(lo[k], (double)p[k]); hi[k] = std::max(hi[k], (double)p[k]); } } };
  if (sx < 1 || sy < 1) {
    double x0 = x / sx, x1 = (x + 1) / sx, y0 = y / sy, y1 = (y + 1) / sy; x1 = std::min(x1, (double)a.w); y1 = std::min(y1, (double)a.h); double area = (x1 - x0) * (y1 - y0);
    for (i64 py = (i64)floor(y0); py < (i64)ceil(y1); py++) for (i64 px = (i64)floor(x0); px < (i64)ceil(x1); px++) { if (px >= a.w || py >= a.h) continue; double w = (std::min(x1, px + 1.0) - std::max(x0, (double)px)) * (std::min(y1, py + 1.0) - std::max(y0, (double)py)); if (w > 0) use(px, py, w / area); }
  } else {
    double cx = std::min(std::max((x + 0.5) / sx - 0.5, 0.0), a.w - 1.0), cy = std::min(std::max((y + 0.5) / sy - 0.5, 0.0), a.h - 1.0); i64 x0 = (i64)cx, y0 = (i64)cy, x1 = std::min<i64>(x0 + 1, a.w - 1), y1 = std::min<i64>(y0 + 1, a.h - 1); double dx = cx - x0, dy = cy - y0;
    use(x0, y0, (1 - dx) * (1 - dy)); use(x1, y0, dx * (1 - dy)); use(x0, y1, (1 - dx) * dy); use(x1, y1, dx * dy);
  }
}
static double factor(Case &c, u32 n, bool want_shrink) {
  switch (c.pick({3, 3, 2, 2})) {
    case 0: return want_shrink ? 1.0 / c.range(1, 6) : (double)c.range(1, 6);
    case 1: { u32 t = want_shrink ? c.range(1, n) : c.range(n, n * 4 + 3); return (double)t / n; } // exact target
    case 2: return want_shrink ? c.range(1, 100) / 100.0 : c.range(100, 400) / 100.0;
    default: return want_shrink ? c.real(0.02, 1.0) : c.real(1.0, 5.0);
  }
}
static void value(Case &c) {
  Img a = gen_img(c, 4, 2500); int mode = c.draw(3); double sx = factor(c, a.w, mode != 1), sy = factor(c, a.h, mode == 0 || (mode == 2 && c.coin()));
  if (mode == 2 && c.coin()) std::swap(sx, sy); // mixed
  double outpx = a.w * sx * a.h * sy; if (outpx > 40000) { sx = std::min(sx, 40000.0 / a.n() / sy); }
  c.note(fmt("resize %.17g %.17g of %s", sx, sy, show(a).c_str())); c.label(sx < 1 && sy < 1 ? "shrink" : sx < 1 || sy < 1 ? "mixed" : sx == 1 && sy == 1 ? "unit" : "enlarge");
  Img o; if (!resize(a, sx, sy, o)) { c.label("rejected empty"); return; }
  c.nontrivial(multi_valued(a) && (o.w != a.w || o.h != a.h));
  for (u32 y = 0; y < o.h; y++) for (u32 x = 0; x < o.w; x++) { double v[3], lo[3], hi[3]; ref_px(a, sx, sy, x, y, v, lo, hi); const u8 *p = o.px(x, y);
    for (int k = 0; k < 3; k++) { REQUIRE_F(fabs(p[k] - v[k]) <= 1.0 + 1e-6, "output (%u,%u) channel %d is %u, the exact value is %.4f (scale %.6g,%.6g, %ux%u to %ux%u)", x, y, k, p[k], v[k], sx, sy, a.w, a.h, o.w, o.h); REQUIRE_F(p[k] >= lo[k] && p[k] <= hi[k], "output (%u,%u) channel %d is %u, outside the covered input range %g..%g", x, y, k, p[k], lo[k], hi[k]); }
    REQUIRE_F(p[3] == 255, "output (%u,%u) is not opaque", x, y); }
  if (sx == 1 && sy == 1) for (size_t i = 0; i < a.n(); i++) REQUIRE_F(!memcmp(&o.d[i * 4], &a.d[i * 4], 3), "factor 1 changes colours");
}
// mirror / transpose / channel exchange, for sizes that scale exactly
static void symmetry(Case &c) {
  u32 kx = c.range(1, 6), ky = c.range(1, 6), mx = c.range(1, 9), my = c.range(1, 9), bx = c.range(1, 10), by = c.range(1, 10);
  u32 w = kx * bx, h = ky * by; double sx = (double)mx / kx, sy = (double)my / ky; Img a = gen_content(c, w, h, 4); a.ch = 4;
  c.note(fmt("resize %ux%u to %ux%u, symmetric", w, h, mx * bx, my * by)); c.nontrivial(multi_valued(a)); c.label(sx < 1 && sy < 1 ? "sym shrink" : sx < 1 || sy < 1 ? "sym mixed" : "sym enlarge");
  Img o, p; if (!resize(a, sx, sy, o)) return;
  auto near = [&](const Img &x, const Img &y, const char *t) { REQUIRE_F(x.w == y.w && x.h == y.h, "%s: sizes differ", t); for (size_t i = 0; i < x.d.size(); i++) REQUIRE_F(abs((int)x.d[i] - y.d[i]) <= 1, "%s: byte %zu: %u vs %u", t, i, x.d[i], y.d[i]); };
  resize(R_flipx(a), sx, sy, p); near(R_flipx(p), o, "horizontal mirror"); resize(R_flipy(a), sx, sy, p); near(R_flipy(p), o, "vertical mirror"); resize(R_transpose(a), sy, sx, p); near(R_transpose(p), o, "transpose");
  Img b = a; for (size_t i = 0; i < a.n(); i++) { std::swap(b.d[i * 4], b.d[i * 4 + 2]); b.d[i * 4 + 3] ^= 0x5a; } resize(b, sx, sy, p); for (size_t i = 0; i < p.n(); i++) std::swap(p.d[i * 4], p.d[i * 4 + 2]); cmp_img(p, o, "exchanging channels and changing alpha");
  Img k = a; for (size_t i = 0; i < k.n(); i++) memcpy(&k.d[i * 4], a.d.data(), 3); resize(k, sx, sy, p); for (size_t i = 0; i < p.n(); i++) REQUIRE_F(!memcmp(&p.d[i * 4], a.d.data(), 3), "constant image changes");
}
// output sizes for many size/factor pairs
static void dims(Case &c) {
  u32 w = c.range(1, c.coin() ? 300 : 3000), h = c.range(1, 4); Img a; a.w = w; a.h = h; a.d.assign(a.n() * 4, 90); bool sw = c.coin(); if (sw) std::swap(a.w, a.h);
  u32 n = w; double s; int k = c.draw(2); if (k == 0) { u32 t = c.range(1, 3000); s = (double)t / n; } else s = c.range(1, 300) / 100.0;
  if (n * s > 6000) s = 1; c.note(fmt("size of %ux%u by %.17g", a.w, a.h, s)); c.nontrivial(); if (fuzzy_dim(n, s)) c.label("product just off an integer"); Img o; resize(a, sw ? 1.0 : s, sw ? s : 1.0, o);
}
static void command(Case &c) {
  u32 w = c.range(1, 150), h = c.range(1, 60); Img a = gen_content(c, w, h, 4); std::string arg; u32 ew, eh; int k = c.pick({4, 2, 2});
  if (k == 0) { ew = c.range(1, 400); eh = c.range(1, 120); arg = fmt("%ux%u", ew, eh); } else if (k == 1) { u32 p = c.range(1, 300); ew = (u64)w * p / 100; eh = (u64)h * p / 100; arg = fmt("%u%%", p); } else { u32 p = c.range(1, 300), q = c.range(1, 300); ew = (u64)w * p / 100; eh = (u64)h * q / 100; arg = fmt("%u%%x%u%%", p, q); }
  c.note(fmt("flatcv %ux%u resize %s", w, h, arg.c_str())); c.nontrivial(); c.label(k == 0 ? "cli absolute" : "cli percent");
  Img o; bool ok = cli_pipe(a, {"resize", arg}, o); if (ew == 0 || eh == 0) { REQUIRE_F(!ok, "empty size accepted"); return; }
  REQUIRE_F(ok, "resize %s of %ux%u failed", arg.c_str(), w, h); REQUIRE_F(o.w == ew && o.h == eh, "resize %s of %ux%u gives %ux%u, expected %ux%u", arg.c_str(), w, h, o.w, o.h, ew, eh);
  double sx = (double)ew / w, sy = (double)eh / h; if (k == 1 || k == 2) { unsigned p, q; if (sscanf(arg.c_str(), "%u%%x%u%%", &p, &q) != 2) q = p; sx = p / 100.0; sy = q / 100.0; }
  for (int t = 0; t < 40; t++) { u32 x = c.draw(o.w), y = c.draw(o.h); double v[3], lo[3], hi[3]; ref_px(a, sx, sy, x, y, v, lo, hi); for (int q = 0; q < 3; q++) REQUIRE_F(fabs(o.px(x, y)[q] - v[q]) <= 1 + 1e-6, "pixel (%u,%u) is %u, exact %.3f", x, y, o.px(x, y)[q], v[q]); }
}
static void big(Case &c) { // large images, sampled pixels
  u32 w = c.range(600, 2500), h = c.range(600, 2500); if (c.chance(1, 4)) { w = c.range(30000, 80000); h = c.range(1, 5); if (c.coin()) std::swap(w, h); } Img a = gen_content(c, w, h, 4); double sx = c.coin() ? c.real(0.01, 1) : c.real(1, 2), sy = c.coin() ? c.real(0.01, 1) : c.real(1, 2); if (w * sx < 1) sx = 1; if (h * sy < 1) sy = 1;
  c.note(fmt("resize %.6g %.6g of %ux%u", sx, sy, w, h)); c.nontrivial(); c.label("big"); Img o; if (!resize(a, sx, sy, o)) return;
  for (int t = 0; t < 3000; t++) { u32 x = c.draw(o.w), y = c.draw(o.h); if (t % 8 == 0) x = o.w - 1; if (t % 8 == 1) y = o.h - 1; double v[3], lo[3], hi[3]; ref_px(a, sx, sy, x, y, v, lo, hi); for (int q = 0; q < 3; q++) REQUIRE_F(fabs(o.px(x, y)[q] - v[q]) <= 1 + 1e-4 && o.px(x, y)[3] == 255, "pixel (%u,%u) is %u, exact %.3f", x, y, o.px(x, y)[q], v[q]); }
}
// long thin images: shrinking by large factors (structured content, so that every part of the covered area counts) and enlarging far from the origin
static void extreme(Case &c) {
  bool enlarge = c.chance(1, 6); u32 w = enlarge ? c.range(200000, 3000000) : c.coin() ? c.range(300, 6000) : c.range(6000, 120000), h = c.range(1, 4); Img a; a.w = w; a.h = h; a.d.assign(a.n() * 4, 255); Rng r(c.draw(1 << 30)); int kind = c.draw(3); u32 cut[4]; for (auto &v : cut) v = r.below(w + 1); u32 flip = r.below(2);
  for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) for (int k = 0; k < 3; k++) { int v; if (enlarge || kind == 2) v = r.below(256); else if (kind == 0) v = (int)((u64)x * 255 / w) ^ (flip ? 255 : 0); else { int q = k; for (u32 t : cut) q += x >= t; v = (q ^ flip) & 1 ? 250 : 3; } a.px(x, y)[k] = v; }
  double sx, sy = c.coin() ? 1 : c.real(0.3, 1.9); if (enlarge) { sx = c.coin() ? 1 : c.real(1, 1.5); sy = c.oneof<double>({1, 2}); } else { u32 t = c.range(1, c.coin() ? 6 : 60); sx = c.coin() ? (double)t / w : c.real(1, 20) / w; } bool tr = c.coin(); if (tr) { a = R_transpose(a); std::swap(sx, sy); }
  c.note(fmt("resize %.9g %.9g of %ux%u (kind %d)", sx, sy, a.w, a.h, enlarge ? 9 : kind)); c.nontrivial(); c.label(enlarge ? "long enlarge" : "strong shrink"); Img o; if (!resize(a, sx, sy, o)) return;
  for (int t = 0; t < (enlarge ? 3000 : 80); t++) { u32 x = c.draw(o.w), y = c.draw(o.h); if (t % 3 == 0) x = o.w - 1 - x / 64; if (t % 3 == 1) y = o.h - 1 - y / 64; double v[3], lo[3], hi[3]; ref_px(a, sx, sy, x, y, v, lo, hi); for (int q = 0; q < 3; q++) REQUIRE_F(fabs(o.px(x, y)[q] - v[q]) <= 1 + 1e-4 && o.px(x, y)[3] == 255, "pixel (%u,%u) is %u, exact %.3f", x, y, o.px(x, y)[q], v[q]); }
}
Property property() {
  return {"C05", "Random images with shrinking, enlarging, mixed, integer-target and percentage factors; every output pixel compared with a double-precision area/bilinear reference (tolerance one level), local range, opacity, exact output size; mirror/transpose/channel laws on exactly scaling sizes; CLI target sizes. Non-trivial: non-constant image whose size changes.",
    {{"value", value, 16000, 200000}, {"symmetry", symmetry, 8000, 100000}, {"dims", dims, 20000, 300000}, {"command", command, 800, 12000}, {"big", big, 40, 500}, {"extreme", extreme, 240, 4000}}, {"sizes whose exact product is within 1e-9 of an integer count as that integer", "when at least one axis shrinks both axes average the covered area"}};
}
