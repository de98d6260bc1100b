#include "img.hpp"
static std::string showc(const Corners &k) { return fmt("(%.2f,%.2f) (%.2f,%.2f) (%.2f,%.2f) (%.2f,%.2f)", k.tl_x, k.tl_y, k.tr_x, k.tr_y, k.br_x, k.br_y, k.bl_x, k.bl_y); }
static Img gen(Case &c, bool &doc) {
  doc = c.pick({1, 2}); if (!doc) { Img a = gen_img(c, 4, 40000, c.coin()); return a; }
  Img a; a.w = c.range(60, 400); a.h = c.range(60, 400); a.d.assign(a.n() * 4, 255); double q[4][2]; for (int i = 0; i < 4; i++) { bool r = i == 1 || i == 2, b = i >= 2; double u = c.real(0.08, 0.3), v = c.real(0.08, 0.3); q[i][0] = (r ? 1 - u : u) * (a.w - 1); q[i][1] = (b ? 1 - v : v) * (a.h - 1); }
  bool alpha = c.chance(1, 4); Rng R(c.draw(1 << 20)); for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { bool in = true; for (int i = 0; i < 4; i++) { double *s = q[i], *t = q[(i + 1) % 4]; if ((t[0] - s[0]) * (y - s[1]) - (t[1] - s[1]) * (x - s[0]) < 0) in = false; } u8 *p = a.px(x, y); if (in) { p[0] = 180 + 75 * x / a.w; p[1] = 180 + 75 * y / a.h; p[2] = 200 + ((x / 7 + y / 5) & 1) * 30; } else { p[0] = 20; p[1] = 30 + R.below(4); p[2] = 10; } if (alpha) p[3] = R.next(); }
  return a;
}
// a document whose sides measure about the minimum of 100 pixels
static Img gen_small(Case &c) {
  Img a; double w = c.range(94, 104), h = c.range(94, 104); if (c.chance(1, 3)) w = c.range(60, 250); else if (c.coin()) h = c.range(60, 250); a.w = w / c.real(0.5, 0.75); a.h = h / c.real(0.5, 0.75); a.d.assign(a.n() * 4, 255); u32 x0 = (a.w - w) / 2, y0 = (a.h - h) / 2; i64 sk = c.coin() ? 0 : c.range(-4, 4);
  for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { u8 *p = a.px(x, y); i64 u = (i64)x - x0 - sk * ((i64)y - y0) / (i64)h; bool in = u >= 0 && u <= w && y >= y0 && y <= y0 + h; if (in) { p[0] = 180 + 75 * x / a.w; p[1] = 180 + 75 * y / a.h; p[2] = 200 + ((x / 7 + y / 5) & 1) * 30; } else { p[0] = 20; p[1] = 30; p[2] = 10; } }
  return a;
}
static Img compose(const Img &a, const Corners &k, u32 ow, u32 oh, bool &usable) { // the public steps, each decided by C17
  Corners d{0, 0, ow - 1.0, 0, ow - 1.0, oh - 1.0, 0, oh - 1.0}, s = k; Matrix3x3 *m = fcv_calculate_perspective_transform(&d, &s); REQUIRE_F(m, "no matrix"); Buf in(a); u8 *p = fcv_apply_matrix_3x3(a.w, a.h, in.p, ow, oh, m); usable = !(m->m00 == 1 && m->m11 == 1 && m->m01 == 0 && m->m02 == 0 && m->m12 == 0); free(m); return take(p, ow, oh, 4, "apply_matrix"); }
static bool near_(const Img &o, const Img &e, const char *what) { // allow a level of rounding difference and positions exactly on the image border
  REQUIRE_F(o.w == e.w && o.h == e.h, "%s: size %ux%u, expected %ux%u", what, o.w, o.h, e.w, e.h); size_t bad = 0; for (size_t i = 0; i < o.n(); i++) { bool d = false; for (int k = 0; k < 4; k++) if (abs(o.d[i * 4 + k] - e.d[i * 4 + k]) > 1) d = true; if (d) { u32 x = i % o.w, y = i / o.w; bool edge = x == 0 || y == 0 || x == o.w - 1 || y == o.h - 1; if (o.w == 1 || o.h == 1) edge = false; if (!edge) FAILF("%s: pixel (%u,%u) is %u %u %u %u, expected %u %u %u %u", what, x, y, o.d[i * 4], o.d[i * 4 + 1], o.d[i * 4 + 2], o.d[i * 4 + 3], e.d[i * 4], e.d[i * 4 + 1], e.d[i * 4 + 2], e.d[i * 4 + 3]); bad++; } } (void)bad; return true; }
static void corner_pixels(const Img &a, const Corners &k, const Img &o) { // the image corners show the detected corners
  const double *e = &k.tl_x; u32 X[4] = {0, o.w - 1, o.w - 1, 0}, Y[4] = {0, 0, o.h - 1, o.h - 1}; for (int i = 0; i < 4; i++) { double sx = e[2 * i], sy = e[2 * i + 1]; if (sx < 0.01 || sy < 0.01 || sx > a.w - 1.01 || sy > a.h - 1.01) continue; i64 x0 = (i64)sx, y0 = (i64)sy; double dx = sx - x0, dy = sy - y0; if (dx < 1e-3 && x0 > 0) ; for (int ch = 0; ch < 4; ch++) { double v = a.px(x0, y0)[ch] * (1 - dx) * (1 - dy) + a.px(x0 + 1, y0)[ch] * dx * (1 - dy) + a.px(x0, y0 + 1)[ch] * (1 - dx) * dy + a.px(x0 + 1, y0 + 1)[ch] * dx * dy; REQUIRE_F(std::fabs(v - o.px(X[i], Y[i])[ch]) <= 1.2, "corner %d shows %u in channel %d, but the detected corner (%.2f,%.2f) has %.2f", i, o.px(X[i], Y[i])[ch], ch, sx, sy, v); } } }
static bool proper(const Corners &k) { const double *e = &k.tl_x; double mn = 1e300; for (int i = 0; i < 4; i++) { const double *p = e + 2 * i, *q = e + 2 * ((i + 1) % 4), *r = e + 2 * ((i + 2) % 4); double ar = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]); mn = std::min(mn, ar); } return mn > 100; }
static void sized(Case &c) {
  bool doc; Img a = gen(c, doc); u32 ow = c.pick({5, 1}) == 0 ? c.range(2, 300) : c.range(1, 3), oh = c.pick({5, 1}) == 0 ? c.range(2, 300) : c.range(1, 3); c.note(fmt("extract to %ux%u from ", ow, oh) + show(a)); Buf in(a); Corners k = fcv_detect_corners(in.p, a.w, a.h); c.note(showc(k)); u8 *p = fcv_extract_document(a.w, a.h, in.p, ow, oh); REQUIRE_F(in.same(a.d), "input modified"); Img o = take(p, ow, oh, 4, "extract_document"); bool us; Img e = compose(a, k, ow, oh, us); near_(o, e, "extraction"); c.nontrivial(us && multi_valued(a)); c.label(doc ? "document" : "arbitrary image"); if (us && proper(k) && ow > 1 && oh > 1) { corner_pixels(a, k, o); c.label("corner pixels compared"); }
}
static void automatic(Case &c) {
  bool doc = true; Img a = c.chance(1, 4) ? gen_small(c) : gen(c, doc); c.note("automatic extraction from " + show(a)); Buf in(a); Corners k = fcv_detect_corners(in.p, a.w, a.h); c.note(showc(k)); u32 ow = 77777, oh = 88888; u8 *p = fcv_extract_document_auto(a.w, a.h, in.p, &ow, &oh); REQUIRE_F(in.same(a.d), "input modified"); double t = std::hypot(k.tr_x - k.tl_x, k.tr_y - k.tl_y), b = std::hypot(k.br_x - k.bl_x, k.br_y - k.bl_y), l = std::hypot(k.bl_x - k.tl_x, k.bl_y - k.tl_y), r = std::hypot(k.br_x - k.tr_x, k.br_y - k.tr_y), ew = std::max(100.0, std::max(t, b)), eh = std::max(100.0, std::max(l, r));
  if (!(std::fabs(ow - ew) <= 0.5001 && std::fabs(oh - eh) <= 0.5001)) { free(p); FAILF("automatic size is %ux%u, the detected document measures %.3f x %.3f (at least 100)", ow, oh, ew, eh); } Img o = take(p, ow, oh, 4, "extract_document_auto"); bool us; Img e = compose(a, k, ow, oh, us); near_(o, e, "automatic extraction"); c.nontrivial(us && multi_valued(a)); c.label(doc ? "document" : "arbitrary image"); c.label(ew == 100 || eh == 100 ? "minimum size" : "natural size"); if (us && proper(k)) { corner_pixels(a, k, o); c.label("corner pixels compared"); }
  if (c.chance(1, 3)) { Img o2 = take(fcv_extract_document(a.w, a.h, in.p, ow, oh), ow, oh, 4, "extract_document"); near_(o2, o, "extraction at the automatic size"); }
}
static void rejected(Case &c) {
  Img a = gen_img(c, 4, 100); Buf in(a); int k = c.draw(6); c.note(fmt("invalid call %d on ", k) + show(a)); c.nontrivial(); c.label("invalid"); u32 w = 5, h = 6; u8 *p = nullptr; switch (k) { case 0: p = fcv_extract_document(a.w, a.h, nullptr, 5, 5); break; case 1: p = fcv_extract_document(a.w, a.h, in.p, 0, 5); break; case 2: p = fcv_extract_document(a.w, a.h, in.p, 5, 0); break; case 3: p = fcv_extract_document_auto(a.w, a.h, nullptr, &w, &h); break; case 4: p = fcv_extract_document_auto(a.w, a.h, in.p, nullptr, &h); break; default: p = fcv_extract_document_auto(a.w, a.h, in.p, &w, nullptr); } bool got = p; free(p); REQUIRE_F(!got, "invalid call accepted");
}
Property property() {
  return {"C19", "Random documents (convex quadrilaterals with position-coding colours, with and without alpha) and arbitrary images; explicit and automatic sizes. Oracle: composition of the detected corners, the transform and the sampler (each decided separately), an independent bilinear sample at the four corners, and the side-length formula. Non-trivial: a usable transform on a non-constant image.",
    {{"sized", sized, 150, 3000}, {"automatic", automatic, 180, 3000}, {"rejected", rejected, 100, 1000}}, {"pixels on the outermost ring of the output may count as inside or outside the image", "output sizes from 2x2 for the corner comparison"}};
}
