#include "img.hpp"
typedef long double LD;
struct P2 { double x, y; };
static Corners mk(const P2 q[4]) { return Corners{q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y, q[3].x, q[3].y}; }
static double area2(P2 a, P2 b, P2 c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static std::string show4(const P2 q[4]) { return fmt("[%.9g,%.9g %.9g,%.9g %.9g,%.9g %.9g,%.9g]", q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y, q[3].x, q[3].y); }
static void gen_quad(Case &c, P2 q[4]) {
  int k = c.pick({4, 4, 2}); double S = c.oneof<double>({1, 10, 100, 1000, 2000, 4000, 30000, 300000}); bool integral = c.coin(); auto R = [&](double lo, double hi) { double v = c.real(lo, hi); return integral ? std::floor(v) : v; };
  if (k == 0) { double x = c.coin() ? 0 : R(0, S / 2), y = c.coin() ? 0 : R(0, S / 2), w = R(S / 5, S), h = R(S / 5, S); q[0] = {x, y}; q[1] = {x + w, y}; q[2] = {x + w, y + h}; q[3] = {x, y + h}; }
  else if (k == 1) { for (int i = 0; i < 4; i++) { bool r = i == 1 || i == 2, b = i >= 2; q[i] = {R(r ? 0.6 * S : 0, r ? S : 0.4 * S), R(b ? 0.6 * S : 0, b ? S : 0.4 * S)}; } }
  else { double cx = c.real(-S, S), cy = c.real(-S, S), r0 = c.real(0, 6.283); for (int i = 0; i < 4; i++) { double a = r0 + 1.5708 * i + c.real(-0.4, 0.4), r = c.real(S / 4, S); q[i] = {cx + r * std::cos(a), cy + r * std::sin(a)}; } }
  if (c.chance(1, 5)) { std::swap(q[0], q[1]); std::swap(q[3], q[2]); } // mirrored
}
static bool convex(const P2 q[4]) { double ext = 0, mn = 1e300; int sg = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) ext = std::max(ext, std::hypot(q[i].x - q[j].x, q[i].y - q[j].y)); for (int i = 0; i < 4; i++) { double a = area2(q[i], q[(i + 1) % 4], q[(i + 2) % 4]); int s = a > 0 ? 1 : -1; if (i && s != sg) return false; sg = s; mn = std::min(mn, std::fabs(a)); } return mn > 0.04 * ext * ext; }
// exact-as-possible homography with h22 = 1; false if ill-conditioned
static bool ref_h(const P2 s[4], const P2 d[4], LD H[9]) {
  LD A[8][9] = {}; for (int i = 0; i < 4; i++) { LD x = s[i].x, y = s[i].y, u = d[i].x, v = d[i].y; LD r0[9] = {x, y, 1, 0, 0, 0, -x * u, -y * u, u}, r1[9] = {0, 0, 0, x, y, 1, -x * v, -y * v, v}; memcpy(A[i], r0, sizeof r0); memcpy(A[i + 4], r1, sizeof r1); }
  for (int i = 0; i < 8; i++) { int m = i; for (int k = i + 1; k < 8; k++) if (fabsl(A[k][i]) > fabsl(A[m][i])) m = k; if (fabsl(A[m][i]) < 1e-6L) return false; if (m != i) for (int j = 0; j < 9; j++) std::swap(A[m][j], A[i][j]); for (int k = i + 1; k < 8; k++) { LD f = A[k][i] / A[i][i]; for (int j = i; j < 9; j++) A[k][j] -= f * A[i][j]; } }
  for (int i = 7; i >= 0; i--) { LD v = A[i][8]; for (int j = i + 1; j < 8; j++) v -= A[i][j] * H[j]; H[i] = v / A[i][i]; if (fabsl(H[i]) > 9e5L) return false; } H[8] = 1;
  for (int i = 0; i < 4; i++) { LD w = H[6] * s[i].x + H[7] * s[i].y + 1; if (w < 0.01L || w > 100) return false; } return true; }
static P2 app(const Matrix3x3 &m, P2 p) { double w = m.m20 * p.x + m.m21 * p.y + m.m22; return {(m.m00 * p.x + m.m01 * p.y + m.m02) / w, (m.m10 * p.x + m.m11 * p.y + m.m12) / w}; }
static Matrix3x3 solve(const P2 s[4], const P2 d[4]) { Corners *a = (Corners *)malloc(sizeof(Corners)), *b = (Corners *)malloc(sizeof(Corners)); *a = mk(s); *b = mk(d); Corners a0 = *a, b0 = *b; Matrix3x3 *m = fcv_calculate_perspective_transform(a, b); bool same = !memcmp(a, &a0, sizeof a0) && !memcmp(b, &b0, sizeof b0); free(a); free(b); REQUIRE_F(m, "no matrix"); Matrix3x3 r = *m; free(m); REQUIRE_F(same, "corners modified"); return r; }
static void corners_(Case &c) {
  P2 s[4], d[4]; gen_quad(c, s); if (c.chance(1, 6)) memcpy(d, s, sizeof s); else gen_quad(c, d); if (c.chance(1, 8)) { int k = 1 + c.draw(3); std::rotate(d, d + k, d + 4); }
  c.note(show4(s) + " -> " + show4(d)); LD H[9]; if (!convex(s) || !convex(d) || !ref_h(s, d, H)) throw Discard();
  bool eq = !memcmp(s, d, sizeof s); c.label(eq ? "equal" : "different"); c.nontrivial(!eq); Matrix3x3 m = solve(s, d); double ext = 1; for (int i = 0; i < 4; i++) ext = std::max({ext, std::fabs(d[i].x), std::fabs(d[i].y)}); double tol = 1e-6 * ext + 1e-9;
  for (int i = 0; i < 4; i++) { P2 r = app(m, s[i]); REQUIRE_F(std::hypot(r.x - d[i].x, r.y - d[i].y) <= tol, "corner %d (%.9g,%.9g) is mapped to (%.9g,%.9g) instead of (%.9g,%.9g)", i, s[i].x, s[i].y, r.x, r.y, d[i].x, d[i].y); }
  for (int k = 0; k < 3; k++) { double a = c.real(0, 1), b = c.real(0, 1); P2 t = {s[0].x + a * (s[1].x - s[0].x), s[0].y + a * (s[1].y - s[0].y)}, u = {s[3].x + a * (s[2].x - s[3].x), s[3].y + a * (s[2].y - s[3].y)}, p = {t.x + b * (u.x - t.x), t.y + b * (u.y - t.y)}, r = app(m, p); LD w = H[6] * p.x + H[7] * p.y + 1; P2 e = {(double)((H[0] * p.x + H[1] * p.y + H[2]) / w), (double)((H[3] * p.x + H[4] * p.y + H[5]) / w)}; if (eq) e = p; REQUIRE_F(std::hypot(r.x - e.x, r.y - e.y) <= tol * 10, "inner point (%.9g,%.9g) is mapped to (%.9g,%.9g) instead of (%.9g,%.9g)", p.x, p.y, r.x, r.y, e.x, e.y); }
}
static bool is_id(const Matrix3x3 &m) { return m.m00 == 1 && m.m11 == 1 && m.m22 == 1 && m.m01 == 0 && m.m02 == 0 && m.m10 == 0 && m.m12 == 0 && m.m20 == 0 && m.m21 == 0; }
static void degenerate(Case &c) {
  P2 s[4], d[4]; gen_quad(c, s); gen_quad(c, d); int k = c.pick({2, 2, 2, 2, 1, 1}); P2 *t = c.coin() ? s : d; bool must_id = false; c.nontrivial();
  if (k == 0) { (&t[0].x)[c.draw(8)] = c.oneof<double>({NAN, INFINITY, -INFINITY}); must_id = true; c.label("non-finite"); }
  else if (k == 1) { int i = c.draw(4), j = (i + 1 + c.draw(3)) % 4; t[i] = t[j]; c.label("coinciding corners"); }
  else if (k == 2) { int i = c.draw(4); double f = c.oneof<double>({0.5, 0.25, 2, 0.75}); P2 a = t[(i + 1) % 4], b = t[(i + 2) % 4]; t[i] = {a.x + f * (b.x - a.x), a.y + f * (b.y - a.y)}; c.label("collinear corners"); }
  else if (k == 3) { for (int i = 0; i < 4; i++) t[i] = t[0]; if (t == s) must_id = true; c.label("one point"); }
  else if (k == 4) { for (int i = 0; i < 8; i++) (&t[0].x)[i] = c.oneof<double>({0, 1e308, -1e308, 1e-308, 1e200, 5e-324, -1}); c.label("extreme"); }
  else { Corners q = mk(s); int w = c.draw(3); Corners *a = (Corners *)malloc(sizeof q); *a = q; Matrix3x3 *m = fcv_calculate_perspective_transform(w == 0 ? nullptr : a, w == 1 ? nullptr : w == 0 ? a : nullptr); free(a); c.label("missing"); c.note("missing corners"); REQUIRE_F(m, "no matrix"); Matrix3x3 r = *m; free(m); REQUIRE_F(is_id(r), "missing corners do not give the identity"); return; }
  c.note(show4(s) + " -> " + show4(d)); Matrix3x3 m = solve(s, d); const double *e = &m.m00; for (int i = 0; i < 9; i++) REQUIRE_F(std::isfinite(e[i]) && std::fabs(e[i]) <= 1.1e6, "matrix entry %d is %g", i, e[i]); REQUIRE_F(m.m22 == 1, "m22 is %g", m.m22); if (must_id) REQUIRE_F(is_id(m), "%s input does not give the identity", k == 0 ? "non-finite" : "single-point");
}
static Matrix3x3 gen_mat(Case &c, const Img &a, u32 ow, u32 oh, bool &exact, std::string &kind) {
  exact = false; Matrix3x3 m{1, 0, 0, 0, 1, 0, 0, 0, 1};
  switch (c.pick({2, 3, 2, 2, 3, 3, 4, 1, 2, 2})) {
    case 0: exact = true; kind = "identity"; break;
    case 1: exact = true; m.m02 = c.range(-20, 20); m.m12 = c.range(-20, 20); kind = "translation"; break;
    case 2: exact = true; m.m00 = m.m11 = -1; kind = "half turn"; break;
    case 3: exact = true; if (c.coin()) { m.m00 = -1; m.m02 = a.w - 1; } else { m.m11 = -1; m.m12 = a.h - 1; } kind = "mirror"; break;
    case 4: m.m00 = c.real(0.05, 4); m.m11 = c.real(0.05, 4); if (c.coin()) { m.m00 = c.oneof<double>({2, 3, 0.5, 0.25}); m.m11 = m.m00; } m.m02 = c.coin() ? 0 : c.real(-9, 9); m.m12 = c.coin() ? 0 : c.real(-9, 9); kind = "scaling"; break;
    case 5: { double t = c.real(-3.2, 3.2), z = c.real(0.2, 3); m = {z * std::cos(t), -z * std::sin(t), c.real(-20, 60), z * std::sin(t), z * std::cos(t), c.real(-20, 60), 0, 0, c.oneof<double>({1, 2, -1, 0.5})}; kind = "rotation"; break; }
    case 6: { P2 s[4] = {{0, 0}, {ow - 1.0, 0}, {ow - 1.0, oh - 1.0}, {0, oh - 1.0}}, d[4]; for (int i = 0; i < 4; i++) { bool r = i == 1 || i == 2, b = i >= 2; d[i] = {c.real(r ? 0.55 : -0.1, r ? 1.1 : 0.45) * a.w, c.real(b ? 0.55 : -0.1, b ? 1.1 : 0.45) * a.h}; } LD H[9]; if (!ref_h(s, d, H)) { kind = "perspective (singular)"; break; } double *e = &m.m00; for (int i = 0; i < 9; i++) e[i] = (double)H[i]; kind = "perspective"; break; }
    case 8: exact = true; m.m00 = c.chance(1, 6) ? 1 : -1; m.m11 = c.chance(1, 6) ? 1 : -1; m.m02 = c.oneof<double>({0, 1, 2, a.w - 1.0, a.w / 2 + 0.0}); m.m12 = c.oneof<double>({0, 1, 2, a.h - 1.0, a.h / 2 + 0.0}); if (c.chance(1, 3)) { exact = false; (c.coin() ? m.m02 : m.m12) = c.oneof<double>({0.5, 0.25, -0.5, 0.75, 1e-3}); } kind = "half turn with offset"; break;
    case 9: m.m00 = m.m11 = -1; if (c.chance(1, 3)) { exact = true; m.m22 = -1; } else (&m.m00)[c.oneof<int>({1, 3, 6, 7, 8})] = c.oneof<double>({-1, 1, -0.125, 0.25, 2, -0.03125, -2}); kind = "almost a half turn"; break;
    default: { double *e = &m.m00; for (int i = 0; i < 9; i++) e[i] = c.pick({2, 1}) == 0 ? c.real(-2, 2) : 0; kind = "random"; }
  }
  return m;
}
static Img apply(const Img &a, u32 ow, u32 oh, const Matrix3x3 &m, int times = 1) {
  Buf in(a); Matrix3x3 *t = (Matrix3x3 *)malloc(sizeof m); *t = m; Img o; for (int k = 0; k < times; k++) { u8 *p = fcv_apply_matrix_3x3(a.w, a.h, in.p, ow, oh, t); bool same = !memcmp(t, &m, sizeof m), si = in.same(a.d); if (!same || !si) { free(t); free(p); FAILF(same ? "input modified" : "matrix modified"); } Img q; try { q = take(p, ow, oh, 4, "apply_matrix"); } catch (...) { free(t); throw; } if (k && !(q == o)) { free(t); FAILF("repeated use of one matrix gives another result"); } o = q; } free(t); return o; }
static void sampling(Case &c) {
  Img a = gen_img(c, 4, 3000, c.coin()); u32 ow, oh; if (c.coin()) { ow = a.w; oh = a.h; } else gen_size(c, ow, oh, 3000); bool exact; std::string kind; Matrix3x3 m = gen_mat(c, a, ow, oh, exact, kind); c.label(kind); const double *e = &m.m00; c.note(fmt("%s [%.9g %.9g %.9g; %.9g %.9g %.9g; %.9g %.9g %.9g] to %ux%u of ", kind.c_str(), e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], ow, oh) + show(a));
  Img o = apply(a, ow, oh, m, c.chance(1, 4) ? 2 : 1); Matrix3x3 q = m; if (m.m00 == -1 && m.m11 == -1 && m.m02 == 0 && m.m12 == 0 && m.m01 == 0 && m.m10 == 0 && m.m20 == 0 && m.m21 == 0 && m.m22 == 1) { q.m02 = a.w - 1.0; q.m12 = a.h - 1.0; }
  size_t inside = 0, skipped = 0;
  for (u32 y = 0; y < oh; y++) for (u32 x = 0; x < ow; x++) {
    LD w = (LD)q.m20 * x + (LD)q.m21 * y + q.m22, mag = fabsl((LD)q.m20 * x) + fabsl((LD)q.m21 * y) + fabsl((LD)q.m22); if (fabsl(w) < 2e-10L && fabsl(w) > 0.5e-10L) continue; const u8 *g = o.px(x, y);
    if (fabsl(w) <= 0.5e-10L) { if (mag > 1 && w != 0) continue; REQUIRE_F(!g[0] && !g[1] && !g[2] && !g[3], "output (%u,%u) lies at infinity but is not empty", x, y); continue; }
    if (fabsl(w) < 1e-6L * mag) { skipped++; continue; }
    LD nx = (LD)q.m00 * x + (LD)q.m01 * y + q.m02, ny = (LD)q.m10 * x + (LD)q.m11 * y + q.m12, sx = nx / w, sy = ny / w; LD tol = exact ? 0 : 1e-8L;
    auto near = [&](LD v) { return fabsl(v) <= tol * 100 || 0; }; bool border = !exact && (near(sx) || near(sy) || near(sx - a.w) || near(sy - a.h)); bool in = sx >= 0 && sx < a.w && sy >= 0 && sy < a.h; if (fabsl(sx) > 1e9L || fabsl(sy) > 1e9L) in = border = false;
    bool empty = !g[0] && !g[1] && !g[2] && !g[3]; if (border) { skipped++; if (empty) continue; if (sx < 0) sx = 0; if (sy < 0) sy = 0; if (sx >= a.w) sx = a.w - 1e-9L; if (sy >= a.h) sy = a.h - 1e-9L; in = true; }
    if (!in) { REQUIRE_F(empty, "output (%u,%u) maps to (%.6Lf,%.6Lf) outside the image but is %u %u %u %u", x, y, sx, sy, g[0], g[1], g[2], g[3]); continue; }
    inside++; i64 x0 = (i64)floorl(sx), y0 = (i64)floorl(sy); LD dx = sx - x0, dy = sy - y0; i64 x1 = x0 + 1, y1 = y0 + 1; if (x1 >= a.w) { x1 = x0; dx = 0; } if (y1 >= a.h) { y1 = y0; dy = 0; }
    for (int k = 0; k < 4; k++) { LD v = a.px(x0, y0)[k] * (1 - dx) * (1 - dy) + a.px(x1, y0)[k] * dx * (1 - dy) + a.px(x0, y1)[k] * (1 - dx) * dy + a.px(x1, y1)[k] * dx * dy; REQUIRE_F(fabsl(v - g[k]) <= (exact ? 0 : 0.75L), "output (%u,%u) channel %d is %u, expected %.4Lf sampled at (%.6Lf,%.6Lf)", x, y, k, g[k], v, sx, sy); } }
  c.nontrivial(inside > 1 && multi_valued(a));
}
// flipping twice, translating there and back
static void laws(Case &c) {
  Img a = gen_img(c, 4, 3000, c.coin()); c.note(show(a)); c.nontrivial(multi_valued(a)); Matrix3x3 h{-1, 0, 0, 0, -1, 0, 0, 0, 1}; Img f = apply(a, a.w, a.h, h); cmp_img(f, R_rot180(a), "half turn"); cmp_img(apply(f, a.w, a.h, h), a, "two half turns"); u32 px = c.range(0, 9), py = c.range(0, 9); Matrix3x3 t{1, 0, -(double)px, 0, 1, -(double)py, 0, 0, 1}, b{1, 0, (double)px, 0, 1, (double)py, 0, 0, 1}; Img s = apply(a, a.w + px, a.h + py, t); cmp_img(apply(s, a.w, a.h, b), a, "translated there and back");
  double k = c.oneof<double>({2, -1, 0.5, 1024, 0.0078125}); Matrix3x3 z{k, 0, 3 * k, 0, k, 2 * k, 0, 0, k}; if (k == -1) z.m02 = -3, z.m12 = -2; Matrix3x3 z1{1, 0, 3, 0, 1, 2, 0, 0, 1}; cmp_img(apply(a, a.w, a.h, z), apply(a, a.w, a.h, z1), "matrix multiplied by a constant");
}
static void wild(Case &c) {
  Img a = gen_img(c, 4, 200); Matrix3x3 m; double *e = &m.m00; for (int i = 0; i < 9; i++) e[i] = c.oneof<double>({0, 1, -1, NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e18, -1e18, 2147483647.0, 2147483648.0, 1e-300, 1e-11, 3.5}); u32 ow = c.range(1, 12), oh = c.range(1, 12); c.note(fmt("[%g %g %g; %g %g %g; %g %g %g] to %ux%u of ", e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], ow, oh) + show(a)); c.nontrivial(); c.label("wild matrix"); Buf in(a); Matrix3x3 m0 = m; u8 *p = fcv_apply_matrix_3x3(a.w, a.h, in.p, ow, oh, &m); REQUIRE_F(!memcmp(&m, &m0, sizeof m), "matrix modified"); REQUIRE_F(in.same(a.d), "input modified"); Img o = take(p, ow, oh, 4, "apply_matrix");
  i32 bad[6] = {(i32)a.w, (i32)a.h, (i32)ow, (i32)oh, 0, 0}; int w = c.draw(6); if (w < 4) bad[w] = c.oneof<i32>({0, -1, INT32_MIN}); u8 *n = fcv_apply_matrix_3x3(bad[0], bad[1], w == 4 ? nullptr : in.p, bad[2], bad[3], w == 5 ? nullptr : &m); bool got = n; free(n); REQUIRE_F(!got, "invalid argument %d accepted", w);
}
Property property() {
  return {"C17", "Random convex quadrilateral pairs (rectangles, general, rotated, mirrored; filtered to well-conditioned ones by a long-double solve) must be mapped corner to corner and agree with the reference homography inside; degenerate and non-finite corners; matrices of all kinds applied to random images against a long-double bilinear reference (exact for integral maps). Non-trivial: different quadrilaterals / several output pixels inside a non-constant image.",
    {{"corners", corners_, 100000, 1500000}, {"degenerate", degenerate, 40000, 400000}, {"sampling", sampling, 12000, 150000}, {"laws", laws, 3000, 40000}, {"wild", wild, 10000, 100000}}, {"positions within 1e-6 px of the image border may count as inside or outside", "ill-conditioned quadrilateral pairs are discarded"}};
}
