#include "cli.hpp"
struct P2 { double x, y; };
static std::string showc(const Corners &k) { return fmt("(%.2f,%.2f) (%.2f,%.2f) (%.2f,%.2f) (%.2f,%.2f)", k.tl_x, k.tl_y, k.tr_x, k.tr_y, k.br_x, k.br_y, k.bl_x, k.bl_y); }
static Corners detect(const Img &a) { Buf in(a); Corners k = fcv_detect_corners(in.p, a.w, a.h); REQUIRE_F(in.same(a.d), "input modified"); return k; }
static void sane(const Corners &k, const Img &a) { const double *e = &k.tl_x; for (int i = 0; i < 8; i++) { REQUIRE_F(std::isfinite(e[i]), "coordinate %d is %g: %s", i, e[i], showc(k).c_str()); REQUIRE_F(e[i] >= 0 && e[i] <= ((i & 1) ? a.h : a.w), "corner outside the %ux%u image: %s", a.w, a.h, showc(k).c_str()); } }
static bool whole(const Corners &k, const Img &a) { return k.tl_x == 0 && k.tl_y == 0 && k.tr_x == a.w - 1.0 && k.tr_y == 0 && k.br_x == a.w - 1.0 && k.br_y == a.h - 1.0 && k.bl_x == 0 && k.bl_y == a.h - 1.0; }
static double dist(P2 a, P2 b) { return std::hypot(a.x - b.x, a.y - b.y); }
static void arbitrary(Case &c) {
  Img a; int k = c.pick({4, 2, 2, 2}); if (k == 0) a = gen_img(c, 4, 60000, c.coin()); else {
    u32 w = c.range(1, 400), h = c.range(1, 400); a.w = w; a.h = h; a.d.assign(a.n() * 4, 255); Rng r(c.draw(1 << 30)); u8 bg = gen_byte(c); for (size_t i = 0; i < a.n(); i++) a.d[i * 4] = a.d[i * 4 + 1] = a.d[i * 4 + 2] = bg;
    int n = k == 1 ? 1 : k == 2 ? 2 + r.below(4) : 30 + r.below(60); for (int s = 0; s < n; s++) { double cx = n == 1 ? w / 2.0 : r.below(w), cy = n == 1 ? h / 2.0 : r.below(h), rx = 1 + r.below(n > 20 ? w / 10 + 1 : w / 2 + 1), ry = 1 + r.below(n > 20 ? h / 10 + 1 : h / 2 + 1); bool ell = r.below(2); u8 v = r.next(); for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { double dx = (x - cx) / rx, dy = (y - cy) / ry; if (ell ? dx * dx + dy * dy <= 1 : std::fabs(dx) + (n & 1 ? std::fabs(dy) : 0) <= 1 && std::fabs(dy) <= 1) for (int q = 0; q < 3; q++) a.px(x, y)[q] = v; } }
  }
  c.note(show(a)); Corners d = detect(a); c.note(showc(d)); sane(d, a); bool wh = whole(d, a); c.label(wh ? "fallback to the whole image" : "four corners"); c.nontrivial(multi_valued(a));
  if (!wh && a.w >= 64 && a.h >= 64) { P2 q[4] = {{d.tl_x, d.tl_y}, {d.tr_x, d.tr_y}, {d.br_x, d.br_y}, {d.bl_x, d.bl_y}}; for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) REQUIRE_F(dist(q[i], q[j]) > 0, "two corners coincide: %s", showc(d).c_str()); }
  if (c.chance(1, 4)) { Buf in(a); Corners *p = fcv_detect_corners_ptr(in.p, a.w, a.h); REQUIRE_F(p, "no result"); Corners e = *p; free(p); REQUIRE_F(!memcmp(&e, &d, sizeof d), "heap variant returns %s instead of %s", showc(e).c_str(), showc(d).c_str()); }
}
// a bright document on dark ground
struct Doc { u32 w, h; u8 bg[3], fg[3]; P2 q[4]; int noise; u64 seed; };
static Img paint(const Doc &d) {
  Img a; a.w = d.w; a.h = d.h; a.d.assign(a.n() * 4, 255); Rng r(d.seed);
  for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { bool in = true; for (int i = 0; i < 4; i++) { P2 s = d.q[i], t = d.q[(i + 1) % 4]; if ((t.x - s.x) * (y - s.y) - (t.y - s.y) * (x - s.x) < 0) in = false; } for (int k = 0; k < 3; k++) { int v = in ? d.fg[k] : d.bg[k]; if (d.noise) v += (int)r.below(2 * d.noise + 1) - d.noise; a.px(x, y)[k] = v < 0 ? 0 : v > 255 ? 255 : v; } }
  return a;
}
static Doc gen_doc(Case &c, u32 maxside) {
  Doc d; d.w = c.range(100, maxside); d.h = c.range(100, maxside); int bl = c.draw(70); for (int i = 0; i < 3; i++) { d.bg[i] = bl + c.draw(25); d.fg[i] = 170 + c.draw(86); }
  for (int i = 0; i < 4; i++) { bool r = i == 1 || i == 2, b = i >= 2; double u = c.real(0.1, 0.28), v = c.real(0.1, 0.28); d.q[i] = {(r ? 1 - u : u) * (d.w - 1), (b ? 1 - v : v) * (d.h - 1)}; }
  d.noise = c.pick({3, 1}) ? 1 + c.draw(6) : 0; d.seed = c.draw(1 << 20); P2 *q = d.q;
  c.note(fmt("document [%.1f,%.1f %.1f,%.1f %.1f,%.1f %.1f,%.1f] (%u %u %u on %u %u %u, noise %d) in %ux%u", q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y, q[3].x, q[3].y, d.fg[0], d.fg[1], d.fg[2], d.bg[0], d.bg[1], d.bg[2], d.noise, d.w, d.h)); return d;
}
static double error(const Doc &d, Corners *out = nullptr) { Img a = paint(d); Corners k = detect(a); if (out) *out = k; sane(k, a); const double *e = &k.tl_x; double worst = 0; for (int i = 0; i < 4; i++) worst = std::max({worst, std::fabs(e[2 * i] - d.q[i].x) / a.w, std::fabs(e[2 * i + 1] - d.q[i].y) / a.h}); return worst; }
// The detector is a heuristic: about 1 of 12000 documents is missed because of an unlucky pixel step in an edge.
// A miss is therefore only reported when it is no such accident, i.e. slightly moved documents are missed as well.
static void docs(Case &c) {
  Doc d = gen_doc(c, 500); Corners k; double e = error(d, &k); c.note(showc(k)); c.nontrivial(); c.label(fmt("error %d%%", (int)std::ceil(e * 100))); if (e <= 0.04) return;
  int missed = 0; Rng r(d.seed + 77); for (int t = 0; t < 3; t++) { Doc n = d; n.noise = 0; for (int i = 0; i < 4; i++) { n.q[i].x += ((int)r.below(41) - 20) * 0.001 * d.w; n.q[i].y += ((int)r.below(41) - 20) * 0.001 * d.h; } missed += error(n) > 0.04; }
  c.label("isolated miss"); REQUIRE_F(missed < 2, "detected %s is %.1f%% off (as for %d of 3 slightly moved documents)", showc(k).c_str(), e * 100, missed);
}
// the corners must follow a mirrored document
static void mirrored(Case &c) {
  Doc D = gen_doc(c, 300); Img a = paint(D); int k = c.draw(3); Img b = k == 0 ? R_flipx(a) : k == 1 ? R_flipy(a) : R_rot180(a); Corners d = detect(a), e = detect(b); sane(d, a); sane(e, b); c.nontrivial(); auto X = [&](double x) { return k != 1 ? a.w - 1 - x : x; }; auto Y = [&](double y) { return k != 0 ? a.h - 1 - y : y; };
  if (error(D) > 0.04) { c.label("isolated miss"); return; } // decided by docs
  P2 f[4] = {{X(e.tl_x), Y(e.tl_y)}, {X(e.tr_x), Y(e.tr_y)}, {X(e.br_x), Y(e.br_y)}, {X(e.bl_x), Y(e.bl_y)}}; int map[3][4] = {{1, 0, 3, 2}, {3, 2, 1, 0}, {2, 3, 0, 1}}; const double *p = &d.tl_x; int off = 0; for (int i = 0; i < 4; i++) { P2 g = f[map[k][i]]; if (!(std::fabs(g.x - p[2 * i]) <= 0.05 * a.w && std::fabs(g.y - p[2 * i + 1]) <= 0.05 * a.h)) off++; } c.label("mirrored");
  if (off) { int missed = 0; Rng r(D.seed + 5); for (int t = 0; t < 3; t++) { Doc n = D; n.noise = 0; for (int i = 0; i < 4; i++) { n.q[i].x += ((int)r.below(41) - 20) * 0.001 * D.w; n.q[i].y += ((int)r.below(41) - 20) * 0.001 * D.h; } Doc m = n; for (int i = 0; i < 4; i++) { m.q[i] = n.q[map[k][i]]; if (k != 1) m.q[i].x = D.w - 1 - m.q[i].x; if (k != 0) m.q[i].y = D.h - 1 - m.q[i].y; } missed += error(m) > 0.05; } REQUIRE_F(missed < 2, "the mirrored document is detected elsewhere: %s vs %s", showc(d).c_str(), showc(e).c_str()); c.label("isolated miss"); }
}
// The documented chain of steps (each step is decided by its own property) with an independent selection of the corners.
static void chain(Case &c) {
  Img a; int kind = c.pick({2, 4, 2, 4, 4}); if (kind == 2) a = gen_img(c, 4, 40000, c.coin()); else { // shapes with more than four corners: stars, polygons, overlapping boxes
    a.w = c.range(20, 350); a.h = c.range(20, 350); a.d.assign(a.n() * 4, 255); Rng r(c.draw(1 << 30)); std::vector<P2> v; int n = kind == 0 ? 4 : (int)c.range(3, 12); double cx = a.w / 2.0, cy = a.h / 2.0, t0 = c.real(0, 6.28); bool star = c.coin(); for (int i = 0; i < n; i++) { double t = t0 + 6.2831853 * (i + (r.below(100) / 100.0 - 0.5) * 0.5) / n, f = (star ? 0.15 + r.below(100) * 0.0033 : 0.3 + r.below(100) * 0.0015); v.push_back({cx + f * a.w * cos(t), cy + f * a.h * sin(t)}); } if (kind == 3) { // a document (or triangle) that touches or leaves the image, or is small
      v.clear(); n = c.chance(1, 3) ? 3 : 4; double z = c.coin() ? 1 : c.real(0.2, 1); int out = c.draw(16); for (int i = 0; i < n; i++) { bool rt = i == 1 || i == 2, bt = i >= 2; double lo = out >> i & 1 ? -0.15 : 0.05, u = lo + r.below(1000) * 0.00022, w = lo + r.below(1000) * 0.00022; if (n == 3 && i == 2) u = 0.2 + r.below(600) * 0.001; v.push_back({cx + z * a.w * ((rt ? 1 - u : u) - 0.5), cy + z * a.h * ((bt ? 1 - w : w) - 0.5)}); } }
    if (kind == 4) { // sharp and blunt corners: rhombi, kites, darts, long triangles, boxes with cut corners
      v.clear(); double t = c.real(0, 6.2832), A = 0.45, B = c.real(0.08, 0.45), sk = c.real(-0.3, 0.3); int f = c.draw(4); std::vector<P2> u; if (f == 0) u = {{-A, 0}, {sk, -B}, {A, 0}, {sk, B}}; else if (f == 1) u = {{-A, 0}, {A, -B}, {A, B}}; else if (f == 2) { double d = c.real(0.05, 0.3); u = {{-A, -B}, {A - d, -B}, {A, -B + d}, {A, B}, {-A + d, B}, {-A, B - d}}; } else u = {{-A, 0}, {0.1, -B}, {A, -B * c.real(0, 1)}, {A, B * c.real(0, 1)}, {0.1, B}};
      for (auto &q : u) v.push_back({cx + a.w * (q.x * cos(t) - q.y * sin(t)), cy + a.h * (q.x * sin(t) + q.y * cos(t))}); n = v.size(); }
    u8 bg = r.below(100), fg = 140 + r.below(110);
    for (u32 y = 0; y < a.h; y++) for (u32 x = 0; x < a.w; x++) { bool in = false; for (int i = 0, j = n - 1; i < n; j = i++) if ((v[i].y > y) != (v[j].y > y) && x < (v[j].x - v[i].x) * (y - v[i].y) / (v[j].y - v[i].y) + v[i].x) in = !in; for (int q = 0; q < 3; q++) a.px(x, y)[q] = in ? fg : bg; } }
  c.note(show(a)); Corners k = detect(a); c.note(showc(k)); sane(k, a); u32 W = 256, H = 256, bw, bh; auto own = [](u8 *p, const char *what) { REQUIRE_F(p, "%s: no result", what); return std::shared_ptr<u8>(p, free); }; Buf in(a);
  auto g = own(fcv_grayscale(a.w, a.h, in.p), "grayscale"); auto z = own(fcv_resize(a.w, a.h, 256.0 / a.w, 256.0 / a.h, &W, &H, g.get()), "resize"); REQUIRE_F(W == 256 && H == 256, "resized to %ux%u", W, H); auto bl = own(fcv_apply_gaussian_blur(W, H, 3, z.get()), "blur"); auto el = own(fcv_sobel_edge_detection(W, H, 4, bl.get()), "sobel"); fcv_draw_disk(W, H, 1, "000000", 24, 128, 128, el.get()); auto bo = own(fcv_add_border(W, H, 1, "000000", 1, el.get(), &bw, &bh), "border"); Point2D m[2] = {{bw / 2.0, bh / 2.0}, {0, 0}}; auto ws = own(fcv_watershed_segmentation(bw, bh, bo.get(), m, 2, false), "watershed");
  auto seg = own(fcv_crop(bw, bh, 4, ws.get(), 1, 1, W, H), "crop"); std::set<u32> cols; for (u32 i = 0; i < W * H; i++) cols.insert(seg.get()[i * 4] << 16 | seg.get()[i * 4 + 1] << 8 | seg.get()[i * 4 + 2]); c.nontrivial(multi_valued(a)); if (cols.size() != 2) { c.label("no two regions"); REQUIRE_F(whole(k, a), "one region only, but the corners are %s", showc(k).c_str()); return; }
  auto bin = own(fcv_convert_to_binary(seg.get(), W, H, "FF0000", "00FF00"), "binary"), cl = own(fcv_binary_closing_disk(bin.get(), W, H, 12), "closing"), re = own(fcv_foerstner_corner(W, H, cl.get(), 1.5), "response"); std::vector<P2> P; double A = 0.4, Q = 0.2; for (;;) { CornerPeaks *pk = fcv_corner_peaks(W, H, re.get(), 16, A, Q); REQUIRE_F(pk, "no peaks"); P.clear(); for (u32 i = 0; i < pk->count; i++) P.push_back({pk->points[i].x, pk->points[i].y}); free(pk->points); free(pk); if (P.size() >= 4) break; A = std::max(A - 0.05, 0.01); Q = std::max(Q - 0.05, 0.01); if (A <= 0.01 && Q <= 0.01) break; }
  size_t n = P.size(); c.label(n < 3 ? "fewer than 3 candidates" : n == 3 ? "3 candidates" : n == 4 ? "4 candidates" : "more than 4 candidates"); if (n < 3) { REQUIRE_F(whole(k, a), "%zu candidates only, but the corners are %s", n, showc(k).c_str()); return; }
  double sx = a.w / 256.0, sy = a.h / 256.0; const double *e = &k.tl_x; P2 got[4]; for (int i = 0; i < 4; i++) got[i] = {e[2 * i] / sx, e[2 * i + 1] / sy};
  if (n == 3) { int hit = 0; for (auto &p : P) for (auto &q : got) if (dist(p, q) < 1e-6) { hit++; break; } REQUIRE_F(hit == 3, "the three candidates are not among the corners %s", showc(k).c_str()); return; }
  double cx = 0, cy = 0; for (auto &p : P) { cx += p.x / n; cy += p.y / n; } size_t tl = 0; int ties = 0; for (size_t i = 1; i < n; i++) if (P[i].x + P[i].y < P[tl].x + P[tl].y) tl = i; for (auto &p : P) ties += std::fabs(p.x + p.y - P[tl].x - P[tl].y) < 1e-9; if (ties > 1) { c.label("tie"); return; } double t0 = std::atan2(P[tl].y - cy, P[tl].x - cx); std::vector<std::pair<double, size_t>> o; for (size_t i = 0; i < n; i++) { if (dist(P[i], {cx, cy}) < 1e-6) { c.label("tie"); return; } double t = i == tl ? 0 : std::atan2(P[i].y - cy, P[i].x - cx) - t0; if (t < 0) t += 2 * M_PI; o.push_back({t, i}); } std::sort(o.begin(), o.end()); for (size_t i = 1; i < n; i++) if (o[i].first - o[i - 1].first < 1e-5) { c.label("tie"); return; } if (2 * M_PI - o[n - 1].first < 1e-5) { c.label("tie"); return; }
  std::vector<P2> S; for (auto &p : o) S.push_back(P[p.second]); std::vector<double> turn; for (size_t i = 0; i < n; i++) { P2 p = S[(i + n - 1) % n], q = S[i], r = S[(i + 1) % n]; turn.push_back(std::fabs(std::asin(std::max(-1.0, std::min(1.0, ((p.x - q.x) * (r.y - q.y) - (p.y - q.y) * (r.x - q.x)) / dist(p, q) / dist(r, q)))))); }
  std::vector<double> ts = turn; std::sort(ts.rbegin(), ts.rend()); double cut = ts[3]; int pos[4], prev = -1; for (int i = 0; i < 4; i++) { pos[i] = -1; for (size_t j = 0; j < n; j++) if (dist(S[j], got[i]) < 1e-6) pos[i] = j; REQUIRE_F(pos[i] >= 0, "corner %d of %s is no candidate", i, showc(k).c_str()); REQUIRE_F(pos[i] > prev, "the corners %s are not in clockwise order from the top left", showc(k).c_str()); prev = pos[i]; }
  for (size_t j = 0; j < n; j++) { bool in = false; for (int i = 0; i < 4; i++) in |= pos[i] == (int)j; if (n > 4 && turn[j] > cut + 1e-9) REQUIRE_F(in, "candidate (%g,%g), among the four sharpest, is missing in %s", S[j].x * sx, S[j].y * sy, showc(k).c_str()); if (n > 4 && turn[j] < cut - 1e-9) REQUIRE_F(!in, "candidate (%g,%g), not among the four sharpest, is in %s", S[j].x * sx, S[j].y * sy, showc(k).c_str()); }
}
static void command(Case &c) {
  Img a = c.coin() ? paint(gen_doc(c, 200)) : gen_img(c, 4, 20000); for (size_t i = 0; i < a.n(); i++) a.d[i * 4 + 3] = 255; c.note(show(a)); Corners d = detect(a); std::string dir = workdir(); spew(dir + "/in.png", png_encode(a)); RunRes r = cli({"in.png", "detect_corners"}); REQUIRE_F(cli_ok(r, "flatcv in.png detect_corners"), "detect_corners failed: %s", tail(r.err).c_str()); c.nontrivial(multi_valued(a)); c.label("command line");
  auto get = [&](const char *n, double &x, double &y) { size_t p = r.out.find(std::string("\"") + n + "\""); REQUIRE_F(p != std::string::npos && sscanf(r.out.c_str() + p + strlen(n) + 2, " : [ %lf , %lf ]", &x, &y) == 2, "no %s in the output: %s", n, tail(r.out).c_str()); };
  const char *n[4] = {"top_left", "top_right", "bottom_right", "bottom_left"}; const double *e = &d.tl_x; for (int i = 0; i < 4; i++) { double x, y; get(n[i], x, y); REQUIRE_F(std::fabs(x - e[2 * i]) <= 0.501 && std::fabs(y - e[2 * i + 1]) <= 0.501, "%s is printed as (%g,%g) but the library finds %s", n[i], x, y, showc(d).c_str()); }
}
static void sorting(Case &c) {
  int n = c.pick({6, 3}) == 0 ? 4 : (int)c.range(5, 14); std::vector<Point2D> p(n); int k = c.pick({4, 2, 2}); double S = c.oneof<double>({10, 256, 1000}); for (auto &q : p) q = {0, 0};
  if (k == 0) for (auto &q : p) q = {(double)c.range(0, (i64)S), (double)c.range(0, (i64)S)}; else if (k == 1) for (auto &q : p) q = {c.real(0, S), c.real(0, S)}; else { double r0 = c.real(0, 6.28), cx = c.real(0, S), cy = c.real(0, S); for (int i = 0; i < n; i++) { double t = r0 + 6.2831853 * i / n + c.real(-0.2, 0.2), r = c.real(S / 4, S); p[i] = {cx + r * cos(t), cy + r * sin(t)}; } }
  double cx = 0, cy = 0; for (auto &q : p) { cx += q.x / n; cy += q.y / n; } std::vector<double> ang; for (auto &q : p) { if (std::hypot(q.x - cx, q.y - cy) < 1e-3) throw Discard(); ang.push_back(std::atan2(q.y - cy, q.x - cx)); } std::vector<double> sa = ang; std::sort(sa.begin(), sa.end()); for (int i = 0; i < n; i++) { double g = i + 1 < n ? sa[i + 1] - sa[i] : sa[0] + 2 * M_PI - sa[i]; if (g < 1e-3) throw Discard(); }
  std::vector<double> sum; for (auto &q : p) sum.push_back(q.x + q.y); std::sort(sum.begin(), sum.end()); if (sum[1] - sum[0] < 1e-6) throw Discard();
  std::string s; for (auto &q : p) s += fmt("(%.6g,%.6g) ", q.x, q.y); u32 w = c.range(1, 2000), h = c.range(1, 2000), ow = c.coin() ? w : c.range(1, 500), oh = c.coin() ? h : c.range(1, 500); c.note(fmt("sort %sscaled %ux%u from %ux%u", s.c_str(), w, h, ow, oh)); c.nontrivial(); c.label(n == 4 ? "4 corners" : "more corners");
  auto run = [&](const std::vector<Point2D> &v, Corners &k) { std::vector<Point2D> o(v.size()); Point2D *in = (Point2D *)malloc(sizeof(Point2D) * v.size()), *out = (Point2D *)malloc(sizeof(Point2D) * v.size()); memcpy(in, v.data(), sizeof(Point2D) * v.size()); k = sort_corners(w, h, ow, oh, in, v.size(), out); bool same = !memcmp(in, v.data(), sizeof(Point2D) * v.size()); memcpy(o.data(), out, sizeof(Point2D) * v.size()); free(in); free(out); REQUIRE_F(same, "input corners modified"); return o; };
  Corners k1, k2; auto r = run(p, k1); auto key = [](const Point2D &a) { return std::make_pair(a.x, a.y); }; { std::multiset<std::pair<double, double>> A, B; for (auto &q : p) A.insert(key(q)); for (auto &q : r) B.insert(key(q)); REQUIRE_F(A == B, "the result is not a permutation of the corners"); }
  REQUIRE_F(std::fabs(r[0].x + r[0].y - sum[0]) < 1e-9 * (1 + std::fabs(sum[0])), "first corner (%g,%g) is not the top left one", r[0].x, r[0].y);
  double last = -1, a0 = std::atan2(r[0].y - cy, r[0].x - cx); for (int i = 0; i < n; i++) { double t = std::atan2(r[i].y - cy, r[i].x - cx) - a0; while (t < -1e-9) t += 2 * M_PI; if (i == 0) t = 0; REQUIRE_F(t > last, "corner %d is not clockwise after the previous one", i); last = t; }
  double sx = (double)w / ow, sy = (double)h / oh; const double *e = &k1.tl_x; for (int i = 0; i < 4; i++) REQUIRE_F(std::fabs(e[2 * i] - r[i].x * sx) <= 1e-9 * (1 + std::fabs(r[i].x * sx)) && std::fabs(e[2 * i + 1] - r[i].y * sy) <= 1e-9 * (1 + std::fabs(r[i].y * sy)), "returned corner %d is (%g,%g), expected (%g,%g) scaled by %g,%g", i, e[2 * i], e[2 * i + 1], r[i].x, r[i].y, sx, sy);
  std::vector<Point2D> z = p; for (int i = n - 1; i > 0; i--) std::swap(z[i], z[c.draw(i + 1)]); auto r2 = run(z, k2); for (int i = 0; i < n; i++) REQUIRE_F(key(r[i]) == key(r2[i]), "the order depends on the order of the input (position %d)", i);
}
// three corners of an axis-parallel rectangle are completed to the rectangle
static void three(Case &c) {
  double x = c.range(0, 200), y = c.range(0, 200), w = c.range(5, 200), h = c.range(5, 200); std::vector<Point2D> R{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}; int miss = c.draw(4); std::vector<Point2D> p; for (int i = 0; i < 4; i++) if (i != miss) p.push_back(R[i]); for (int i = 2; i > 0; i--) std::swap(p[i], p[c.draw(i + 1)]); c.note(fmt("rectangle %g,%g %gx%g without corner %d", x, y, w, h, miss)); c.nontrivial(); c.label("3 corners"); Point2D *out = (Point2D *)malloc(4 * sizeof(Point2D)); Corners k = sort_corners(300, 300, 300, 300, p.data(), 3, out); free(out); const double *e = &k.tl_x; for (int i = 0; i < 4; i++) REQUIRE_F(e[2 * i] == R[i].x && e[2 * i + 1] == R[i].y, "completed to %s", showc(k).c_str());
}
Property property() {
  return {"C18", "Arbitrary images (every content class, sizes from 1x1, shapes with few and many corners): four finite corners inside the image; random convex bright documents on dark ground, with noise, located to within 4 percent (isolated misses of the heuristic excepted: reported if slightly moved documents are missed too) and consistently under mirroring; stars, polygons and arbitrary images against the documented chain of steps with an independent choice of the four sharpest candidates; sort_corners on random points: permutation, top left first, clockwise, independent of input order; command line JSON equals the library. Non-trivial: image not constant / all sorted sets.",
    {{"arbitrary", arbitrary, 200, 4000}, {"docs", docs, 200, 4000}, {"chain", chain, 400, 4000}, {"mirrored", mirrored, 40, 800}, {"command", command, 60, 1000}, {"sorting", sorting, 100000, 1000000}, {"three", three, 20000, 100000}}, {"points with equal direction from the centroid (within 1e-3 rad) or a tie for the top left one are discarded", "document corners lie 10 to 28 percent of the side length from the image corners"}};
}
