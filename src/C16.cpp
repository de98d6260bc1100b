#include "img.hpp"
static Img gen_gray(Case &c, u64 maxpx) { u32 w, h; gen_size(c, w, h, maxpx); int k = c.pick({3, 2}); if (k == 0) return gen_content(c, w, h, 1); Img a; a.w = w; a.h = h; a.ch = 1; a.d.resize(a.n()); double sx = c.real(-9, 9), sy = c.real(-9, 9); int o = c.draw(256); double cx = c.draw(w + 1), cy = c.draw(h + 1), an = c.real(0, 6.28); bool wedge = c.coin(); for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { double v = wedge ? ((x - cx) * cos(an) + (y - cy) * sin(an) > 0 && (x - cx) * -sin(an) + (y - cy) * cos(an) > 0 ? 220 : o % 200) : o + sx * x + sy * y; a.d[(size_t)y * w + x] = v < 0 ? 0 : v > 255 ? 255 : (u8)v; } return a; }
static void response(Case &c) {
  Img g = gen_gray(c, 3000); double sigma = c.pick({3, 3, 1}) == 0 ? 1.0 : c.oneof<double>({0, 0.5, 1.34, 1.7, 2, 2.5, 3, 4, 5.5, 8, 20, 100, 4 / 3.0, 5 / 3.0, 7 / 3.0, 8 / 3.0, 1.3333, 1.6667}); if (c.chance(1, 10)) sigma = c.oneof<double>({1e3, 1e8, 7e8, 1e9, 1e12, 1e300}); c.note(fmt("foerstner sigma %g of ", sigma) + show(g)); Buf in(g); u8 *p = fcv_foerstner_corner(g.w, g.h, in.p, sigma); Img o = take(p, g.w, g.h, 2, "foerstner"); REQUIRE_F(in.same(g.d), "input modified");
  i64 W = g.w, H = g.h; std::vector<i64> gx(g.n(), 0), gy(g.n(), 0); auto at = [&](i64 x, i64 y) -> i64 { return g.d[y * W + x]; }; for (i64 y = 1; y < H - 1; y++) for (i64 x = 1; x < W - 1; x++) { gx[y * W + x] = at(x + 1, y - 1) - at(x - 1, y - 1) + 2 * (at(x + 1, y) - at(x - 1, y)) + at(x + 1, y + 1) - at(x - 1, y + 1); gy[y * W + x] = at(x - 1, y + 1) - at(x - 1, y - 1) + 2 * (at(x, y + 1) - at(x, y - 1)) + at(x + 1, y + 1) - at(x + 1, y - 1); }
  double k3 = 3 * sigma; i64 ks = k3 > 1e6 ? 1000001 : ((i64)k3 | 1); if (ks < 3) ks = 3; i64 hk = ks / 2; std::vector<double> w(g.n(), 0), q(g.n(), 0); double mw = 0, mq = 0; bool any = false;
  std::vector<i64> Ixx((W + 1) * (H + 1), 0), Ixy = Ixx, Iyy = Ixx; for (i64 y = 0; y < H; y++) for (i64 x = 0; x < W; x++) { auto acc = [&](std::vector<i64> &I, i64 v) { I[(y + 1) * (W + 1) + x + 1] = v + I[y * (W + 1) + x + 1] + I[(y + 1) * (W + 1) + x] - I[y * (W + 1) + x]; }; i64 a = gx[y * W + x], b = gy[y * W + x]; acc(Ixx, a * a); acc(Ixy, a * b); acc(Iyy, b * b); }
  for (i64 y = hk; y < H - hk; y++) for (i64 x = hk; x < W - hk; x++) { auto box = [&](std::vector<i64> &I) { return I[(y + hk + 1) * (W + 1) + x + hk + 1] - I[(y - hk) * (W + 1) + x + hk + 1] - I[(y + hk + 1) * (W + 1) + x - hk] + I[(y - hk) * (W + 1) + x - hk]; }; __int128 xx = box(Ixx), xy = box(Ixy), yy = box(Iyy); __int128 det = xx * yy - xy * xy; double tr = (double)(xx + yy); if (xx + yy == 0) continue; any = true; double D = (double)det; w[y * W + x] = D / tr; q[y * W + x] = 4 * D / (tr * tr); mw = std::max(mw, D / tr); mq = std::max(mq, 4 * D / (tr * tr)); }
  c.label(!any ? "no gradient in any window" : mw == 0 ? "edges only" : "corners"); if (any && mw == 0) return; // only rounding noise to normalise
  c.nontrivial(mw > 0); bool seen_w = false; if (mq < 1e-6) { c.label("roundness below rounding noise"); return; }
  for (size_t i = 0; i < g.n(); i++) { double ew = mw > 0 ? 255 * w[i] / mw : 0, eq = mq > 0 ? 255 * q[i] / mq : 0; REQUIRE_F(fabs(o.d[i * 2] - ew) <= 1.001, "accuracy at (%zu,%zu) is %u, expected %.3f", i % g.w, i / g.w, o.d[i * 2], ew); REQUIRE_F(fabs(o.d[i * 2 + 1] - eq) <= 1.001, "roundness at (%zu,%zu) is %u, expected %.3f", i % g.w, i / g.w, o.d[i * 2 + 1], eq); i64 x = i % W, y = i / W; if (x < hk || y < hk || x >= W - hk || y >= H - hk) REQUIRE_F(!o.d[i * 2] && !o.d[i * 2 + 1], "response where the window leaves the image, at (%lld,%lld)", (long long)x, (long long)y); if (mw > 0 && w[i] == mw && o.d[i * 2] >= 254) seen_w = true; }
  REQUIRE_F(mw == 0 || seen_w, "the strongest corner does not have full response");
}
static void check_peaks(Case &c, const Img &d, u32 md, double ta, double tr) {
  u32 w = d.w, h = d.h; Buf in(d); CornerPeaks *P = fcv_corner_peaks(w, h, in.p, md, ta, tr); REQUIRE_F(P, "no result"); REQUIRE_F(in.same(d.d), "input modified"); std::vector<Point2D> pts(P->points, P->points + P->count); free(P->points); free(P);
  auto A = [&](i64 x, i64 y) { return d.d[(y * (i64)w + x) * 2]; }; std::vector<std::pair<i64, i64>> cand; for (i64 y = 1; y + 1 < h; y++) for (i64 x = 1; x + 1 < w; x++) { if (!(d.d[(y * w + x) * 2 + 1] / 255.0 > tr && A(x, y) / 255.0 > ta) || A(x, y) == 0) continue; bool mx = true; for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) if (A(x + dx, y + dy) > A(x, y)) mx = false; if (mx) cand.emplace_back(x, y); }
  std::set<std::pair<i64, i64>> cs(cand.begin(), cand.end()), got; for (auto &p : pts) { REQUIRE_F(p.x == floor(p.x) && p.y == floor(p.y) && p.x >= 0 && p.y >= 0 && p.x < w && p.y < h, "peak (%g,%g) is not a pixel of the image", p.x, p.y); std::pair<i64, i64> q((i64)p.x, (i64)p.y); REQUIRE_F(cs.count(q), "peak (%g,%g) is no local maximum above both thresholds", p.x, p.y); REQUIRE_F(got.insert(q).second, "peak (%g,%g) is reported twice", p.x, p.y); }
  auto close = [&](const std::pair<i64, i64> &a, const std::pair<i64, i64> &b) { double dx = a.first - b.first, dy = a.second - b.second; return dx * dx + dy * dy < (double)md * md; };
  for (auto &a : got) for (auto &b : got) if (a < b) REQUIRE_F(!close(a, b), "peaks (%lld,%lld) and (%lld,%lld) are closer than %u", (long long)a.first, (long long)a.second, (long long)b.first, (long long)b.second, md);
  for (auto &a : cand) if (!got.count(a)) { bool excuse = false; for (auto &b : cand) if (a != b && close(a, b) && A(b.first, b.second) >= A(a.first, a.second)) { excuse = true; break; } REQUIRE_F(excuse, "the maximum at (%lld,%lld) is missing although no equal or stronger one is within %u", (long long)a.first, (long long)a.second, md); }
  REQUIRE_F(cand.empty() || !got.empty(), "no peak although %zu maxima qualify", cand.size()); c.nontrivial(cand.size() > 1); c.label(cand.empty() ? "no candidates" : got.size() == cand.size() ? "all kept" : "some suppressed");
}
static void peaks(Case &c) {
  u32 w, h; gen_size(c, w, h, 2500); Img d; d.w = w; d.h = h; d.ch = 2; d.d.assign(d.n() * 2, 0); Rng r(c.draw(1 << 30)); int k = c.pick({3, 3, 2, 1}); if (d.n() <= 40 && c.coin()) for (u8 &b : d.d) b = c.coin() ? gen_byte(c) : 0; else if (k == 0) for (u8 &b : d.d) b = r.below(8) ? 0 : r.next(); else if (k == 1) { int m = 1 + r.below(20); for (int i = 0; i < m; i++) { size_t p = r.below(d.n()); d.d[p * 2] = r.next(); d.d[p * 2 + 1] = r.next(); } } else if (k == 2) for (u8 &b : d.d) b = r.next(); else for (u8 &b : d.d) b = r.below(3) * 100; // plateaus
  u32 md = c.oneof<u32>({0, 1, 2, 3, 5, 10, 30, 1000, 4294967295u}); auto th = [&]() -> double { int q = c.pick({3, 3, 1}); return q == 0 ? c.oneof<double>({0.001, 0.3, 0.5}) : q == 1 ? (c.draw(256) + 0.5) / 255 : c.oneof<double>({-1, -1e300, 0, 1, 1e300, 1.5}); }; double ta = th(), tr = th();
  c.note(fmt("peaks of %ux%u, distance %u, thresholds %.6g %.6g, data %016llx", w, h, md, ta, tr, (unsigned long long)fnv(d.d.data(), d.d.size()))); check_peaks(c, d, md, ta, tr);
}
static void invalid(Case &c) { Img g = gen_gray(c, 100); Buf in(g); double s = c.oneof<double>({NAN, INFINITY, -INFINITY, -1, -1e300, -0.1}); c.note(fmt("sigma %g of ", s) + show(g)); c.nontrivial(); c.label("odd sigma"); u8 *p = fcv_foerstner_corner(g.w, g.h, in.p, s); free(p); Buf in2(std::vector<u8>(g.n() * 2, 9)); double t = c.oneof<double>({NAN, INFINITY, -INFINITY}); bool f = c.coin(); CornerPeaks *P = fcv_corner_peaks(g.w, g.h, in2.p, 3, f ? t : 0.1, f ? 0.1 : t); bool n = !P; if (P) { free(P->points); free(P); } REQUIRE_F(n, "a non-finite threshold was accepted"); }
static void strips(Case &c) { Strips s(30000); response(c); c.label("strip"); }
static void longer(Case &c) { Strips s(c.oneof<u64>({70000, 90000, 140000}) * 3); response(c); c.label("beyond 65536"); }
static void sparse(Case &c) { // few, distant maxima: large minimum distances decide between them
  bool strip = c.chance(1, 5); u32 w = strip ? c.range(60000, 140000) : c.range(40, 400), h = strip ? c.range(3, 5) : c.range(40, 400); if (strip && c.coin()) std::swap(w, h); Img d; d.w = w; d.h = h; d.ch = 2; d.d.assign(d.n() * 2, 0); int m = c.range(2, 14); u32 span = strip ? 70000 : 300; u32 md = c.coin() ? c.range(30, span) : c.oneof<u32>({255, 256, 257, 65535, 65536, 65537, 46341, 1u << 20}); std::vector<std::pair<i64, i64>> at; bool flat = c.chance(1, 4);
  for (int i = 0; i < m; i++) { i64 x = 1 + c.draw(w - 2), y = 1 + c.draw(h - 2); if (i && c.coin()) { double a = c.real(0, 6.2832), r = md + c.oneof<double>({-1, -0.5, 0, 0.5, 1, -3, 3}); x = at[c.draw(at.size())].first + (i64)llround(r * cos(a)); y = at[c.draw(at.size())].second + (i64)llround(r * sin(a)); x = std::max<i64>(1, std::min<i64>(w - 2, x)); y = std::max<i64>(1, std::min<i64>(h - 2, y)); } at.push_back({x, y}); u8 *p = d.px(x, y); p[0] = flat ? 200 : 30 + c.draw(226); p[1] = 255; }
  c.note(fmt("%d sparse maxima on %ux%u, distance %u, data %016llx", m, w, h, md, (unsigned long long)fnv(d.d.data(), d.d.size()))); c.label("sparse"); check_peaks(c, d, md, 0.05, 0.5);
}
Property property() {
  return {"C16", "Random gray images (noise, wedges, ramps, patterns; smaller and larger than the window) and sigmas: integer-exact structure tensor by summed-area tables, tolerance one level. Random response fields with plateaus, distances and thresholds: separation, threshold, maximality and completeness predicate. Non-trivial: a corner exists / at least two candidates.",
    {{"response", response, 10000, 120000}, {"peaks", peaks, 20000, 250000}, {"invalid", invalid, 3000, 20000}, {"strips", strips, 60, 1000}, {"longer", longer, 12, 300}, {"sparse", sparse, 400, 40000}}, {"responses are normalised per image; images whose exact responses are all zero although gradients exist are skipped (only rounding noise is left)", "among equally strong close maxima any one may survive"}};
}
