#include "img.hpp"
typedef std::vector<int> L;
static u32 rgb(const u8 *p) { return p[0] << 16 | p[1] << 8 | p[2]; }
static u32 g_pal[10]; static bool g_palok = false;
static Img seg(const Img &g, const std::vector<Point2D> &m, bool bd) { Buf in(g); Point2D *mm = (Point2D *)malloc(m.size() * sizeof(Point2D)); memcpy(mm, m.data(), m.size() * sizeof(Point2D)); u8 *p = fcv_watershed_segmentation(g.w, g.h, in.p, mm, m.size(), bd); bool same = !memcmp(mm, m.data(), m.size() * sizeof(Point2D)); free(mm); Img o = take(p, g.w, g.h, 4, "watershed"); REQUIRE_F(in.same(g.d) && same, "input modified"); for (size_t i = 3; i < o.d.size(); i += 4) REQUIRE_F(o.d[i] == 255, "result is not opaque"); return o; }
static void palette() { if (g_palok) return; Img g; g.w = 10; g.h = 1; g.ch = 1; g.d.assign(10, 0); std::vector<Point2D> m; for (int i = 0; i < 10; i++) m.push_back({(double)i, 0}); Img o = seg(g, m, false); for (int i = 0; i < 10; i++) { g_pal[i] = rgb(&o.d[i * 4]); REQUIRE_F(g_pal[i] != 0, "basin %d is black like a boundary", i); for (int j = 0; j < i; j++) REQUIRE_F(g_pal[i] != g_pal[j], "basins %d and %d share a colour", i, j); } g_palok = true; }
static Img gen_gray(Case &c, u64 maxpx) {
  u32 w, h; gen_size(c, w, h, maxpx); if (c.chance(2, 3)) return gen_content(c, w, h, 1); Img a; a.w = w; a.h = h; a.ch = 1; a.d.resize(a.n()); Rng r(c.draw(1 << 30)); int k = c.draw(3); int lev = c.oneof<int>({2, 3, 5, 255});
  if (k == 0) for (u8 &b : a.d) b = r.below(lev) * 255 / (lev - 1 ? lev - 1 : 1); // few plateaus
  else if (k == 1) for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) a.d[(size_t)y * w + x] = (x % 5 == 2 || y % 4 == 2) && r.below(10) ? 255 : r.below(30); // walls with holes
  else { double fx = r.below(60) / 100.0, fy = r.below(60) / 100.0; for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) a.d[(size_t)y * w + x] = 127 + 60 * sin(fx * x) + 60 * sin(fy * y); }
  return a;
}
static int markers(Case &c, const Img &g, std::vector<Point2D> &m, std::vector<int> &at, bool dup) {
  int n = c.pick({4, 4, 2, 1}); n = n == 0 ? c.range(1, 2) : n == 1 ? c.range(2, 5) : n == 2 ? c.range(5, 10) : c.range(10, 30); at.assign(g.n(), -1); for (int i = 0; i < n; i++) { u32 x = c.draw(g.w), y = c.draw(g.h); if (dup && i && c.chance(1, 3)) { x = (u32)m[0].x; y = (u32)m[0].y; } if (!dup && at[(size_t)y * g.w + x] >= 0) continue; at[(size_t)y * g.w + x] = m.size(); double fx = c.chance(1, 4) ? c.real(0, 0.999) : 0, fy = c.chance(1, 4) ? c.real(0, 0.999) : 0; m.push_back({x + fx, y + fy}); }
  return m.size();
}
static const int DX[] = {-1, 1, 0, 0}, DY[] = {0, 0, -1, 1};
static void prep(Case &c, Img &g, std::vector<Point2D> &m, L &at, const char *what, bool dup) { palette(); g = gen_gray(c, 1500); markers(c, g, m, at, dup); std::string ms; for (size_t i = 0; i < m.size() && i < 12; i++) ms += fmt(" (%.3g,%.3g)", m[i].x, m[i].y); c.note(fmt("%s, %zu markers%s on ", what, m.size(), ms.c_str()) + show(g)); c.nontrivial(m.size() > 1 && g.n() > m.size()); c.label(m.size() == 1 ? "one marker" : m.size() <= 10 ? "2-10 markers" : "more than 10 markers"); }
static int cls(int l) { return l < 9 ? l : 9; }
// Without boundaries: every pixel takes the label of a neighbour flooded before it; the flooding time does not depend on labels.
static void flood(Case &c) {
  Img g; std::vector<Point2D> m; L at; bool dup = c.chance(1, 5); prep(c, g, m, at, "watershed", dup); Img o = seg(g, m, false); size_t n = g.n(); std::vector<int> cl(n); for (size_t i = 0; i < n; i++) { u32 v = rgb(&o.d[i * 4]); int q = -1; for (int j = 0; j < 10; j++) if (g_pal[j] == v) q = j; REQUIRE_F(q >= 0, "pixel (%zu,%zu) has colour %06x, not that of a basin", i % g.w, i / g.w, v); cl[i] = q; }
  for (size_t i = 0; i < n; i++) if (at[i] >= 0) REQUIRE_F(cl[i] == cls(at[i]), "marker %d's own pixel belongs to basin %d", at[i], cl[i]);
  std::vector<int> t(n, -1); for (size_t i = 0; i < n; i++) if (at[i] >= 0) t[i] = 0; int now = 1; std::vector<int> lv(n, -1); // flooding time
  for (int lev = 0; lev < 256; lev++) for (;;) { std::vector<size_t> add; for (size_t i = 0; i < n; i++) if (t[i] < 0 && g.d[i] <= lev) { i64 x = i % g.w, y = i / g.w; for (int d = 0; d < 4; d++) { i64 u = x + DX[d], v = y + DY[d]; if (u >= 0 && v >= 0 && u < g.w && v < g.h && t[v * g.w + u] >= 0) { add.push_back(i); break; } } } if (add.empty()) break; for (size_t i : add) { t[i] = now; lv[i] = lev; } now++; }
  for (size_t i = 0; i < n; i++) if (at[i] < 0) { i64 x = i % g.w, y = i / g.w; bool ok = false; for (int d = 0; d < 4; d++) { i64 u = x + DX[d], v = y + DY[d]; if (u >= 0 && v >= 0 && u < g.w && v < g.h && t[v * g.w + u] < t[i] && cl[v * g.w + u] == cl[i]) ok = true; } REQUIRE_F(ok, "pixel (%lld,%lld) has basin %d, but no neighbour flooded earlier belongs to it", (long long)x, (long long)y, cl[i]); }
  // lowest-pass rule, independently: minimax height from every marker
  if (m.size() <= 9 && n <= 400) for (size_t i = 0; i < n; i++) {} 
  if (m.size() <= 9 && n <= 600) { std::vector<std::vector<int>> mm; for (size_t k = 0; k < m.size(); k++) { std::vector<int> d(n, 1000); size_t s = (size_t)m[k].y * g.w + (size_t)m[k].x; if (at[s] != (int)k) { mm.push_back(d); continue; } d[s] = -1; std::set<std::pair<int, size_t>> q{{-1, s}}; while (!q.empty()) { auto [dv, i] = *q.begin(); q.erase(q.begin()); i64 x = i % g.w, y = i / g.w; for (int e = 0; e < 4; e++) { i64 u = x + DX[e], v = y + DY[e]; if (u < 0 || v < 0 || u >= g.w || v >= g.h) continue; size_t j = v * g.w + u; int nd = std::max<int>(dv, g.d[j]); if (nd < d[j]) { q.erase({d[j], j}); d[j] = nd; q.insert({nd, j}); } } } mm.push_back(d); }
    for (size_t i = 0; i < n; i++) if (at[i] < 0) { int best = 1000; for (auto &d : mm) best = std::min(best, d[i]); REQUIRE_F(mm[cl[i]][i] == best, "pixel (%zu,%zu) is in basin %d (pass height %d), but another marker reaches it over %d", i % g.w, i / g.w, cl[i], mm[cl[i]][i], best); } c.label("lowest-pass oracle"); }
}
// With boundaries the result is fully determined: grow simultaneously, never label a pixel between different basins.
static void boundary(Case &c) {
  Img g; std::vector<Point2D> m; L at; prep(c, g, m, at, "watershed with boundaries", c.chance(1, 5)); Img o = seg(g, m, true); size_t n = g.n(); L l = at;
  for (int lev = 0; lev < 256; lev++) for (;;) { std::vector<std::pair<size_t, int>> add; for (size_t i = 0; i < n; i++) if (l[i] < 0 && g.d[i] <= lev) { i64 x = i % g.w, y = i / g.w; int q = -1; bool multi = false; for (int d = 0; d < 4; d++) { i64 u = x + DX[d], v = y + DY[d]; if (u >= 0 && v >= 0 && u < g.w && v < g.h && l[v * g.w + u] >= 0) { int w = l[v * g.w + u]; if (q < 0) q = w; else if (q != w) multi = true; } } if (q >= 0 && !multi) add.emplace_back(i, q); } if (add.empty()) break; for (auto &p : add) l[p.first] = p.second; }
  bool any = false; for (size_t i = 0; i < n; i++) { u32 e = l[i] < 0 ? 0 : g_pal[cls(l[i])], v = rgb(&o.d[i * 4]); any |= l[i] < 0; REQUIRE_F(v == e, "pixel (%zu,%zu) is %06x, expected %06x (basin %d)", i % g.w, i / g.w, v, e, l[i]); }
  c.label(any ? "has boundary" : "no boundary");
}
static void rejects(Case &c) { palette(); Img g = gen_gray(c, 200); std::vector<Point2D> m; L at; markers(c, g, m, at, false); size_t k = c.draw(m.size()); double bad = c.oneof<double>({NAN, INFINITY, -INFINITY, -1, -2, -1e9, 1e9, 2147483648.0, 4294967296.0, 4294967297.0, 1e18, -1e18, 1e300}); bool isx = c.coin(); if (c.chance(1, 3)) bad = isx ? g.w + (double)c.draw(3) : g.h + (double)c.draw(3); (isx ? m[k].x : m[k].y) = bad; bool bd = c.coin(); c.note(fmt("marker %zu at (%g,%g) of %zu on %ux%u", k, m[k].x, m[k].y, m.size(), g.w, g.h)); c.nontrivial(); c.label("marker outside"); Buf in(g); u8 *p = fcv_watershed_segmentation(g.w, g.h, in.p, m.data(), m.size(), bd); bool nul = !p; free(p); REQUIRE_F(nul, "a marker outside the image was accepted"); }
static void many(Case &c) { // more markers than pixels, all on few pixels: the last marker on a pixel names it
  palette(); Img g = gen_gray(c, 12); int n = c.range(1, 60); std::vector<Point2D> m; L at(g.n(), -1); for (int i = 0; i < n; i++) { u32 x = c.draw(g.w), y = c.draw(g.h); at[(size_t)y * g.w + x] = i; m.push_back({(double)x, (double)y}); } c.note(fmt("%d markers on ", n) + show(g)); c.nontrivial(n > 1); c.label("duplicated markers"); bool bd = c.coin(); Img o = seg(g, m, bd); for (size_t i = 0; i < g.n(); i++) if (at[i] >= 0) { u32 v = rgb(&o.d[i * 4]); REQUIRE_F(v == g_pal[cls(at[i])], "pixel (%zu,%zu) with last marker %d has colour %06x", i % g.w, i / g.w, at[i], v); } }
// full simulation; only the first nine basins can be told apart, so the colours are compared
static void simulate(const Img &g, const std::vector<Point2D> &m, const L &at, bool bd) {
  Img o = seg(g, m, bd); size_t N = g.n(); L l = at; std::vector<int> t(N, -1); for (size_t i = 0; i < N; i++) if (at[i] >= 0) t[i] = 0; int now = 1;
  std::set<int> levels(g.d.begin(), g.d.end()); for (int v : levels) for (;;) { std::vector<std::pair<size_t, int>> add; for (size_t i = 0; i < N; i++) if (l[i] < 0 && g.d[i] <= v) { i64 x = i % g.w, y = i / g.w; int q = -1; bool multi = false; for (int d = 0; d < 4; d++) { i64 u = x + DX[d], w = y + DY[d]; if (u >= 0 && w >= 0 && u < g.w && w < g.h && l[w * g.w + u] >= 0) { int z = l[w * g.w + u]; if (q < 0) q = z; else if (q != z) multi = true; } } if (q >= 0 && !(multi && bd)) add.emplace_back(i, q); } if (add.empty()) break; for (auto &p : add) { l[p.first] = p.second; t[p.first] = now; } now++; }
  for (size_t i = 0; i < N; i++) { u32 v = rgb(&o.d[i * 4]); if (bd) { u32 e = l[i] < 0 ? 0 : g_pal[cls(l[i])]; REQUIRE_F(v == e, "pixel (%zu,%zu) is %06x, expected %06x (basin %d)", i % g.w, i / g.w, v, e, l[i]); } else if (at[i] >= 0) REQUIRE_F(v == g_pal[cls(at[i])], "marker %d has colour %06x", at[i], v); else { i64 x = i % g.w, y = i / g.w; bool ok = t[i] < 0; for (int d = 0; d < 4; d++) { i64 u = x + DX[d], w = y + DY[d]; if (u >= 0 && w >= 0 && u < g.w && w < g.h && t[w * g.w + u] >= 0 && t[w * g.w + u] < t[i] && rgb(&o.d[(w * g.w + u) * 4]) == v) ok = true; } REQUIRE_F(ok && v, "pixel (%lld,%lld) has no earlier flooded neighbour of its colour %06x", (long long)x, (long long)y, v); } }
}
// hundreds of markers on images beyond 2^16 pixels; only the first nine basins can be told apart, so the colours are compared
static void crowd(Case &c) {
  palette(); Img g; g.ch = 1; g.w = c.range(240, 420); g.h = c.range(240, 420); if (c.chance(1, 4)) { g.w = c.range(3000, 20000); g.h = c.range(1, 3); if (c.coin()) std::swap(g.w, g.h); } g.d.resize(g.n()); Rng r(c.draw(1 << 30)); int lev = c.range(1, 3); for (u8 &b : g.d) b = 40 * r.below(lev); int n = c.range(300, 900); std::vector<Point2D> m; L at(g.n(), -1); for (int i = 0; i < n; i++) { u32 x = r.below(g.w), y = r.below(g.h); at[(size_t)y * g.w + x] = i; m.push_back({(double)x, (double)y}); } bool bd = c.coin();
  for (int k = 0; k < 8; k++) { size_t i = r.below(m.size()), j = r.below(m.size()); std::swap(m[i], m[j]); } for (int &v : at) v = -1; for (int i = 0; i < n; i++) at[(size_t)m[i].y * g.w + (size_t)m[i].x] = i;
  c.note(fmt("%d markers on %ux%u with %d levels%s", n, g.w, g.h, lev, bd ? ", boundaries" : "")); c.nontrivial(); c.label("hundreds of markers"); simulate(g, m, at, bd);
}
// so many markers that most free pixels are flooded at once
static void dense(Case &c) {
  palette(); Img g; g.ch = 1; g.w = c.range(3, 60); g.h = c.range(3, 60); int k = c.draw(4); if (k == 0) { g.w = c.range(100, 3000); g.h = c.range(1, 3); if (c.coin()) std::swap(g.w, g.h); } g.d.resize(g.n()); Rng r(c.draw(1 << 30)); int lev = c.range(1, 4); for (u8 &b : g.d) b = 50 * r.below(lev); u32 st = c.range(1, 4), sx = c.coin() ? 1 : st, sy = sx == 1 ? st : c.range(1, 4), ph = c.draw(4); int pct = c.oneof<int>({5, 15, 33, 50, 70, 95}); bool lattice = c.coin(), diag = c.coin(); std::vector<Point2D> m; L at(g.n(), -1);
  for (u32 y = 0; y < g.h; y++) for (u32 x = 0; x < g.w; x++) if (lattice ? (diag ? (x + y + ph) % (st + 1) == 0 : (x + ph) % sx == 0 && (y + ph) % sy == 0) : (int)r.below(100) < pct) { at[(size_t)y * g.w + x] = m.size(); m.push_back({x + 0.25, y + 0.75}); }
  if (m.empty()) { at[0] = 0; m.push_back({0, 0}); } bool bd = c.coin(); if (c.coin()) { for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[r.below(i)]); for (size_t i = 0; i < m.size(); i++) at[(size_t)m[i].y * g.w + (size_t)m[i].x] = i; }
  c.note(fmt("%zu markers on %ux%u with %d levels%s, %s %u", m.size(), g.w, g.h, lev, bd ? ", boundaries" : "", lattice ? diag ? "diagonals every" : "lattice" : "random percent", lattice ? st : pct)); c.nontrivial(m.size() > 1 && m.size() < g.n()); c.label("dense markers"); simulate(g, m, at, bd);
}
Property property() {
  return {"C15", "Random gray landscapes (noise, plateaus, walls with holes, waves, gradients) and 1-30 markers (fractional, duplicated). Without boundaries: label-independent flooding times, every pixel must share the basin of an earlier flooded neighbour, lowest-pass (minimax) optimality by Dijkstra; with boundaries: exact simulation. Non-trivial: at least two markers and a free pixel.",
    {{"flood", flood, 6000, 60000}, {"boundary", boundary, 6000, 60000}, {"rejects", rejects, 5000, 30000}, {"many", many, 4000, 30000}, {"crowd", crowd, 24, 300}, {"dense", dense, 1500, 20000}}, {"basin colours are learnt from a ten-marker probe; basins from the tenth on share one colour", "a later marker on the same pixel replaces an earlier one"}};
}
