#include "cli.hpp"
#include <array>
struct R { i32 l, t, r, b; };
// content whose removable edges appear only step by step
static Img gen_trim(Case &c, u32 ch, int tol) {
  int k = c.pick({4, 3, 3});
  if (k == 0) return gen_img(c, ch, 400);
  u32 w = c.range(1, 5), h = c.range(1, 5); Img a = gen_content(c, w, h, ch);
  // wrap in frames: single edge lines (uniform, nearly uniform, or with one deviating pixel)
  int n = c.range(0, k == 1 ? 10 : 30);
  for (int i = 0; i < n; i++) {
    int side = c.draw(4); u8 col[8]; for (u32 q = 0; q < ch; q++) col[q] = c.chance(1, 2) && a.n() ? a.d[q] : gen_byte(c);
    Img o; o.ch = ch; o.w = a.w + (side < 2); o.h = a.h + (side >= 2); o.d.resize(o.n() * ch);
    u32 ox = side == 0, oy = side == 2; for (u32 y = 0; y < a.h; y++) memcpy(o.px(ox, y + oy), a.px(0, y), (size_t)a.w * ch);
    u32 len = side < 2 ? o.h : o.w; int odd = c.chance(1, 6) ? (int)c.draw(len) : -1; int amt = c.oneof<int>({1, tol, tol + 1, tol - 1, 2 * tol, 40}); u32 oc = c.draw(ch); bool jit = tol > 0 && c.chance(1, 3); u64 js = jit ? c.draw(1 << 16) : 0; Rng jr(js);
    for (u32 q = 0; q < len; q++) { u8 *p = side == 0 ? o.px(0, q) : side == 1 ? o.px(o.w - 1, q) : side == 2 ? o.px(q, 0) : o.px(q, o.h - 1); for (u32 z = 0; z < ch; z++) { int v = col[z]; if (jit) v += (int)jr.below(tol + 1); if ((int)q == odd && z == oc) v += v + amt > 255 ? -amt : amt; p[z] = (u8)std::max(0, std::min(255, v)); } }
    a = o;
  }
  return a;
}
static bool line_ok(const Img &a, const R &q, int side, int tol, bool any_ref) {
  // any_ref: some pixel of the line is within tol of all (weakest reading); else spread<=tol (every reference works)
  bool col = side < 2; i32 n = col ? q.b - q.t : q.r - q.l; std::vector<const u8 *> ps;
  for (i32 i = 0; i < n; i++) ps.push_back(col ? a.px(side == 0 ? q.l : q.r - 1, q.t + i) : a.px(q.l + i, side == 2 ? q.t : q.b - 1));
  u8 mn[8], mx[8]; for (u32 k = 0; k < a.ch; k++) { mn[k] = 255; mx[k] = 0; for (auto p : ps) { mn[k] = std::min(mn[k], p[k]); mx[k] = std::max(mx[k], p[k]); } }
  if (!any_ref) { for (u32 k = 0; k < a.ch; k++) if (mx[k] - mn[k] > tol) return false; return true; }
  for (auto p : ps) { bool ok = true; for (u32 k = 0; k < a.ch && ok; k++) if (p[k] - mn[k] > tol || mx[k] - p[k] > tol) ok = false; if (ok) return true; }
  return false;
}
static bool removable(const R &q, int side) { return side < 2 ? q.r - q.l > 1 : q.b - q.t > 1; }
static void cut(R &q, int side) { if (side == 0) q.l++; else if (side == 1) q.r--; else if (side == 2) q.t++; else q.b--; }
static void exact(Case &c) {
  u32 ch = c.oneof<u32>({4, 1, 3, 2}); Img a = gen_trim(c, ch, 0); c.note("trim " + show(a));
  Buf in(a); i32 w = a.w, h = a.h; bool thr0 = c.chance(1, 4); double pct = thr0 ? c.oneof<double>({0.0, 0.3, -5.0}) : 0;
  u8 *r = thr0 ? fcv_trim_threshold(&w, &h, ch, in.p, pct) : fcv_trim(&w, &h, ch, in.p);
  REQUIRE_F(r, "no image"); REQUIRE_F(w >= 1 && h >= 1 && (u32)w <= a.w && (u32)h <= a.h, "size %dx%d of %ux%u", w, h, a.w, a.h);
  Img o = take(r, w, h, ch, "trim"); REQUIRE_F(in.same(a.d), "input modified");
  R q{0, 0, (i32)a.w, (i32)a.h}; bool any = true; int rounds = 0; // exhaustive removal; confluent unless everything collapses to one pixel
  while (any) { any = false; for (int s = 0; s < 4; s++) while (removable(q, s) && line_ok(a, q, s, 0, false)) { cut(q, s); any = true; } rounds++; }
  bool one = q.r - q.l == 1 && q.b - q.t == 1;
  c.nontrivial(!one && ((u32)w < a.w || (u32)h < a.h)); c.label(one ? "collapses to 1x1" : rounds > 2 ? "needs several rounds" : rounds == 2 ? "one round" : "nothing to trim");
  REQUIRE_F(w == q.r - q.l && h == q.b - q.t, "trimmed to %dx%d, but removing uniform edges until none is left gives %dx%d", w, h, q.r - q.l, q.b - q.t);
  if (one) { bool found = false; for (size_t i = 0; i < a.n() && !found; i++) found = !memcmp(&a.d[i * ch], o.d.data(), ch); REQUIRE_F(found, "remaining pixel is not from the image"); }
  else cmp_img(o, ref_map(a, w, h, [&](u32 x, u32 y) { return std::make_pair(x + q.l, y + q.t); }), "trim");
  Buf ob(o); i32 w2 = w, h2 = h; u8 *r2 = fcv_trim(&w2, &h2, ch, ob.p); Out d(r2); REQUIRE_F(r2 && w2 == w && h2 == h && !memcmp(r2, o.d.data(), o.d.size()), "trimming again changes %dx%d to %dx%d", w, h, w2, h2);
}
// can the rectangle be reached by removing lines that lie within tol of one of their pixels?
static i64 g_work; // pixel visits left for the search; when they are used up the result is accepted
static bool reach(const Img &a, const R &g, int tol) {
  std::set<std::array<i32, 4>> seen; std::vector<R> todo{R{0, 0, (i32)a.w, (i32)a.h}};
  while (!todo.empty()) {
    R q = todo.back(); todo.pop_back();
    if (q.l == g.l && q.r == g.r && q.t == g.t && q.b == g.b) return true;
    if (seen.size() > 100000 || g_work < 0) return true; // search too large: accept
    g_work -= 2 * ((q.r - q.l) + (q.b - q.t)) + 40;
    for (int s = 0; s < 4; s++) if ((s == 0 ? q.l < g.l : s == 1 ? q.r > g.r : s == 2 ? q.t < g.t : q.b > g.b) && line_ok(a, q, s, tol, true)) { R n = q; cut(n, s); if (seen.insert({n.l, n.r, n.t, n.b}).second) todo.push_back(n); }
  }
  return false;
}
static void tolerant(Case &c) {
  u32 ch = c.oneof<u32>({4, 1, 3}); double pct = c.pick({3, 2, 1}) == 0 ? (c.chance(1, 8) ? c.oneof<double>({100, 99, 99.5, 99.7, 98.9, 50, 50.2, 49.9}) : c.range(1, 10)) : c.coin() ? c.real(0, 20) : c.real(0, 100);
  int tlo = (int)floor(pct * 255 / 100 - 1e-9), thi = (int)ceil(pct * 255 / 100 + 1e-9); if (tlo < 0) tlo = 0; if (thi > 255) thi = 255;
  Img a = gen_trim(c, ch, tlo); c.note(fmt("trim %.3f%% ", pct) + show(a));
  Buf in(a); i32 w = a.w, h = a.h; u8 *r = fcv_trim_threshold(&w, &h, ch, in.p, pct); REQUIRE_F(r, "no image"); REQUIRE_F(w >= 1 && h >= 1 && (u32)w <= a.w && (u32)h <= a.h, "size %dx%d", w, h);
  Img o = take(r, w, h, ch, "trim_threshold"); REQUIRE_F(in.same(a.d), "input modified");
  // some placement of the result in the image must be reachable by legal removals
  bool placed = false, reachable = false; g_work = 60000000;
  for (i32 y = 0; y + h <= (i32)a.h && !reachable; y++) for (i32 x = 0; x + w <= (i32)a.w && !reachable; x++) {
    bool eq = true; for (i32 k = 0; k < h && eq; k++) eq = !memcmp(a.px(x, y + k), o.px(0, k), (size_t)w * ch); if (!eq) continue; placed = true;
    reachable = reach(a, R{x, y, x + w, y + h}, thi);
  }
  if (g_work < 0) c.label("search cut short"); REQUIRE_F(placed, "result is not a rectangle of the input"); REQUIRE_F(reachable, "a line deviating by more than the tolerance was removed (result %dx%d of %ux%u)", w, h, a.w, a.h);
  R q{0, 0, w, h}; for (int s = 0; s < 4; s++) REQUIRE_F(!(removable(q, s) && line_ok(o, q, s, tlo, false)), "an edge line within the tolerance remains (side %d of %dx%d)", s, w, h);
  c.nontrivial((w > 1 || h > 1) && ((u32)w < a.w || (u32)h < a.h)); c.label((u32)w == a.w && (u32)h == a.h ? "kept" : w == 1 && h == 1 ? "one pixel left" : "trimmed");
  Buf ob(o); i32 w2 = w, h2 = h; u8 *r2 = fcv_trim_threshold(&w2, &h2, ch, ob.p, pct); Out d(r2); REQUIRE_F(r2 && w2 == w && h2 == h, "trimming again changes %dx%d to %dx%d", w, h, w2, h2);
}
static void big(Case &c) { // content with a wide uniform margin, long lines
  u32 ch = c.oneof<u32>({4, 3, 1}), w = c.range(2, 60), h = c.range(2, 60); Img a = gen_content(c, w, h, ch, true);
  // make the content free of uniform edges
  for (u32 k = 0; k < ch; k++) { a.px(0, 0)[k] = 10; a.px(w - 1, 0)[k] = 200; a.px(0, h - 1)[k] = 220; a.px(w - 1, h - 1)[k] = 30; }
  u32 l = c.range(0, 700), t = c.range(0, 700), r = c.range(0, 700), b = c.range(0, 700); if (c.chance(1, 4)) { u32 *q[] = {&l, &r, &t, &b}; int k = c.draw(4); l = c.draw(3); r = c.draw(3); t = c.draw(3); b = c.draw(3); *q[k] = c.coin() ? c.range(0, 140000) : c.oneof<u32>({32768, 65535, 65536, 65537, 70000, 131073}); c.label("long margin"); }
  u8 col[4]; for (u8 &q : col) q = gen_byte(c); Img o; o.ch = ch; o.w = w + l + r; o.h = h + t + b; o.d.resize(o.n() * ch); for (size_t i = 0; i < o.n(); i++) memcpy(&o.d[i * ch], col, ch); for (u32 y = 0; y < h; y++) memcpy(o.px(l, t + y), a.px(0, y), (size_t)w * ch);
  c.note(fmt("%ux%u content, margins %u %u %u %u", w, h, l, t, r, b)); c.nontrivial(l + t + r + b > 0);
  // the embedded corner may coincide with the margin colour, but edges still contain another colour
  Buf in(o); i32 tw = o.w, th = o.h; bool thr = c.coin(); u8 *p = thr ? fcv_trim_threshold(&tw, &th, ch, in.p, 1.0) : fcv_trim(&tw, &th, ch, in.p); Img g = take(p, tw > 0 ? tw : 0, th > 0 ? th : 0, ch, "trim");
  cmp_img(g, a, "trim of an embedded image");
}
static void command(Case &c) { // the tolerance given on the command line, with and without a percent sign, whole and fractional
  double pct = c.pick({2, 2, 1}) == 0 ? c.range(0, 12) : c.coin() ? c.range(1, 150) / 10.0 : c.range(1, 1200) / 100.0; int form = c.draw(3); std::string arg = form == 2 ? "" : fmt("%.10g", pct); if (form == 2) pct = 0; else pct = atof(arg.c_str()); if (form == 1) arg += "%";
  Img a = gen_trim(c, 4, (int)floor(pct * 255 / 100 - 1e-9) < 0 ? 0 : (int)floor(pct * 255 / 100)); c.note("flatcv trim " + arg + " of " + show(a)); std::vector<std::string> ops{"trim"}; if (!arg.empty()) ops.push_back(arg);
  Buf in(a); i32 w = a.w, h = a.h; u8 *r = form == 2 ? fcv_trim(&w, &h, 4, in.p) : fcv_trim_threshold(&w, &h, 4, in.p, pct); Img e = take(r, w, h, 4, "trim"); c.nontrivial(e.n() > 1 && e.n() < a.n()); c.label(form == 2 ? "cli exact" : form ? "cli percent" : "cli number");
  Img o; REQUIRE_F(cli_pipe(a, ops, o), "trim %s was rejected", arg.c_str()); cmp_img(o, e, "command-line trim");
}
static void strips(Case &c) { Strips s(9000); if (c.coin()) exact(c); else tolerant(c); c.label("strip"); }
Property property() {
  return {"C04", "Images built by wrapping random content in uniform, near-uniform and deviating edge lines on random sides (so removability appears step by step); oracle removes edges exhaustively (exact form, provably confluent) or checks reachability and terminality with two-sided tolerance (tolerant form); idempotence. Non-trivial: something was trimmed and more than one pixel remains.",
    {{"exact", exact, 40000, 600000}, {"tolerant", tolerant, 30000, 400000}, {"big", big, 200, 4000}, {"strips", strips, 300, 5000}, {"command", command, 800, 15000}}, {"the absolute tolerance may be the percentage of 255 rounded down or up", "when everything is uniform any single remaining pixel of the image is accepted"}};
}
