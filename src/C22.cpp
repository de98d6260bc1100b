#include "pipe.hpp"
// a canonical number with redundant digits: same value, other spelling
static std::string respell_num(Case &c, const std::string &s, int maxzeros) {
  size_t i = 0; std::string sign; if (i < s.size() && (s[i] == '-' || s[i] == '+')) sign = s.substr(i++, 1); std::string body = s.substr(i); if (body.empty() || !isdigit((u8)body[0]) || body.find('e') != std::string::npos) return s;
  int k = c.draw(4) == 3 ? c.range(1, maxzeros) : 0; body = std::string(k, '0') + body; return sign + body;
}
static std::string arg_respell(Case &c, const Op &o, size_t i) { // numbers inside an argument, e.g. 12x34, 50%x20%, 10x10+3+4
  const std::string &a = o.args[i]; bool color = i == 0 && (o.name == "circle" || o.name == "disk" || o.name == "border"); if (color) return a; bool dec = o.name != "crop" && o.name != "extract_document_to" && o.name != "erode" && o.name != "dilate" && o.name != "close" && o.name != "open" && o.name != "rotate";
  std::string r; size_t p = 0; while (p < a.size()) { if (isdigit((u8)a[p])) { size_t q = p; while (q < a.size() && (isdigit((u8)a[q]) || a[q] == '.')) q++; bool sci = q < a.size() && a[q] == 'e'; std::string n = a.substr(p, q - p); if (!sci) { n = respell_num(c, n, c.chance(1, 6) ? 120 : 4); if (dec && c.draw(5) == 4) { if (n.find('.') == std::string::npos) n += "."; n += std::string(c.range(1, 70), '0'); } } r += n; p = q; if (sci) { r += a.substr(p); break; } } else r += a[p++]; }
  return r;
}
static std::string blanks(Case &c, const char *set, int lo, int hi) { int n = c.pick({6, 1}) ? c.range(lo, hi * 8) : c.range(lo, hi); std::string s; size_t m = strlen(set); for (int i = 0; i < n; i++) s += set[c.draw(m)]; return s; }
static const char *WS = " \t\n\r\v\f";
// tokens (argv) of a randomly spelled pipeline
static std::vector<std::string> spell(Case &c, const std::vector<Op> &v) {
  // pieces: strings which may be separated by a space or by an argv boundary
  std::string out; const char CUT = '\1'; auto cut = [&]() { return c.coin() ? std::string(1, CUT) : std::string(); };
  for (int k = c.draw(3); k > 1; k--) out += blanks(c, WS, 0, 2) + "," + cut();
  for (size_t i = 0; i < v.size(); i++) {
    if (i) { int commas = c.chance(1, 5) ? c.range(2, 4) : 1; for (int k = 0; k < commas; k++) { out += blanks(c, WS, 0, 2); if (c.coin()) out += CUT; out += ","; if (c.coin()) out += CUT; out += blanks(c, WS, 0, 2); } }
    bool par = c.chance(1, 3); std::string op; if (par) { op += "("; op += blanks(c, WS, 0, 2); if (c.chance(1, 4)) op += CUT; }
    op += v[i].name; bool quote = v[i].name == "watershed" && c.chance(1, 2);
    for (size_t k = 0; k < v[i].args.size(); k++) { op += c.coin() ? std::string(1, CUT) : blanks(c, " ", 1, 3); if (k == 0 && quote) op += "'" + blanks(c, WS, 0, 2); op += arg_respell(c, v[i], k); }
    if (quote) op += blanks(c, WS, 0, 2) + "'";
    if (par) { op += blanks(c, WS, 0, 2); if (c.chance(1, 4)) op += CUT; op += ")"; }
    out += op;
  }
  for (int k = c.draw(3); k > 1; k--) { out += blanks(c, WS, 0, 2) + cut() + ","; if (c.coin()) out += blanks(c, WS, 1, 2); }
  std::vector<std::string> t(1); bool one = c.coin(); for (char ch : out) { if (ch == CUT) { if (one) t.back() += ' '; else t.push_back(""); } else t.back() += ch; }
  return t;
}
static Img gen_in(Case &c) { return gen_img(c, 4, 900, c.coin()); }
static void check(Case &c, const Img &a, const std::vector<Op> &v) {
  std::vector<std::string> t = spell(c, v); c.note("arguments " + join(t) + " for '" + canon(v) + "' on " + show(a)); c.nontrivial(t.size() > 1 || t[0] != canon(v)); c.label(t.size() > 1 ? "separate arguments" : "one argument"); size_t l = 0; for (auto &x : t) l += x.size(); c.label(l > 1000 ? "over 1000 characters" : l > 100 ? "100-1000 characters" : "under 100 characters");
  Img e = a, g; bool ok = run_model(v, e); if (!ok) { Img x; ok = cli_pipe(a, {canon(v)}, x); REQUIRE_F(!ok, "accepted although the library rejects a step"); bool got = cli_pipe(a, t, g); REQUIRE_F(!got, "accepted although the canonical spelling is rejected"); return; }
  std::string err; bool got = cli_pipe(a, t, g, &err); REQUIRE_F(got, "rejected: %s", tail(err).c_str()); cmp_img(g, e, "respelled pipeline");
}
static void spelling(Case &c) { Img a = gen_in(c); auto v = gen_pipeline(c, a, c.pick({5, 2}) ? 10 : 4, c.chance(1, 30)); check(c, a, v); }
static void longlist(Case &c) { // many markers / many operations
  Img a = gen_in(c); std::vector<Op> v;
  if (c.coin()) { u32 w = a.w, h = a.h; int n = c.range(1, 150); Op o; o.name = "watershed"; std::vector<Point2D> m; for (int i = 0; i < n; i++) { Point2D p{(double)c.draw(w), (double)c.draw(h)}; m.push_back(p); o.args.push_back(num(p.x) + "x" + num(p.y)); } o.model = [m](Img &a) { In i(a); u8 *g = fcv_rgba_to_grayscale(a.w, a.h, i.p); if (!g) return false; std::vector<Point2D> q = m; u8 *r = (u8 *)fcv_watershed_segmentation(a.w, a.h, g, q.data(), q.size(), false); free(g); return put(a, r, a.w, a.h); }; v.push_back(o); if (c.coin()) { u32 w2 = w, h2 = h; v.push_back(gen_op(c, w2, h2, 40, false)); } c.label("long marker list"); }
  else { int n = c.range(5, 60); u32 w = a.w, h = a.h; for (int i = 0; i < n; i++) { Op o; do o = gen_op(c, w, h, 40, false); while (o.name == "histogram" || o.name == "border" || o.name == "bw_smart" || o.name == "bw_smooth"); v.push_back(o); } c.label("many operations"); }
  check(c, a, v);
}
Property property() {
  return {"C22", "Grammar-generated pipelines spelled at random: one argument or split over argv at any separator, commas attached to the previous or next argument or alone, arbitrary white space around commas and inside parentheses, several spaces between arguments, parentheses, empty pieces, quoted marker lists, redundant digits (numbers of over 100 characters), up to 60 operations or 150 markers; result compared with the library model of the canonical pipeline. Non-trivial: spelling differs from the canonical one.",
    {{"spelling", spelling, 1800, 60000}, {"long", longlist, 500, 12000}}, {"library functions decided by C01-C19, canonical pipelines by C21"}};
}
