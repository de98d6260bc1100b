#include "img.hpp"
static int hexv(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void model(const std::string &s, u8 o[3]) { std::string h = !s.empty() && s[0] == '#' ? s.substr(1) : s; bool ok = h.size() == 6; for (char ch : h) if (hexv(ch) < 0) ok = false; for (int k = 0; k < 3; k++) o[k] = ok ? hexv(h[2 * k]) * 16 + hexv(h[2 * k + 1]) : 255; }
static std::string spell(Case &c, u8 r, u8 g, u8 b) { std::string h = fmt("%02x%02x%02x", r, g, b); int m = c.draw(3); for (char &ch : h) if (m == 1 || (m == 2 && c.coin())) ch = toupper(ch); return (c.coin() ? "#" : "") + h; }
static void call(const std::string &s, u8 o[3]) { std::vector<u8> z(s.begin(), s.end()); z.push_back(0); Buf b(z); o[0] = 1; o[1] = 2; o[2] = 3; fcv_parse_hex_color((const char *)b.p, &o[0], &o[1], &o[2]); }
static void parse(Case &c) {
  std::string s; int k = c.pick({5, 2, 2, 1}); const char *hx = "0123456789abcdefABCDEF"; const char *other = "gGxX #+-.,@`:/\x7f\xe9\n";
  if (k == 0) s = spell(c, c.draw(256), c.draw(256), c.draw(256));
  else if (k == 1) { s = spell(c, c.draw(256), c.draw(256), c.draw(256)); int m = c.draw(3); size_t at = c.draw(s.size()); if (m == 0) s[at] = other[c.draw(strlen(other))]; else if (m == 1) s.erase(at, 1); else s.insert(at, 1, c.coin() ? hx[c.draw(22)] : other[c.draw(strlen(other))]); }
  else if (k == 2) { int n = c.draw(10); for (int i = 0; i < n; i++) s += hx[c.draw(22)]; }
  else { int n = c.draw(12); for (int i = 0; i < n; i++) s += (char)c.range(1, 255); }
  c.note("parse \"" + s + "\""); u8 g[3], e[3]; call(s, g); model(s, e); bool valid = (s.size() == 6 || s.size() == 7) && k == 0; c.nontrivial(valid || k != 0); c.label(valid ? "valid colour" : "other string");
  REQUIRE_F(!memcmp(g, e, 3), "parsed as %u,%u,%u, expected %u,%u,%u", g[0], g[1], g[2], e[0], e[1], e[2]);
}
static void all_values(Case &c) { // one whole (r,g) slice: 256 colours
  u8 r = c.draw(256), g = c.draw(256); c.note(fmt("all colours %02x%02x..", r, g)); c.nontrivial(); for (int b = 0; b < 256; b++) { u8 o[3]; call(fmt(c.coin() ? "%02X%02X%02X" : "#%02x%02x%02x", r, g, b), o); REQUIRE_F(o[0] == r && o[1] == g && o[2] == b, "%02x%02x%02x parsed as %u,%u,%u", r, g, b, o[0], o[1], o[2]); }
}
static void binarize(Case &c) {
  Img a = gen_img(c, 4, 4000, c.coin()); u8 f[3], b[3]; auto pickc = [&](u8 *q) { int k = c.pick({4, 2, 2}); size_t i = c.draw(a.n()) * 4; for (int j = 0; j < 3; j++) q[j] = a.d[i + j]; if (k == 1) q[c.draw(3)] ^= 1 << c.draw(8); if (k == 2) for (int j = 0; j < 3; j++) q[j] = gen_byte(c); }; pickc(f); pickc(b); if (c.chance(1, 8)) memcpy(b, f, 3);
  // plant near misses: same colour with exactly one byte off, or channels exchanged
  int m = c.draw(6); for (int i = 0; i < m; i++) { size_t p = c.draw(a.n()) * 4; memcpy(&a.d[p], f, 3); int t = c.draw(3); if (t == 0) a.d[p + c.draw(3)] += 1; if (t == 1) std::swap(a.d[p], a.d[p + 2]); }
  std::string fs = spell(c, f[0], f[1], f[2]), bs = spell(c, b[0], b[1], b[2]); bool invalid = c.chance(1, 10); if (invalid) { fs = c.oneof<const char *>({"", "12345", "zzzzzz", "#1234567"}); f[0] = f[1] = f[2] = 255; }
  c.note(fmt("binary fg %s bg %s of ", fs.c_str(), bs.c_str()) + show(a)); Buf in(a); std::vector<u8> v1(fs.begin(), fs.end()), v2(bs.begin(), bs.end()); v1.push_back(0); v2.push_back(0); Buf s1(v1), s2(v2);
  Img o = take(fcv_convert_to_binary(in.p, a.w, a.h, (const char *)s1.p, (const char *)s2.p), a.w, a.h, 1, "convert_to_binary"); REQUIRE_F(in.same(a.d) && s1.same(v1) && s2.same(v2), "input modified"); size_t hits = 0;
  for (size_t i = 0; i < a.n(); i++) { bool is = !memcmp(&a.d[i * 4], f, 3); hits += is; REQUIRE_F(o.d[i] == (is ? 255 : 0), "pixel %zu (%u,%u,%u) becomes %u with foreground %s", i, a.d[i * 4], a.d[i * 4 + 1], a.d[i * 4 + 2], o.d[i], fs.c_str()); }
  c.nontrivial(hits > 0 && hits < a.n()); c.label(hits == 0 ? "no foreground" : hits == a.n() ? "all foreground" : "mixed");
}
static void strips(Case &c) { Strips s; binarize(c); c.label("strip"); }
Property property() {
  return {"C12", "Hex strings: valid ones in all spellings, one edit away from valid, random; whole 256-colour slices. Images with foreground/background colours taken from the image, near misses planted. Non-trivial: mixed foreground/other pixels, or a string with a decided meaning.",
    {{"parse", parse, 200000, 3000000}, {"all_values", all_values, 6000, 65536}, {"binarize", binarize, 30000, 400000}, {"strips", strips, 200, 3000}}, {"strings other than six hex digits with an optional leading # mean white, as documented in the source"}};
}
