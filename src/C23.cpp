#include "pipe.hpp"
#include <sys/resource.h>
static Img small(Case &c) { return gen_img(c, 4, 500, c.coin()); }
static const char *OPN[] = {"grayscale", "blur", "resize", "threshold", "bw_smart", "bw_smooth", "detect_corners", "draw_corners", "sobel", "circle", "disk", "watershed", "crop", "extract_document", "extract_document_to", "flip_x", "flip_y", "rotate", "trim", "histogram", "border", "erode", "dilate", "close", "open"};
static const int NOPN = 25;
static bool known(const std::string &s) { for (auto n : OPN) if (s == n) return true; return false; }
struct Env { std::string d, in, out; std::string before; bool pre; };
// runs flatcv on a prepared input and checks a clean failure
static void expect_fail(const std::vector<std::string> &args, const std::string &out, const std::string &before, bool pre, const char *why) {
  RunRes r = cli(args); bool ok = cli_ok(r, "flatcv " + join(args)); REQUIRE_F(!ok, "%s was accepted: flatcv %s", why, join(args).c_str()); REQUIRE_F(r.status == 1, "%s: exit status %d", why, r.status); REQUIRE_F(!r.err.empty() || !r.out.empty(), "%s: no message at all", why);
  std::string all = r.err + r.out; REQUIRE_F(all.find("rror") != std::string::npos || all.find("Usage") != std::string::npos, "%s: no error message: %s", why, tail(all).c_str());
  if (pre) REQUIRE_F(slurp(out) == before, "%s: the existing output file was changed", why); else REQUIRE_F(!exists(out), "%s: an output file was created", why);
}
static std::string prep_out(Case &c, std::string &name, std::string &before, bool &pre) { name = c.oneof<std::string>({"out.png", "out.jpg", "out.bin"}); std::string p = workdir() + "/" + name; unlink(p.c_str()); pre = c.chance(1, 3); before = "precious old content"; if (pre) spew(p, before); return p; }
static std::string bad_op(Case &c, u32 w, u32 h, std::string &why) {
  switch (c.draw(14)) {
    case 0: { why = "an unknown operation"; std::string s; switch (c.draw(4)) { case 0: s = OPN[c.draw(NOPN)]; s[c.draw(s.size())] = "abcxyz_0"[c.draw(8)]; break; case 1: s = OPN[c.draw(NOPN)]; s += "abcxyz_0-"[c.draw(9)]; break; case 2: s = OPN[c.draw(NOPN)]; s.pop_back(); break; default: { int n = c.range(1, c.chance(1, 6) ? 300 : 40); for (int i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABC_0123456789-%#x."[c.draw(45)]; } } if (known(s)) s += "q"; if (s.substr(0, 1) == "(") s = "q" + s; if (c.coin()) s += " 3"; if (c.chance(1, 5)) s += " 50% 3x4"; return s; }
    case 1: { why = "an unknown operation"; std::string s = OPN[c.draw(NOPN)]; s[0] = toupper(s[0]); return s; }
    case 2: { why = "a missing argument"; static const char *n[] = {"blur", "resize", "circle", "disk", "watershed", "crop", "extract_document_to", "rotate", "border", "erode", "dilate", "close", "open"}; return n[c.draw(13)]; }
    case 3: { why = "a missing argument"; std::string s = c.coin() ? "circle" : "disk"; s += " " + gen_color(c); if (c.coin()) s += fmt(" %d", (int)c.range(0, 20)); return s; }
    case 4: why = "a missing border width"; return "border " + gen_color(c);
    case 5: { why = "a border width that is not positive"; return "border " + gen_color(c) + c.oneof<std::string>({" 0", " -1", " -0.5", " -1e9", " x", " nan"}); }
    case 6: { why = "a malformed position"; return std::string(c.coin() ? "circle " : "disk ") + gen_color(c) + fmt(" %d ", (int)c.range(0, 9)) + c.oneof<std::string>({"5", "5,5", "5+5", "5X5", "abc", "5;5"}); }
    case 7: { why = "a malformed geometry"; u32 a = c.range(1, w), b = c.range(1, h); switch (c.draw(9)) { case 0: return fmt("crop %u", a); case 1: return fmt("crop %ux", a); case 2: return fmt("crop 0x%u", b); case 3: return fmt("crop %ux0", a); case 4: return fmt("crop x%u", b); case 5: return fmt("crop %ux%u+1+2z", a, b); case 6: return fmt("crop %ux%u+0+0+0", a, b); case 7: return fmt("crop %u%%x%u%%", a, b); default: return fmt("crop %u %u", a, b); } }
    case 8: { why = "a crop offset outside the image"; u32 x = w + (c.coin() ? 0 : c.range(0, 2000000000)), y = h + (c.coin() ? 0 : c.range(0, 2000000000)); return c.coin() ? fmt("crop 1x1+%u+0", x) : fmt("crop 1x1+0+%u", y); }
    case 9: { why = "a rotation by no multiple of 90"; int a; do a = c.range(-1000, 1000); while (a % 90 == 0); return c.coin() ? fmt("rotate %d", a) : fmt("rotate %d", a) + c.oneof<std::string>({".5", ".25"}); }
    case 10: { why = "document dimensions that are not positive or too large"; return "extract_document_to " + c.oneof<std::string>({"0x5", "5x0", "-5x5", "5x-5", "100", "axb", "x5", "5x", "4294967297x5", "5x99999999999999999999", "2147483648x3"}); }
    case 11: { why = "a resize to nothing or to an impossible size"; return "resize " + c.oneof<std::string>({"0", "0%", "-50%", "0x0", "-5x5", "5x-5", "nan", "inf", "abc", "-1", "nan%", "1e30", "1e300%", "9999999999x9999999999", "%", "x", "0 1", "1 0"}); }
    case 12: { why = "an invalid morphology radius"; return c.oneof<std::string>({"erode", "dilate", "close", "open"}) + c.oneof<std::string>({" -1", " -0.5", " -0.001", " -255", " -4294967296", " nan", " 1e20", " inf", " -inf", " -1e300"}); }
    default: { why = "a watershed without valid markers"; return "watershed " + c.oneof<std::string>({"5", "abc", "5,5", "''", "5 5 5", "'5 6'"}); }
  }
}
static void invalid(Case &c) {
  Img a = small(c); std::vector<Op> v = gen_pipeline(c, a, 4, false, 40); if (c.coin()) v.clear(); for (auto &o : v) if (o.name == "histogram") throw Discard();
  Img m = a; size_t at = c.draw(v.size() + 1); std::vector<Op> pre(v.begin(), v.begin() + at); if (!run_model(pre, m)) throw Discard(); // the step before must work, so that the message is about ours
  std::string why, bad = bad_op(c, m.w, m.h, why); std::string s; for (size_t i = 0; i <= v.size(); i++) { if (i == at) { s += (s.empty() ? "" : ", ") + bad; } if (i < v.size()) s += (s.empty() ? "" : ", ") + canon(v[i]); }
  std::string name, before; bool pre_; std::string out = prep_out(c, name, before, pre_); spew(workdir() + "/in.png", png_encode(a)); c.note("flatcv in.png '" + s + "' on " + show(a)); c.nontrivial(); c.label(why); if (pre_) c.label("output existed");
  std::vector<std::string> args{"in.png"}; if (c.coin()) args.push_back(s); else { std::string t; for (char q : s + " ") { if (q == ' ') { if (!t.empty()) args.push_back(t); t.clear(); } else t += q; } } args.push_back(name);
  expect_fail(args, out, before, pre_, why.c_str());
}
static std::string valid_file(Case &c, std::string &kind) {
  Img a = gen_img(c, c.oneof<u32>({4, 3, 1, 2}), 400); int k = c.pick({3, 2, 2, 1, 1, 1, 1}); std::string s;
  if (k == 0) { kind = "png"; return png_encode(a); }
  if (k == 1) { kind = "jpg"; std::string d = workdir(); Img r = to_rgba(a); spew(d + "/src.png", png_encode(r)); RunRes q = cli({"src.png", "rotate 0", "src.jpg"}); if (!cli_ok(q, "making a JPEG")) FAILF("cannot make a JPEG"); return slurp(d + "/src.jpg"); }
  if (k == 2) { kind = "bmp"; Img r = to_rgba(a); u32 st = (r.w * 3 + 3) / 4 * 4; std::string h = "BM"; auto le = [&](u32 v, int n) { for (int i = 0; i < n; i++) h += (char)(v >> (8 * i)); }; le(54 + st * r.h, 4); le(0, 4); le(54, 4); le(40, 4); le(r.w, 4); le(r.h, 4); le(1, 2); le(24, 2); le(0, 4); le(st * r.h, 4); le(2835, 4); le(2835, 4); le(0, 4); le(0, 4); for (int y = (int)r.h - 1; y >= 0; y--) { std::string l; for (u32 x = 0; x < r.w; x++) for (int q = 2; q >= 0; q--) l += (char)r.px(x, y)[q]; l.resize(st); h += l; } return h; }
  if (k == 3) { kind = "ppm"; Img r = to_rgba(a); s = fmt("P6\n%u %u\n255\n", r.w, r.h); for (size_t i = 0; i < r.n(); i++) s.append((const char *)&r.d[i * 4], 3); return s; }
  if (k == 4) { kind = "tga"; Img r = to_rgba(a); std::string h(18, 0); h[2] = 2; h[12] = r.w & 255; h[13] = r.w >> 8; h[14] = r.h & 255; h[15] = r.h >> 8; h[16] = 32; h[17] = 0x28; for (size_t i = 0; i < r.n(); i++) { h += (char)r.d[i * 4 + 2]; h += (char)r.d[i * 4 + 1]; h += (char)r.d[i * 4]; h += (char)r.d[i * 4 + 3]; } return h; }
  if (k == 5) { kind = "gif"; // uncompressed-style GIF with clear codes
    Img g; g.w = std::min(a.w, 60u); g.h = std::min(a.h, 60u); std::string h = "GIF89a"; auto le = [&](u32 v, int n) { for (int i = 0; i < n; i++) h += (char)(v >> (8 * i)); }; le(g.w, 2); le(g.h, 2); h += (char)0xf6; h += (char)0; h += (char)0; for (int i = 0; i < 128; i++) { h += (char)(2 * i); h += (char)(255 - i); h += (char)i; } h += ','; le(0, 4); le(g.w, 2); le(g.h, 2); h += (char)0; h += (char)7; std::string bits; u32 acc = 0; int nb = 0; auto code = [&](u32 v) { acc |= v << nb; nb += 8; while (nb >= 8) { bits += (char)acc; acc >>= 8; nb -= 8; } }; Rng r(c.draw(1000)); u32 cnt = 0; for (u32 i = 0; i < g.w * g.h; i++) { if (cnt++ % 100 == 0) code(128); code(r.below(128)); } code(129); bits += (char)acc; for (size_t p = 0; p < bits.size(); p += 255) { size_t n = std::min<size_t>(255, bits.size() - p); h += (char)n; h += bits.substr(p, n); } h += (char)0; h += ';'; return h; }
  kind = "garbage"; int n = c.range(0, 200); for (int i = 0; i < n; i++) s += (char)c.draw(256); if (c.coin()) { static const char *m[] = {"\x89PNG\r\n\x1a\n", "\xff\xd8\xff\xe0", "BM", "GIF89a", "8BPS", "#?RADIANCE\n", "\x53\x80\xF6\x34", "P6\n", "P5 "}; s = std::string(m[c.draw(9)]) + s; } return s;
}
static void corrupt(Case &c) { // any bytes: clean result or clean failure
  std::string kind, s = valid_file(c, kind); int cuts = c.pick({2, 3, 3, 1}); bool prefix = false; 
  if (cuts == 0) { s.resize(c.draw(s.size() + 1)); prefix = true; }
  else if (cuts == 1) { int n = c.range(1, 6); for (int i = 0; i < n && !s.empty(); i++) s[c.chance(1, 2) ? c.draw(std::min<size_t>(s.size(), 64)) : c.draw(s.size())] = (char)gen_byte(c); }
  else if (cuts == 2) { int n = c.range(1, 3); for (int i = 0; i < n && !s.empty(); i++) { size_t p = c.draw(s.size()), q = c.range(1, 12); if (c.coin()) s.erase(p, q); else s.insert(p, s.substr(c.draw(s.size()), q)); } }
  else if (s.size() > 4) { size_t p = c.draw(std::min<size_t>(s.size() - 3, 80)); u32 v = c.oneof<u32>({0, 1, 0x7fffffff, 0xffffffff, 0x80000000u, 0x10000, 0x01000000}); memcpy(&s[p], &v, 4); }
  if (kind == "png" && c.chance(2, 3)) { // repair the checksums, so that the damage reaches the decoder
    size_t o = 8; while (o + 12 <= s.size()) { u32 n = ((u32)(u8)s[o] << 24) | ((u32)(u8)s[o + 1] << 16) | ((u32)(u8)s[o + 2] << 8) | (u8)s[o + 3]; if (n > s.size() || o + 12 + n > s.size()) break; u32 k = crc32(0, (const Bytef *)&s[o + 4], n + 4); for (int i = 0; i < 4; i++) s[o + 8 + n + i] = (char)(k >> (24 - 8 * i)); o += 12 + n; } }
  std::string in = "in." + c.oneof<std::string>({"png", "jpg", "jpeg", "JPG", "dat"}); if (kind == "jpg" && c.coin()) in = "in.jpg"; spew(workdir() + "/" + in, s); std::string name, before; bool pre; std::string out = prep_out(c, name, before, pre); std::string op = c.oneof<std::string>({"flip_x", "grayscale", "crop 3x3", "rotate 90"}); c.note(fmt("%s file of %zu bytes damaged, hash %llx, as %s", kind.c_str(), s.size(), (unsigned long long)fnv(s.data(), s.size()), in.c_str())); c.nontrivial(); c.label("damaged " + kind);
  RunRes r = cli({in, op, name}, 40); bool ok = cli_ok(r, "flatcv " + in + " " + op); if (ok) { c.label("still decoded"); std::string f = slurp(out); REQUIRE_F(f.size() > 20 && (f.compare(0, 4, "\x89PNG") == 0 || f.compare(0, 3, "\xff\xd8\xff") == 0), "success but no image written"); if (name != "out.jpg") { Img q = png_decode(f, "output"); u32 w = 0, h = 0; REQUIRE_F(reported_dims(r, w, h) && q.w == w && q.h == h, "reported size differs"); } }
  else { REQUIRE_F(r.err.find("rror") != std::string::npos, "failure without an error message"); if (pre) REQUIRE_F(slurp(out) == before, "failure changed the existing output file"); else REQUIRE_F(!exists(out), "failure created an output file"); }
  if (prefix && s.size() < 8 && kind != "ppm") REQUIRE_F(!ok, "a %zu byte file was accepted", s.size());
}
static void unreadable(Case &c) {
  std::string d = workdir(), name, before; bool pre; std::string out = prep_out(c, name, before, pre); mkdir((d + "/adir").c_str(), 0755); spew(d + "/empty.png", ""); spew(d + "/text.png", "this is no image, only text\n"); std::string in = c.oneof<std::string>({"missing.png", "adir", "empty.png", "text.png", "adir/missing.jpg", "", "missing"}); auto v = gen_pipeline(c, small(c), 3, true); c.note("unreadable input '" + in + "' with '" + canon(v) + "'"); c.nontrivial(); c.label("input " + in); expect_fail({in, canon(v), name}, out, before, pre, "an unreadable input");
}
static void usage(Case &c) {
  std::string d = workdir(); Img a = small(c); spew(d + "/in.png", png_encode(a)); unlink((d + "/out.png").c_str()); std::vector<std::string> args; int k = c.draw(5); if (k == 1) args = {"in.png"}; if (k == 2) args = {"in.png", canon(gen_pipeline(c, a, 3, false))}; if (k == 3) args = {"in.png", c.oneof<std::string>({"", ",", " , ,", "()", "( )", ",,,", "  "}), "out.png"}; if (k == 4) args = {"in.png", "out.png"}; c.note("flatcv " + join(args)); c.nontrivial(); c.label(k == 3 ? "no operations" : "too few arguments"); expect_fail(args, d + "/out.png", "", false, "an incomplete command line"); REQUIRE_F(png_decode(slurp(d + "/in.png"), "the input") == a, "the input file was changed");
}
// output which cannot be written (completely)
static void unwritable(Case &c) {
  std::string d = workdir(); Img a = gen_img(c, 4, 6000, true); spew(d + "/in.png", png_encode(a)); std::string ext = c.oneof<std::string>({"png", "jpg", "bin"}); int k = c.draw(3); c.nontrivial();
  if (k == 0) { c.label("missing directory"); c.note("output in a missing directory"); expect_fail({"in.png", "flip_x", "nodir/out." + ext}, d + "/nodir/out." + ext, "", false, "an output in a missing directory"); return; }
  if (k == 1) { mkdir((d + "/odir." + ext).c_str(), 0755); c.label("output is a directory"); c.note("output is a directory"); RunRes r = cli({"in.png", "flip_x", "odir." + ext}); REQUIRE_F(!cli_ok(r, "output is a directory"), "success although the output is a directory"); REQUIRE_F(r.err.find("rror") != std::string::npos, "no error message"); return; }
  std::string o = d + "/full." + ext; unlink(o.c_str()); RunRes f = cli({"in.png", "flip_x", "full." + ext}); REQUIRE_F(cli_ok(f, "flip_x"), "flip_x fails"); std::string whole = slurp(o); unlink(o.c_str());
  // a limit on the file size stands in for a full disk
  size_t lim = c.coin() ? c.draw(whole.size()) : whole.size() - 1 - c.draw(std::min<size_t>(whole.size(), 64)); bool enough = c.chance(1, 6); if (enough) lim = whole.size(); if (lim < 2500 && !enough) { if (whole.size() > 3000) lim = 2500 + lim % (whole.size() - 2500); else throw Discard(); } // messages of the tool must still fit
  c.label(enough ? "just enough space" : "disk full"); c.note(fmt("space for %zu of %zu bytes, .%s", lim, whole.size(), ext.c_str()));
  struct rlimit old, rl; getrlimit(RLIMIT_FSIZE, &old); rl = old; rl.rlim_cur = std::max<size_t>(lim, 1); auto oh = signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &rl); RunRes r; bool thrown = false; try { r = cli({"in.png", "flip_x", "full." + ext}); } catch (...) { thrown = true; } setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, oh); if (thrown) throw Discard();
  bool ok = cli_ok(r, "flip_x with a full disk"); std::string got = slurp(o); unlink(o.c_str()); if (enough && lim > 2500) REQUIRE_F(ok && got == whole, "fails although there is enough space"); if (lim < whole.size()) { REQUIRE_F(!ok, "exit status 0 although only %zu of %zu bytes were written", got.size(), whole.size()); REQUIRE_F(r.err.find("rror") != std::string::npos, "no error message"); } else if (ok) REQUIRE_F(got == whole, "exit status 0 but incomplete file");
}
// results that the output format cannot represent
static void oversize(Case &c) {
  std::string d = workdir(); bool tall = c.coin(); u32 big = c.oneof<u32>({65533, 65534, 65535, 65536, 65537, 65600, 70000, 131071, 131072, 131073, 196608}); u32 side = c.range(1, 3), k = c.draw(3); std::string op = "flip_x"; Img a; a.ch = 4;
  if (k == 0) { a.w = tall ? side : big; a.h = tall ? big : side; } else if (k == 1) { a.w = tall ? side : 1; a.h = tall ? 1 : side; op = tall ? fmt("resize %ux%u", side, big) : fmt("resize %ux%u", big, side); } else { a.w = tall ? side : big + 3; a.h = tall ? big + 3 : side; op = fmt("crop %ux%u", tall ? side : big, tall ? big : side); }
  a.d.resize(a.n() * 4); Rng r(c.draw(1u << 30)); u8 v = r.below(256); for (size_t i = 0; i < a.d.size(); i++) { if (i % 400 == 0) v = r.below(256); a.d[i] = i % 4 == 3 ? 255 : v; }
  spew(d + "/in.png", png_encode(a)); std::string ext = c.oneof<std::string>({"jpg", "jpeg", "JPG", "JPEG", "jpg", "png"}), name, before; bool pre = c.chance(1, 3); name = "big." + ext; std::string out = d + "/" + name; unlink(out.c_str()); before = "precious old content"; if (pre) spew(out, before); c.nontrivial(big > 65535 || big == 65535); c.label(ext == "png" ? "PNG" : big > 65535 ? "too large for JPEG" : "just right for JPEG"); c.note(fmt("%s %s of %u pixels as %s", op.c_str(), tall ? "height" : "width", big, ext.c_str()));
  RunRes q = cli({"in.png", op, name}, 60); bool ok = cli_ok(q, op); u32 w = tall ? side : big, h = tall ? big : side;
  if (ext == "png") { REQUIRE_F(ok, "rejected although PNG can store it"); Img p = png_decode(slurp(out), "output"); REQUIRE_F(p.w == w && p.h == h, "the file has %ux%u pixels", p.w, p.h); }
  else if (!ok) { REQUIRE_F(big > 65535, "rejected although JPEG can store it: %s", tail(q.err).c_str()); REQUIRE_F(q.err.find("rror") != std::string::npos, "no error message"); if (pre) REQUIRE_F(slurp(out) == before, "the existing output file was changed"); else REQUIRE_F(!exists(out), "an output file was created"); }
  else { std::string f = slurp(out); u32 fw = 0, fh = 0; for (size_t o = 2; o + 9 < f.size() && (u8)f[o] == 0xff;) { u8 m = f[o + 1]; u32 n = (u8)f[o + 2] << 8 | (u8)f[o + 3]; if (m >= 0xc0 && m <= 0xc2) { fh = (u8)f[o + 5] << 8 | (u8)f[o + 6]; fw = (u8)f[o + 7] << 8 | (u8)f[o + 8]; break; } o += 2 + n; } REQUIRE_F(fw == w && fh == h, "exit status 0, but the JPEG file says %ux%u instead of %ux%u", fw, fh, w, h); }
  unlink(out.c_str());
}
// one allocation (or all from one on) of the tool fails
static void memory(Case &c) {
  std::string d = workdir(); Img a = gen_img(c, 4, 300, c.coin()); std::vector<Op> v = gen_pipeline(c, a, 4, false, 40); Img m = a; if (c.chance(1, 4)) for (int i = 0; i < 9; i++) { Op o; o.name = "flip_y"; o.model = [](Img &q) { In i(q); return put(q, (u8 *)fcv_flip_y(q.w, q.h, i.p), q.w, q.h); }; v.push_back(o); }
  for (auto &o : v) if (o.name == "detect_corners" || o.name == "draw_corners" || o.name.compare(0, 7, "extract") == 0) throw Discard(); // the library falls back to the whole image (documented)
  if (!run_model(v, m)) throw Discard();
  std::string in = "in.png", op = canon(v), png = png_encode(a); spew(d + "/in.png", png);
  if (c.coin()) { RunRes q = cli({"in.png", "rotate 0", "t.jpg"}); REQUIRE_F(cli_ok(q, "making a JPEG"), "cannot make a JPEG"); std::string j = slurp(d + "/t.jpg"), x("\xff\xe1\x00\x22" "Exif\0\0MM\0\x2a\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0", 33); x += (char)c.range(1, 8); x += std::string(6, 0); x[3] = (char)(x.size() - 2); spew(d + "/in.jpg", j.substr(0, 2) + x + j.substr(2)); in = "in.jpg"; }
  std::string name = c.oneof<std::string>({"o.png", "o.png", "o.jpg", "o.bin"}), out = d + "/" + name; c.note("flatcv " + in + " '" + op + "' " + name + " on " + show(a)); c.nontrivial(); c.label(in); c.label(name);
  struct E { ~E() { unsetenv("VERIF_OOM"); unsetenv("VERIF_OOM_COUNT"); } } e; auto go = [&](const std::string &f) { if (f.empty()) unsetenv("VERIF_OOM"); else setenv("VERIF_OOM", f.c_str(), 1); unlink(out.c_str()); return run(eng::cli_path + "_oom", {in, op, name}, d, 60); };
  setenv("VERIF_OOM_COUNT", (d + "/count").c_str(), 1); unlink((d + "/count").c_str()); RunRes q = go(""); if (!cli_ok(q, op)) throw Discard(); std::string whole = slurp(out); u64 n = strtoull(slurp(d + "/count").c_str(), nullptr, 10); if (!n) throw Discard(); unsetenv("VERIF_OOM_COUNT");
  for (int i = 0; i < 5; i++) { u64 k = i == 0 ? 1 + c.draw(std::min<u64>(n, 8)) : i == 1 ? n - c.draw(std::min<u64>(n, 6)) : 1 + c.draw(n); std::string f = fmt("%llu%s", (unsigned long long)k, c.chance(1, 4) ? "+" : ""); RunRes r = go(f); std::string what = fmt("flatcv %s '%s' %s with allocation %s of %llu failing", in.c_str(), op.c_str(), name.c_str(), f.c_str(), (unsigned long long)n); bool ok = cli_ok(r, what); if (ok) REQUIRE_F(slurp(out) == whole, "exit status 0 with a different output: %s", what.c_str()); else { REQUIRE_F(r.err.find("rror") != std::string::npos, "no error message: %s", what.c_str()); REQUIRE_F(!exists(out), "failure left an output file: %s", what.c_str()); } c.label(ok ? "survived" : "clean failure"); }
  unlink(out.c_str());
}
// arbitrary text as arguments on a tiny image: never a crash or hang
static void mutated(Case &c) {
  Img a = gen_img(c, 4, 150, c.coin()); u32 w = a.w, h = a.h; std::string s; int n = c.range(1, 3);
  for (int i = 0; i < n; i++) { u32 w2 = w, h2 = h; Op o = gen_op(c, w2, h2, 24, false); if (i) s += ","; s += canon(o); }
  int m = c.range(1, 5); static const char *tok[] = {" ", ",", "(", ")", "x", "%", "+", "-", "#", "'", ".", "e", "nan", "inf", "-1", "0", "99999999999", "4294967296", "2147483648", "-2147483649", "1e3", "1e10", "1e308", "\t", "\n", "xx", "  ", "FF0000", "grayscale", "crop 1x1", "é", "\"", "\\", "%s%n", "0x10", "1e-300"};
  for (int i = 0; i < m; i++) { size_t p = c.draw(s.size() + 1); int k = c.draw(3); if (k == 0 && p < s.size()) s.erase(p, c.range(1, 3)); else if (k == 1) s.insert(p, tok[c.draw(36)]); else if (p < s.size()) s[p] = (char)c.range(32, 126); }
  // work that is merely large (not wrong) is kept out: sizes and radii of many digits
  { std::string run; long cost = 0; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && isdigit((u8)s[i])) run += s[i]; else { if (run.size() == 4 || run.size() == 5 || run.size() == 6 || run.size() == 7 || run.size() == 8) cost = 1; run.clear(); } } if (cost && (s.find("resize") != std::string::npos || s.find("border") != std::string::npos || s.find("blur") != std::string::npos || s.find("extract_document_to") != std::string::npos)) throw Discard(); if (s.find("e") != std::string::npos && s.find("1e3") != std::string::npos) throw Discard(); }
  if (s.find('\0') != std::string::npos) throw Discard();
  std::string name, before; bool pre; std::string out = prep_out(c, name, before, pre); spew(workdir() + "/in.png", png_encode(a)); c.note("flatcv in.png '" + s + "' on " + show(a)); c.nontrivial(); RunRes r = cli({"in.png", s, name}, 40); bool ok = cli_ok(r, "flatcv in.png '" + s + "'"); c.label(ok ? "mutated: accepted" : "mutated: rejected");
  if (ok) { u32 W = 0, H = 0; REQUIRE_F(reported_dims(r, W, H), "no size reported"); std::string f = slurp(out); if (name != "out.jpg") { Img q = png_decode(f, "output"); REQUIRE_F(q.w == W && q.h == H, "reported size differs from the file"); } else REQUIRE_F(f.size() > 4 && f.compare(0, 2, "\xff\xd8") == 0 && f.compare(f.size() - 2, 2, "\xff\xd9") == 0, "incomplete JPEG"); }
  else { REQUIRE_F((r.err + r.out).find("rror") != std::string::npos, "rejected without a message"); if (pre) REQUIRE_F(slurp(out) == before, "a failing command changed the existing output file"); else REQUIRE_F(!exists(out), "a failing command created an output file"); }
}
Property property() {
  setenv("ASAN_OPTIONS", (std::string(getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "") + ":max_allocation_size_mb=300").c_str(), 1);
  return {"C23", "Invalid operations of 14 kinds inserted at any place of valid pipelines; mutated pipeline texts; truncated, bit-damaged and spliced PNG (checksums repaired), JPEG, BMP, PPM, TGA, GIF files and garbage; unreadable inputs; incomplete command lines; unwritable outputs including a simulated full disk at every byte. Oracle: exit status 0 with a complete decodable image of the reported size, or 1 with a message and no (changed) output; sanitizer build. Non-trivial: every case.",
    {{"invalid", invalid, 2500, 50000}, {"mutated", mutated, 1500, 60000}, {"corrupt", corrupt, 1500, 80000}, {"unreadable", unreadable, 120, 1500}, {"usage", usage, 120, 1500}, {"unwritable", unwritable, 400, 6000}, {"oversize", oversize, 60, 900}, {"memory", memory, 500, 12000}}, {"undefined arithmetic (not memory errors) inside the vendored stb_image headers is not checked"}};
}
