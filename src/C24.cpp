#include "pipe.hpp"
static Img net_zero_in(Case &c, u64 px = 2500) { return gen_img(c, 4, px, c.coin()); }
static bool runfile(const std::string &in, const std::vector<std::string> &ops, Img &out, RunRes *rr = nullptr) { std::string o = workdir() + "/o.png"; unlink(o.c_str()); std::vector<std::string> a{in}; for (auto &x : ops) a.push_back(x); a.push_back("o.png"); RunRes r = cli(a); if (rr) *rr = r; if (!cli_ok(r, "flatcv " + join(a))) return false; out = to_rgba(png_decode(slurp(o), "o.png")); return true; }
// ---- PNG of every colour type, with the standard meaning of its samples
struct Enc { std::string file; Img want; std::string what; };
static Enc gen_png(Case &c) {
  Enc e; u32 w, h; gen_size(c, w, h, 900); struct CT { int ct, depth; }; static const CT T[] = {{6, 8}, {2, 8}, {0, 8}, {4, 8}, {3, 8}, {6, 16}, {2, 16}, {0, 16}, {4, 16}, {3, 4}, {3, 2}, {3, 1}, {0, 4}, {0, 2}, {0, 1}}; CT t = T[c.draw(15)]; int nch = t.ct == 6 ? 4 : t.ct == 2 ? 3 : t.ct == 4 ? 2 : 1; bool inter = c.chance(1, 3), trns = (t.ct == 0 || t.ct == 2 || t.ct == 3) && c.chance(1, 2); u32 mx = (1u << t.depth) - 1; Rng r(c.draw(1 << 30)); int style = c.draw(4); u32 npal = t.ct == 3 ? 1 + r.below(std::min<u32>(256, mx + 1)) : 0;
  std::vector<u32> s((size_t)w * h * nch); for (size_t i = 0; i < s.size(); i++) { u32 v = style == 0 ? r.next() & mx : style == 1 ? (u32)((i / nch % w * 7 + i / nch / w * 3) * (mx > 255 ? 257 : 1)) & mx : style == 2 ? (r.below(3) ? mx : 0) : (u32)(r.below(4) * (mx / 3)); if (t.ct == 3) v %= npal; s[i] = v; }
  std::string extra; u8 pal[256][4]; u32 key[3] = {0, 0, 0};
  if (t.ct == 3) { std::string p; for (u32 i = 0; i < npal; i++) { for (int k = 0; k < 3; k++) { pal[i][k] = (u8)r.next(); p += (char)pal[i][k]; } pal[i][3] = 255; } chunk(extra, "PLTE", p); if (trns) { u32 n = 1 + r.below(npal); std::string q; for (u32 i = 0; i < n; i++) { pal[i][3] = r.below(3) ? (u8)r.next() : 0; q += (char)pal[i][3]; } chunk(extra, "tRNS", q); } }
  else if (trns) { size_t px = r.below((size_t)w * h); std::string q; for (int k = 0; k < nch; k++) { key[k] = s[px * nch + k]; q += (char)(key[k] >> 8); q += (char)key[k]; } chunk(extra, "tRNS", q); }
  if (c.chance(1, 4)) { std::string g; be32(g, 45455); std::string x; chunk(x, "gAMA", g); extra = x + extra; } if (c.chance(1, 4)) { std::string x; chunk(x, "tEXt", std::string("Title\0some text", 15)); extra = x + extra; }
  Img &a = e.want; a.w = w; a.h = h; a.d.resize((size_t)w * h * 4); for (size_t i = 0; i < (size_t)w * h; i++) { u8 *o = &a.d[i * 4]; auto sc = [&](u32 v) -> u8 { return t.depth == 16 ? v >> 8 : t.depth == 8 ? v : v * 255 / mx; }; if (t.ct == 3) memcpy(o, pal[s[i]], 4); else { bool isk = trns; for (int k = 0; k < nch; k++) if (s[i * nch + k] != key[k]) isk = false; if (nch <= 2) o[0] = o[1] = o[2] = sc(s[i * nch]); else for (int k = 0; k < 3; k++) o[k] = sc(s[i * nch + k]); o[3] = nch == 4 ? sc(s[i * 4 + 3]) : nch == 2 ? sc(s[i * 2 + 1]) : isk ? 0 : 255; } }
  std::string raw; int bpp = std::max(1, nch * t.depth / 8); auto pass = [&](u32 x0, u32 y0, u32 dx, u32 dy) { u32 pw = w > x0 ? (w - x0 + dx - 1) / dx : 0, ph = h > y0 ? (h - y0 + dy - 1) / dy : 0; if (!pw || !ph) return; std::string prev; for (u32 y = 0; y < ph; y++) { std::string l; u32 acc = 0; int nb = 0; for (u32 x = 0; x < pw; x++) for (int k = 0; k < nch; k++) { u32 v = s[((size_t)(y0 + y * dy) * w + x0 + x * dx) * nch + k]; if (t.depth == 16) { l += (char)(v >> 8); l += (char)v; } else if (t.depth == 8) l += (char)v; else { acc = acc << t.depth | v; nb += t.depth; if (nb == 8) { l += (char)acc; acc = 0; nb = 0; } } } if (nb) l += (char)(acc << (8 - nb)); if (prev.empty()) prev.assign(l.size(), 0); int f = (int)r.below(5); raw += (char)f; for (size_t i = 0; i < l.size(); i++) { int A = i >= (size_t)bpp ? (u8)l[i - bpp] : 0, B = (u8)prev[i], C = i >= (size_t)bpp ? (u8)prev[i - bpp] : 0; raw += (char)((u8)l[i] - (f == 0 ? 0 : f == 1 ? A : f == 2 ? B : f == 3 ? (A + B) / 2 : paeth(A, B, C))); } prev = l; } };
  if (inter) { static const int X[] = {0, 4, 0, 2, 0, 1, 0}, Y[] = {0, 0, 4, 0, 2, 0, 1}, DX[] = {8, 8, 4, 4, 2, 2, 1}, DY[] = {8, 8, 8, 4, 4, 2, 2}; for (int i = 0; i < 7; i++) pass(X[i], Y[i], DX[i], DY[i]); } else pass(0, 0, 1, 1);
  std::string f("\x89PNG\r\n\x1a\n", 8), ih; be32(ih, w); be32(ih, h); ih += (char)t.depth; ih += (char)t.ct; ih += '\0'; ih += '\0'; ih += (char)inter; chunk(f, "IHDR", ih); f += extra; std::string z = deflate_(raw, c.oneof<int>({1, 6, 0, 9})); int parts = c.range(1, 4); size_t p = 0; for (int i = 0; i < parts; i++) { size_t n = i + 1 == parts ? z.size() - p : (z.size() - p) / 2; chunk(f, "IDAT", z.substr(p, n)); p += n; } chunk(f, "IEND", ""); e.file = f; e.what = fmt("PNG %ux%u colour type %d, %d bit%s%s", w, h, t.ct, t.depth, inter ? ", interlaced" : "", trns ? ", transparency" : ""); return e;
}
static Enc gen_raw(Case &c) { // uncompressed formats
  Enc e; int k = c.draw(6); Img a = gen_img(c, 4, 900, true); u32 w = a.w, h = a.h; std::string s; auto le = [&](u32 v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); }; Img b = a;
  if (k == 0) { for (size_t i = 0; i < b.n(); i++) b.d[i * 4 + 3] = 255; bool top = c.coin(); u32 st = (w * 3 + 3) / 4 * 4; s = "BM"; le(54 + st * h, 4); le(0, 4); le(54, 4); le(40, 4); le(w, 4); le(top ? (u32) - (int)h : h, 4); le(1, 2); le(24, 2); le(0, 4); le(st * h, 4); le(2835, 4); le(2835, 4); le(0, 4); le(0, 4); for (u32 y = 0; y < h; y++) { u32 yy = top ? y : h - 1 - y; std::string l; for (u32 x = 0; x < w; x++) for (int q = 2; q >= 0; q--) l += (char)a.px(x, yy)[q]; l.resize(st); s += l; } e.what = fmt("BMP %ux%u 24 bit%s", w, h, top ? " top-down" : ""); }
  else if (k == 1) { for (size_t i = 0; i < b.n(); i++) b.d[i * 4 + 3] = 255; s = fmt("P6\n%s%u %u\n255\n", c.coin() ? "# comment\n" : "", w, h); for (size_t i = 0; i < a.n(); i++) s.append((const char *)&a.d[i * 4], 3); e.what = fmt("PPM %ux%u", w, h); }
  else if (k == 2) { s = fmt("P5 %u %u 255 ", w, h); s.back() = '\n'; for (size_t i = 0; i < a.n(); i++) { s += (char)a.d[i * 4]; b.d[i * 4 + 1] = b.d[i * 4 + 2] = a.d[i * 4]; b.d[i * 4 + 3] = 255; } e.what = fmt("PGM %ux%u", w, h); }
  else { bool alpha = k == 3, rle = k == 5, top = c.coin(); int bpp = alpha || rle ? 4 : 3; s = std::string(18, 0); s[2] = rle ? 10 : 2; s[12] = w & 255; s[13] = w >> 8; s[14] = h & 255; s[15] = h >> 8; s[16] = bpp * 8; s[17] = (bpp == 4 ? 8 : 0) | (top ? 0x20 : 0); for (u32 y = 0; y < h; y++) { u32 yy = top ? y : h - 1 - y; u32 x = 0; auto px = [&](u32 q) { s += (char)a.px(q, yy)[2]; s += (char)a.px(q, yy)[1]; s += (char)a.px(q, yy)[0]; if (bpp == 4) s += (char)a.px(q, yy)[3]; }; if (!rle) for (; x < w; x++) px(x); else while (x < w) { u32 n = 1; while (x + n < w && n < 128 && !memcmp(a.px(x, yy), a.px(x + n, yy), 4)) n++; if (n > 1) { s += (char)(0x80 | (n - 1)); px(x); x += n; } else { u32 m = 1; while (x + m < w && m < 128 && (x + m + 1 >= w || memcmp(a.px(x + m, yy), a.px(x + m + 1, yy), 4))) m++; s += (char)(m - 1); for (u32 q = 0; q < m; q++) px(x + q); x += m; } } } if (bpp == 3) for (size_t i = 0; i < b.n(); i++) b.d[i * 4 + 3] = 255; e.what = fmt("TGA %ux%u %d bit%s%s", w, h, bpp * 8, rle ? " RLE" : "", top ? " top-down" : ""); }
  e.file = s; e.want = b; return e;
}
static const char *ZERO[] = {"rotate 0", "flip_x, flip_x", "flip_y, flip_y", "rotate 90, rotate 270", "rotate 180, rotate 180", "rotate 360", "flip_x, rotate 180, flip_y", "rotate 90, flip_x, rotate 90, flip_x", "rotate -360", "rotate 720", "rotate -90, rotate 90", "rotate 90, rotate 90, rotate 90, rotate 90", "border 123456 3, crop WxH+3+3"};
static std::string zero(Case &c, const Img &a) { std::string s = ZERO[c.draw(13)]; size_t p = s.find("WxH"); if (p != std::string::npos) s.replace(p, 3, fmt("%ux%u", a.w, a.h)); return s; }
static void decode(Case &c) { bool png = c.pick({2, 1}) == 0; Enc e = png ? gen_png(c) : gen_raw(c); std::string in = "in." + c.oneof<std::string>({"png", "dat", "bmp", "tga"}), op = zero(c, e.want); spew(workdir() + "/" + in, e.file); c.note(e.what + " as " + in + ", '" + op + "'"); c.nontrivial(multi_valued(e.want)); c.label(e.what.substr(0, e.what.find(' '))); if (png) c.label(e.what.substr(e.what.find("colour"))); Img g; RunRes r; REQUIRE_F(runfile(in, {op}, g, &r), "rejected: %s", tail(r.err).c_str()); cmp_img(g, e.want, "decoded image"); }
static void lossless(Case &c) { Img a = net_zero_in(c, c.chance(1, 40) ? 200000 : 3000); std::string op = zero(c, a), out = c.oneof<std::string>({"o.png", "o.PNG", "o", "o.dat", "o.bmp", "o.jpg.png", "d.jpg/o", "o.jpgx", "o.", ".png", "o.pngx"}); c.note("'" + op + "' to " + out + " on " + show(a)); c.nontrivial(multi_valued(a)); c.label("to " + out); std::string d = workdir(); mkdir((d + "/d.jpg").c_str(), 0755); spew(d + "/in.png", png_encode(a)); unlink((d + "/" + out).c_str()); std::vector<std::string> args{"in.png", op, out}; RunRes r = cli(args); REQUIRE_F(cli_ok(r, "flatcv " + join(args)), "rejected: %s", tail(r.err).c_str()); Img g = to_rgba(png_decode(slurp(d + "/" + out), out.c_str())); unlink((d + "/" + out).c_str()); cmp_img(g, a, "round trip"); }
static std::string make_jpeg(const Img &a, const std::string &name) { std::string d = workdir(); spew(d + "/js.png", png_encode(a)); unlink((d + "/" + name).c_str()); std::vector<std::string> args{"js.png", "rotate 0", name}; RunRes r = cli(args); REQUIRE_F(cli_ok(r, "flatcv " + join(args)), "cannot write a JPEG: %s", tail(r.err).c_str()); std::string f = slurp(d + "/" + name); REQUIRE_F(f.size() > 4 && f.compare(0, 3, "\xff\xd8\xff") == 0 && f.compare(f.size() - 2, 2, "\xff\xd9") == 0, "%s is not a complete JPEG file (%zu bytes)", name.c_str(), f.size()); return f; }
static Img smooth(Case &c, u64 px) { // pictures which JPEG can represent well
  u32 w, h; gen_size(c, w, h, px); Img a; a.w = w; a.h = h; a.d.resize((size_t)w * h * 4); double f[3], px_[3], py[3]; for (int k = 0; k < 3; k++) { f[k] = c.range(20, 235); px_[k] = c.real(-2, 2); py[k] = c.real(-2, 2); } for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { for (int k = 0; k < 3; k++) { double v = f[k] + 60 * std::sin(px_[k] * x / 12.0 + py[k] * y / 12.0); a.px(x, y)[k] = v < 0 ? 0 : v > 255 ? 255 : (u8)v; } a.px(x, y)[3] = 255; } return a; }
static double mse(const Img &a, const Img &b) { double s = 0; for (size_t i = 0; i < a.n(); i++) for (int k = 0; k < 3; k++) { double d = (double)a.d[i * 4 + k] - b.d[i * 4 + k]; s += d * d; } return s / (3.0 * a.n()); }
static void jpeg(Case &c) { Img a = smooth(c, 6000); std::string name = c.oneof<std::string>({"j.jpg", "j.jpeg", "j.JPG", "j.JPEG", "j.png.jpg"}); c.note("JPEG " + name + " of " + show(a)); c.nontrivial(multi_valued(a)); c.label("to " + name); make_jpeg(a, name); Img g; REQUIRE_F(runfile(name, {"rotate 0"}, g), "the written JPEG cannot be read back"); REQUIRE_F(g.w == a.w && g.h == a.h, "JPEG has size %ux%u instead of %ux%u", g.w, g.h, a.w, a.h); for (size_t i = 0; i < g.n(); i++) REQUIRE_F(g.d[i * 4 + 3] == 255, "JPEG with transparency"); double m = mse(a, g), l = 0; for (size_t i = 0; i < a.n(); i++) { double q = luma(a.d[i * 4], a.d[i * 4 + 1], a.d[i * 4 + 2]) - luma(g.d[i * 4], g.d[i * 4 + 1], g.d[i * 4 + 2]); l += q * q; } l /= a.n(); REQUIRE_F(m < 150, "mean squared error %.1f", m); REQUIRE_F(l < 12, "mean squared brightness error %.1f", l); for (size_t i = 0; i < a.d.size(); i++) REQUIRE_F(abs((int)a.d[i] - (int)g.d[i]) <= 90, "value %u became %u at byte %zu", a.d[i], g.d[i], i); }
static void flat(Case &c) { // one colour: nothing to compress, so all pixels must be close
  u32 w, h; gen_size(c, w, h, 3000); Img a; a.w = w; a.h = h; u8 q[4] = {gen_byte(c), gen_byte(c), gen_byte(c), 255}; for (size_t i = 0; i < (size_t)w * h; i++) a.d.insert(a.d.end(), q, q + 4); c.note("one-coloured JPEG of " + show(a)); c.nontrivial(); c.label("one colour"); make_jpeg(a, "j.jpg"); Img g; REQUIRE_F(runfile("j.jpg", {"flip_x"}, g), "the written JPEG cannot be read back"); REQUIRE_F(g.w == w && g.h == h, "wrong size"); for (size_t i = 0; i < a.d.size(); i++) REQUIRE_F(abs((int)a.d[i] - (int)g.d[i]) <= 6, "colour value %u became %u", a.d[i], g.d[i]); }
static std::string exif_seg(Case &c, int v, bool tag) { bool l = c.coin(); auto u2 = [&](u32 x) { std::string s; s += (char)(l ? x : x >> 8); s += (char)(l ? x >> 8 : x); return s; }; auto u4 = [&](u32 x) { return l ? u2(x & 0xffff) + u2(x >> 16) : u2(x >> 16) + u2(x & 0xffff); }; std::string t = l ? "II" : "MM"; t += u2(42) + u4(8); int b = c.draw(3); t += u2(b + tag); for (int i = 0; i < b; i++) t += u2(0x010f + i) + u2(4) + u4(1) + u4(c.draw(1000)); if (tag) t += u2(0x112) + u2(3) + u4(1) + u2(v) + u2(0); t += u4(0); t = std::string("Exif\0\0", 6) + t; std::string s("\xff\xe1", 2); s += (char)((t.size() + 2) >> 8); s += (char)(t.size() + 2); return s + t; }
static Img upright(const Img &a, int v) { switch (v) { case 2: return R_flipx(a); case 3: return R_rot180(a); case 4: return R_flipy(a); case 5: return R_transpose(a); case 6: return R_rot90(a); case 7: return R_transverse(a); case 8: return R_rot270(a); } return a; }
static void exif(Case &c) {
  Img a = smooth(c, 2500); std::string f = make_jpeg(a, "j.jpg"); Img plain; REQUIRE_F(runfile("j.jpg", {"rotate 0"}, plain), "the written JPEG cannot be read back");
  int v = c.range(1, 8); if (c.chance(1, 10)) v = c.oneof<int>({0, 9, 255, 0x600}); bool tag = !c.chance(1, 10); std::string ext = c.oneof<std::string>({"jpg", "jpeg", "JPG", "JPEG"}), ins = f.substr(0, 2); bool after = c.coin(); std::string rest = f.substr(2); if (after && rest.size() > 4 && (u8)rest[1] == 0xe0) { size_t n = ((u8)rest[2] << 8 | (u8)rest[3]) + 2; ins += rest.substr(0, n); rest = rest.substr(n); } std::string g = ins + exif_seg(c, v, tag) + rest; std::string in = c.oneof<std::string>({"e.", "e.", "e.v2.", "./e.", "a.b/e.", "my photo.", "."}) + ext; mkdir((workdir() + "/a.b").c_str(), 0755); spew(workdir() + "/" + in, g); c.note(fmt("JPEG with EXIF orientation %d%s as %s on ", v, tag ? "" : " (absent)", in.c_str()) + show(a)); c.nontrivial(tag && v >= 2 && v <= 8); c.label(tag ? fmt("orientation %d", v) : "no orientation"); Img want = upright(plain, tag && v >= 2 && v <= 8 ? v : 1), out; RunRes r;
  // a pipeline whose effect depends on the orientation being applied first
  int k = c.draw(4); std::string op = k == 0 ? "rotate 0" : k == 1 ? fmt("crop %ux%u", (want.w + 1) / 2, (want.h + 1) / 2) : k == 2 ? "flip_x" : "rotate 90"; if (k == 1) { Img q; q.w = (want.w + 1) / 2; q.h = (want.h + 1) / 2; for (u32 y = 0; y < q.h; y++) q.d.insert(q.d.end(), want.px(0, y), want.px(0, y) + q.w * 4); want = q; } if (k == 2) want = R_flipx(want); if (k == 3) want = R_rot90(want);
  REQUIRE_F(runfile(in, {op}, out, &r), "rejected: %s", tail(r.err).c_str()); cmp_img(out, want, "upright image");
  if (c.chance(1, 4)) { spew(workdir() + "/js.png", png_encode(a)); RunRes q = cli({in, "rotate 0", "k.jpg"}); REQUIRE_F(cli_ok(q, "EXIF to JPEG"), "cannot rewrite"); Img two; REQUIRE_F(runfile("k.jpg", {"rotate 0"}, two), "cannot read back"); Img up = upright(plain, tag && v >= 2 && v <= 8 ? v : 1); REQUIRE_F(two.w == up.w && two.h == up.h, "rewriting an oriented JPEG applies the orientation twice or not at all"); REQUIRE_F(mse(two, up) < 250, "rewriting an oriented JPEG shows another picture"); c.label("rewritten JPEG"); }
}
Property property() {
  return {"C24", "PNG inputs of all 15 colour type/depth combinations, all row filters, Adam7, palettes, tRNS, split IDAT; BMP (both row orders), PPM, PGM, TGA (24/32 bit, RLE, both row orders), written by an independent encoder; outputs read by an independent PNG decoder after pipelines of net effect zero; 11 output names; JPEG output (smooth and one-coloured pictures) read back by the tool; EXIF segments of both byte orders inserted into JPEGs, orientations 1-8 and invalid. Non-trivial: more than one colour / real orientation.",
    {{"decode", decode, 2000, 60000}, {"lossless", lossless, 1000, 20000}, {"jpeg", jpeg, 600, 10000}, {"flat", flat, 300, 6000}, {"exif", exif, 800, 15000}}, {"JPEG decoding itself is only checked against the tool's own encoder and by error bounds"}};
}
