#include "cli.hpp"
static u32 coord(Case &c, u32 n) { // coordinate biased to boundaries and wrap-around values
  switch (c.pick({5, 3, 2, 2})) {
    case 0: return c.range(0, n);
    case 1: return (u32)c.range(0, 3) + (n > 2 ? n - 2 : 0);
    case 2: return c.oneof<u32>({0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000u, 0xffffu, 0x40000000u});
    default: return (u32)(0u - (u32)c.range(0, n + 2)); // wraps when a size is added
  }
}
static void rect(Case &c) {
  u32 ch = c.oneof<u32>({4, 1, 3, 2, 5, 8}); Img a = gen_img(c, ch, 20000);
  u32 x, y, w, h;
  if (c.pick({5, 4}) == 0) { x = c.draw(a.w); y = c.draw(a.h); w = c.range(1, a.w - x); h = c.range(1, a.h - y); }
  else { x = coord(c, a.w); y = coord(c, a.h); w = coord(c, a.w); h = coord(c, a.h); if (c.coin()) { if (c.coin()) { y = 0; h = a.h; } else { x = 0; w = a.w; } } }
  c.note(fmt("crop %ux%u+%u+%u of %s", w, h, x, y, show(a).c_str()));
  bool inside = w && h && (u64)x + w <= a.w && (u64)y + h <= a.h;
  c.label(inside ? (w == a.w && h == a.h ? "whole" : "inside") : (w && h && ((u64)x + w > 0xffffffffull || (u64)y + h > 0xffffffffull)) ? "wrap-around" : "outside or empty");
  c.nontrivial(!inside || (multi_valued(a) && (w < a.w || h < a.h)));
  Buf b(a); u8 *r = fcv_crop(a.w, a.h, ch, b.p, x, y, w, h);
  REQUIRE_F(b.same(a.d), "input modified");
  if (!inside) { bool got = r != nullptr; free(r); REQUIRE_F(!got, "rectangle %ux%u+%u+%u outside a %ux%u image was accepted", w, h, x, y, a.w, a.h); return; }
  Img o = take(r, w, h, ch, "fcv_crop");
  Img e = ref_map(a, w, h, [&](u32 px, u32 py) { return std::make_pair(px + x, py + y); });
  cmp_img(o, e, "crop");
}
// cropping a crop = cropping once
static void compose(Case &c) {
  u32 ch = c.oneof<u32>({4, 1, 3}); Img a = gen_img(c, ch, 8000);
  u32 x = c.draw(a.w), y = c.draw(a.h), w = c.range(1, a.w - x), h = c.range(1, a.h - y), x2 = c.draw(w), y2 = c.draw(h), w2 = c.range(1, w - x2), h2 = c.range(1, h - y2);
  c.note(fmt("%ux%u+%u+%u then %ux%u+%u+%u of %s", w, h, x, y, w2, h2, x2, y2, show(a).c_str())); c.nontrivial(multi_valued(a));
  Buf b(a); Img o = take(fcv_crop(a.w, a.h, ch, b.p, x, y, w, h), w, h, ch, "crop"); Buf b2(o);
  Img p = take(fcv_crop(w, h, ch, b2.p, x2, y2, w2, h2), w2, h2, ch, "crop"), q = take(fcv_crop(a.w, a.h, ch, b.p, x + x2, y + y2, w2, h2), w2, h2, ch, "crop");
  cmp_img(p, q, "crop of crop");
}
static void big(Case &c) {
  u32 w = c.range(1000, 6000), h = c.range(1000, 4000); Img a; a.w = w; a.h = h; a.d.resize(a.n() * 4); u32 *q = (u32 *)a.d.data(); for (size_t i = 0; i < a.n(); i++) q[i] = (u32)((i * 0x9e3779b97f4a7c15ull) >> 31);
  u32 x = c.draw(w), y = c.draw(h), cw = c.range(1, w - x), chh = c.range(1, h - y); if (c.coin()) { cw = w - x; chh = h - y; }
  c.note(fmt("%ux%u+%u+%u of %ux%u", cw, chh, x, y, w, h)); c.nontrivial(); c.label("big");
  Buf b(a); Img o = take(fcv_crop(w, h, 4, b.p, x, y, cw, chh), cw, chh, 4, "crop");
  for (u32 r = 0; r < chh; r++) REQUIRE_F(!memcmp(o.px(0, r), a.px(x, y + r), (size_t)cw * 4), "row %u differs", r);
}
static void command(Case &c) {
  Img a = gen_img(c, 4, 1500, c.coin());
  i64 x = c.pick({3, 1, 1}) == 0 ? (i64)c.draw(a.w + 2) : c.coin() ? -(i64)c.draw(20) : (i64)c.oneof<int>({2147483647, 1000000}), y = c.pick({4, 1}) == 0 ? (i64)c.draw(a.h + 2) : -(i64)c.draw(20);
  u32 w = c.pick({4, 1}) == 0 ? c.range(1, a.w + 3) : c.oneof<u32>({4294967295u, 2147483648u, 65536, 100000}), h = c.pick({4, 1}) == 0 ? c.range(1, a.h + 3) : c.oneof<u32>({4294967295u, 100000});
  int form = c.pick({6, 1, 1}); std::string g = fmt("%ux%u", w, h); if (form != 1) g += fmt("%+lld", (long long)x); else x = 0; if (form == 0) g += fmt("%+lld", (long long)y); else y = 0;
  i64 ex = std::max<i64>(0, x), ey = std::max<i64>(0, y); bool ok = ex < a.w && ey < a.h;
  c.note(fmt("flatcv crop %s on %s", g.c_str(), show(a).c_str())); c.label(ok ? "cli inside" : "cli outside"); c.nontrivial(multi_valued(a) || !ok);
  Img o; bool got = cli_pipe(a, {"crop", g}, o);
  REQUIRE_F(got == ok, "crop %s on %ux%u: %s", g.c_str(), a.w, a.h, got ? "accepted although it starts outside" : "rejected although it starts inside");
  if (!ok) return;
  u32 cw = std::min<u64>(w, a.w - ex), chh = std::min<u64>(h, a.h - ey);
  cmp_img(o, ref_map(a, cw, chh, [&](u32 px, u32 py) { return std::make_pair((u32)(px + ex), (u32)(py + ey)); }), "command-line crop");
}
static void longcrop(Case &c) { // offsets beyond 16 bits on the command line
  u32 L = c.range(65000, 140000), t = c.range(1, 3); bool tall = c.coin(); Img a; a.w = tall ? t : L; a.h = tall ? L : t; a.d.resize(a.n() * 4); for (size_t i = 0; i < a.n(); i++) { u32 v = (u32)((i * 0x9e3779b97f4a7c15ull) >> 31); memcpy(&a.d[i * 4], &v, 4); }
  u32 x = c.coin() ? c.draw(a.w) : a.w - std::min(a.w, (u32)c.range(1, 40)), y = c.coin() ? c.draw(a.h) : a.h - std::min(a.h, (u32)c.range(1, 40)); if (tall && t > 1) x = c.draw(t); if (!tall && t > 1) y = c.draw(t); if (tall) x = std::min(x, t - 1); else y = std::min(y, t - 1);
  u32 w = c.coin() ? c.range(1, a.w - x) : c.oneof<u32>({65535, 65536, 65537, 1, 131072}), h = c.coin() ? c.range(1, a.h - y) : c.oneof<u32>({65535, 65536, 65537, 1, 131072}); std::string g = fmt("%ux%u+%u+%u", w, h, x, y);
  c.note(fmt("flatcv crop %s on %ux%u", g.c_str(), a.w, a.h)); c.nontrivial(); c.label("long cli"); Img o; REQUIRE_F(cli_pipe(a, {"crop", g}, o), "crop %s of %ux%u was rejected", g.c_str(), a.w, a.h);
  u32 cw = std::min<u64>(w, a.w - x), chh = std::min<u64>(h, a.h - y); cmp_img(o, ref_map(a, cw, chh, [&](u32 px, u32 py) { return std::make_pair(px + x, py + y); }), "command-line crop");
}
static void strips(Case &c) { Strips s; rect(c); c.label("strip"); }
Property property() {
  return {"C02", "Random images with 1-8 channels and rectangles drawn inside, at the edge, outside and with wrapping 32-bit sums; model copies the rectangle pixel by pixel; outside rectangles must be rejected. CLI geometry strings are run through the real binary. Non-trivial: a proper sub-rectangle of a non-constant image, or a rectangle that must be rejected.",
    {{"rect", rect, 40000, 600000}, {"compose", compose, 8000, 100000}, {"big", big, 24, 300}, {"command", command, 1200, 20000}, {"strips", strips, 400, 6000}, {"longcrop", longcrop, 30, 600}}, {"images up to 24 megapixels"}};
}
