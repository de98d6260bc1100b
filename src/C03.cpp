#include "img.hpp"
static std::string hexcol(Case &c, u8 rgb[3]) { for (int i = 0; i < 3; i++) rgb[i] = gen_byte(c); bool up = c.coin(), hash = c.coin(); return fmt(up ? "%s%02X%02X%02X" : "%s%02x%02x%02x", hash ? "#" : "", rgb[0], rgb[1], rgb[2]); }
static void model(Case &c) {
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 6000, c.coin()); u8 col[3]; std::string hx = hexcol(c, col);
  u32 b = c.pick({5, 3, 1}) == 0 ? c.range(1, 8) : c.coin() ? c.range(1, 40) : c.range(1, 250);
  c.note(fmt("border %s %u on %s", hx.c_str(), b, show(a).c_str())); c.nontrivial(multi_valued(a)); c.label(fmt("%u channels", ch));
  Buf in(a); u32 ow = 77, oh = 77; Img o; { u8 *r = fcv_add_border(a.w, a.h, ch, hx.c_str(), b, in.p, &ow, &oh); REQUIRE_F(r, "no image"); REQUIRE_F(ow == a.w + 2 * b && oh == a.h + 2 * b, "size %ux%u for %ux%u border %u", ow, oh, a.w, a.h, b); o = take(r, ow, oh, ch, "add_border"); }
  REQUIRE_F(in.same(a.d), "input modified");
  double gray = 0.299 * col[0] + 0.587 * col[1] + 0.114 * col[2];
  for (u32 y = 0; y < oh; y++) for (u32 x = 0; x < ow; x++) {
    const u8 *p = o.px(x, y); bool inner = x >= b && x < b + a.w && y >= b && y < b + a.h;
    if (inner) { REQUIRE_F(!memcmp(p, a.px(x - b, y - b), ch), "image pixel (%u,%u) changed", x - b, y - b); }
    else if (ch == 1) REQUIRE_F(fabs(p[0] - gray) <= 1.0 + 1e-9, "border gray %u, colour has %.2f", p[0], gray);
    else { REQUIRE_F(p[0] == col[0] && p[1] == col[1] && p[2] == col[2], "border pixel (%u,%u) is %02x%02x%02x, not %s", x, y, p[0], p[1], p[2], hx.c_str()); if (ch == 4) REQUIRE_F(p[3] == 255, "border pixel (%u,%u) has alpha %u", x, y, p[3]); }
    if (!inner && ch == 1) REQUIRE_F(p[0] == o.d[0], "one-channel border is not uniform");
  }
}
// crop gives the image back; trim gives it back when the frame cannot be confused with it
static void roundtrip(Case &c) {
  u32 ch = c.oneof<u32>({4, 3, 1}); Img a = gen_img(c, ch, 3000, c.coin()); u8 col[3]; std::string hx = hexcol(c, col); u32 b = c.range(1, 12);
  c.note(fmt("border %s %u on %s", hx.c_str(), b, show(a).c_str()));
  Buf in(a); u32 ow, oh; u8 *r = fcv_add_border(a.w, a.h, ch, hx.c_str(), b, in.p, &ow, &oh); Img o = take(r, a.w + 2 * b, a.h + 2 * b, ch, "add_border"); Buf ob(o);
  cmp_img(take(fcv_crop(o.w, o.h, ch, ob.p, b, b, a.w, a.h), a.w, a.h, ch, "crop"), a, "cropping the border off");
  i32 tw = o.w, th = o.h; u8 *t = fcv_trim(&tw, &th, ch, ob.p); REQUIRE_F(t, "trim failed"); i32 aw = a.w, ah = a.h; u8 *t2 = fcv_trim(&aw, &ah, ch, in.p); Out d1(t), d2(t2); REQUIRE_F(t2, "trim failed");
  // the image has no uniform edge of its own: trimming the bordered image restores it
  if ((u32)aw == a.w && (u32)ah == a.h && a.w > 1 && a.h > 1) { c.nontrivial(); c.label("trim restores"); REQUIRE_F((u32)tw == a.w && (u32)th == a.h && !memcmp(t, a.d.data(), a.d.size()), "trimming the bordered image gives %dx%d, not the %ux%u original", tw, th, a.w, a.h); }
}
static void reject(Case &c) {
  Img a = gen_img(c, 4, 64); Buf in(a); u32 ow = 5, oh = 5;
  u32 b = c.oneof<u32>({0x80000000u, 0xffffffffu, 0x7fffffffu, 0xfffffffeu, 0x7ffffffeu, 0x80000001u, 0xc0000000u}); if (c.coin()) b -= c.draw(2);
  bool over = (u64)a.w + 2ull * b > 0xffffffffull || (u64)a.h + 2ull * b > 0xffffffffull; if (!over) throw Discard();
  c.note(fmt("border width %u on %ux%u", b, a.w, a.h)); c.nontrivial(); c.label("overflow");
  u8 *r = fcv_add_border(a.w, a.h, 4, "ff0000", b, in.p, &ow, &oh); bool got = r != nullptr; free(r); REQUIRE_F(!got, "border width %u on %ux%u must be rejected", b, a.w, a.h);
}
static void big(Case &c) {
  u32 w = c.range(800, 3000), h = c.range(800, 3000), b = c.range(1, 700), ch = c.oneof<u32>({4, 3, 1}); if (c.chance(1, 3)) { w = c.range(40000, 90000); h = c.range(1, 4); b = c.range(1, 5); }
  Img a = gen_content(c, w, h, ch, true); u8 col[3]; std::string hx = hexcol(c, col); c.note(fmt("border %s %u on %s", hx.c_str(), b, show(a).c_str())); c.nontrivial(); c.label("big");
  Buf in(a); u32 ow, oh; u8 *r = fcv_add_border(w, h, ch, hx.c_str(), b, in.p, &ow, &oh); REQUIRE_F(r, "no image"); Out d(r); REQUIRE_F(ow == w + 2 * b && oh == h + 2 * b, "size");
  for (u32 y = 0; y < oh; y++) { u8 *p = r + (size_t)y * ow * ch; bool mid = y >= b && y < b + h; if (mid) REQUIRE_F(!memcmp(p + (size_t)b * ch, a.px(0, y - b), (size_t)w * ch), "row %u differs", y);
    for (u32 x = 0; x < ow; x++) if (!mid || x < b || x >= b + w) { if (ch == 1) REQUIRE_F(p[x] == r[0], "frame pixel (%u,%u)", x, y); else REQUIRE_F(p[x * ch] == col[0] && p[x * ch + 1] == col[1] && p[x * ch + 2] == col[2] && (ch == 3 || p[x * ch + 3] == 255), "frame pixel (%u,%u)", x, y); } }
}
static void strips(Case &c) { Strips s(40000); model(c); c.label("strip"); }
Property property() {
  return {"C03", "Random 1/3/4 channel images, colours and border widths; every output byte is predicted; crop/trim round trips; overflow-provoking widths must be rejected. Non-trivial: the image is not constant (model), the image has no uniform edge of its own (round trip), or the width overflows.",
    {{"model", model, 16000, 300000}, {"roundtrip", roundtrip, 8000, 150000}, {"reject", reject, 300, 3000}, {"big", big, 40, 600}, {"strips", strips, 100, 1500}}, {"the gray level of a colour on one-channel images is checked within one level", "border width 0 is not part of the domain (the library returns no image)"}};
}
