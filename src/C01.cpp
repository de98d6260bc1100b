#include "img.hpp"
typedef u8 *(*F)(u32, u32, u8 const *const);
struct Op { const char *n; F f; Img (*ref)(const Img &); bool swaps; };
static const Op OPS[] = {
  {"flip_x", fcv_flip_x, R_flipx, false}, {"flip_y", fcv_flip_y, R_flipy, false},
  {"rotate_180", fcv_rotate_180, R_rot180, false}, {"transpose", fcv_transpose, R_transpose, true},
  {"transverse", fcv_transverse, R_transverse, true}, {"rotate_90_cw", fcv_rotate_90_cw, R_rot90, true},
  {"rotate_270_cw", fcv_rotate_270_cw, R_rot270, true}};
static Img apply(const Op &o, const Img &a) {
  Buf b(a); u8 *r = o.f(a.w, a.h, b.p);
  Img out = take(r, o.swaps ? a.h : a.w, o.swaps ? a.w : a.h, 4, o.n);
  REQUIRE_F(b.same(a.d), "%s modified its input", o.n);
  return out;
}
// each operation alone against the permutation model
static void exact(Case &c) {
  const Op &o = OPS[c.draw(7)];
  Img a = gen_img(c, 4, 60000, c.coin());
  c.note(fmt("%s on %s", o.n, show(a).c_str())); c.label(o.n);
  c.nontrivial(multi_valued(a) && a.n() > 1);
  if (a.w == 1 || a.h == 1) c.label("one pixel wide or high");
  cmp_img(apply(o, a), o.ref(a), o.n);
}
// histories: random operation sequences tracked by the model
static void sequences(Case &c) {
  Img a = gen_img(c, 4, 3000, c.coin()); Img m = a; int n = c.range(1, 12); std::string s;
  for (int i = 0; i < n; i++) { const Op &o = OPS[c.draw(7)]; a = apply(o, a); m = o.ref(m); s += std::string(" ") + o.n; cmp_img(a, m, (std::string("after") + s).c_str()); }
  c.note(fmt("%s:%s", show(m).c_str(), s.c_str()));
  c.nontrivial(n >= 2 && multi_valued(m));
}
// group laws, stated without the model
static void laws(Case &c) {
  Img a = gen_img(c, 4, 8000, c.coin());
  const Op &fx = OPS[0], &fy = OPS[1], &r180 = OPS[2], &tp = OPS[3], &tv = OPS[4], &r90 = OPS[5], &r270 = OPS[6];
  c.note(show(a)); c.nontrivial(multi_valued(a));
  switch (c.draw(8)) {
    case 0: cmp_img(apply(fx, apply(fx, a)), a, "flip_x twice"); break;
    case 1: cmp_img(apply(fy, apply(fy, a)), a, "flip_y twice"); break;
    case 2: cmp_img(apply(tp, apply(tp, a)), a, "transpose twice"); break;
    case 3: cmp_img(apply(tv, apply(tv, a)), a, "transverse twice"); break;
    case 4: cmp_img(apply(r270, apply(r90, a)), a, "90 then 270"); break;
    case 5: cmp_img(apply(r90, apply(r90, apply(r90, apply(r90, a)))), a, "four quarter turns"); break;
    case 6: cmp_img(apply(fx, apply(fy, a)), apply(r180, a), "flip_x after flip_y vs rotate_180"); break;
    default: cmp_img(apply(fx, apply(tp, a)), apply(r90, a), "transpose then flip_x vs rotate_90"); break;
  }
}
// extreme aspect ratios and megapixel images
static void big(Case &c) {
  const Op &o = OPS[c.draw(7)]; u32 w, h;
  switch (c.pick({1, 1, 1})) {
    case 0: w = c.range(1, 3); h = c.range(30000, 140000); break;
    case 1: w = c.range(30000, 140000); h = c.range(1, 3); break;
    default: w = c.range(900, 2600); h = c.range(900, 2600); break;
  }
  Img a = gen_content(c, w, h, 4, true);
  c.note(fmt("%s on %s", o.n, show(a).c_str())); c.label("big"); c.nontrivial();
  cmp_img(apply(o, a), o.ref(a), o.n);
}
// one really large image per run size class (32-bit byte offsets)
static void huge(Case &c) {
  const Op &o = OPS[c.index % 7];
  u32 w = c.range(7000, 9000), h = c.range(5000, 7000);
  Img a; a.w = w; a.h = h; a.d.resize((size_t)w * h * 4);
  u64 s = mix64(c.draw(1u << 20));
  u32 *q = (u32 *)a.d.data(); for (size_t i = 0; i < a.n(); i++) q[i] = (u32)((i * 0x9e3779b97f4a7c15ull + s) >> 29);
  c.note(fmt("%s on %ux%u", o.n, w, h)); c.label("huge"); c.nontrivial();
  cmp_img(apply(o, a), o.ref(a), o.n);
}
static void strips(Case &c) { Strips s; if (c.coin()) exact(c); else laws(c); c.label("strip"); }
Property property() {
  return {"C01", "Random RGBA images (per-byte choices for tiny ones, seeded patterns otherwise) through each permutation, compared with an independent index model, plus random operation sequences and group laws. Non-trivial: the image has at least two different pixels (sequences: at least two operations).",
    {{"exact", exact, 24000, 400000}, {"sequences", sequences, 8000, 150000}, {"laws", laws, 8000, 150000}, {"big", big, 120, 2000}, {"huge", huge, 7, 28}, {"strips", strips, 120, 2000}},
    {"images up to 63 megapixels; larger ones are outside the explored domain"}};
}
