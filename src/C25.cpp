// C25: no argument makes the library touch invalid memory, crash or misbehave.
#include "api.hpp"
static Api A;

static void wild(Case &c) {
  A = api_linked();
  Call k = gen_call(c, true); c.note(k.show()); c.label(fn_name[k.fn]);
  Result r = exec(A, k, eng::scratch_dir);
  c.label(r.null ? "no result" : "result");
  c.nontrivial();
  if (k.null_img && k.img.n() && !r.null && k.fn != F_fcv_detect_corners && k.fn != F_fcv_detect_corners_ptr && k.fn != F_fcv_apply_global_threshold && !(k.fn >= F_fcv_set_circle_pixel && k.fn <= F_fcv_fill_disk_lines)) {
    if (k.fn != F_fcv_get_exif_orientation && k.fn != F_fcv_parse_hex_color && k.fn != F_fcv_calculate_perspective_transform && k.fn != F_sort_corners) FAILF("%s returned a result for a missing image", fn_name[k.fn]);
  }
}

// Sparse read/write memory of any size, surrounded by inaccessible pages, ending exactly at the end of the image.
struct Sparse {
  u8 *base = nullptr, *p = nullptr; size_t total = 0;
  explicit Sparse(size_t n) {
    size_t pg = 4096, body = (n + pg - 1) / pg * pg; total = body + 2 * (1u << 20);
    base = (u8 *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { base = nullptr; throw Discard(); }
    if (mprotect(base + (1u << 20), body, PROT_READ | PROT_WRITE)) throw Discard();
    p = base + (1u << 20) + (body - n);
  }
  ~Sparse() { if (base) munmap(base, total); }
};
// Sizes whose 32-bit (or signed 32-bit) products wrap around, often to something small.
static void gen_huge(Case &c, u64 &w, u64 &h, u64 maxbytes, u64 per) {
  for (int t = 0; t < 20; t++) {
    w = c.pick({3, 2, 1}) == 0 ? c.oneof<u64>({65536, 32768, 46341, 40000, 65535, 65537, 1u << 20, 1u << 24, 23171, 16384}) : c.range(2, 200000);
    if (c.chance(1, 8)) w = c.oneof<u64>({1, 2, 3, 4});
    int m = c.range(28, 35); h = ((1ull << m) + w - 1) / w + (c.coin() ? c.range(0, 3) : 0);
    if (c.coin()) std::swap(w, h);
    if (w >= 1 && h >= 1 && w < 0x7fffffff && h < 0x7fffffff && w * h * per <= maxbytes && w * h >= (1ull << 28)) return;
  }
  w = 65536; h = 65537; if (w * h * per > maxbytes) { w = 30000; h = 30000; }
}
static void huge(Case &c) { // an allocation of 256 MB and more is refused (see check.py): the call has to notice
  A = api_linked();
  int f = c.draw(28); u64 w, h; gen_huge(c, w, h, 1ull << 42, 4);
  if (c.chance(1, 6)) { w = c.oneof<u64>({0xffffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu}); h = c.range(1, 64); }
  c.note(fmt("size %llux%llu fn %d", (unsigned long long)w, (unsigned long long)h, f)); c.nontrivial(); c.label(fmt("huge-%d", f));
  u32 ch = 4; if (f == 13 || f == 14 || f == 22 || f == 23) ch = c.oneof<u32>({4, 1, 3});
  if (f == 15 || f == 16 || f == 19 || (f >= 24 && f <= 27)) ch = 1; if (f == 21) ch = 2;
  if ((f == 22 || f == 23) && (w < 2 || h < 2)) throw Discard(); // a line is trimmed to one pixel
  Sparse im((size_t)w * h * ch); u8 *p = im.p; u32 W = w, H = h; void *o = nullptr; u32 ow = 0, oh = 0;
  // no uniform edge anywhere
  for (u32 k = 0; k < ch; k++) { p[k] = 200; p[(size_t)w * h * ch - 1 - k] = 100; }
  Point2D mk[2] = {{0, 0}, {3 < w ? 3.0 : 0.0, 0}}; Corners z{}; bool expect_null = true;
  switch (f) {
    case 0: o = fcv_flip_x(W, H, p); break; case 1: o = fcv_flip_y(W, H, p); break; case 2: o = fcv_transpose(W, H, p); break; case 3: o = fcv_transverse(W, H, p); break;
    case 4: o = fcv_rotate_90_cw(W, H, p); break; case 5: o = fcv_rotate_180(W, H, p); break; case 6: o = fcv_rotate_270_cw(W, H, p); break;
    case 7: o = fcv_grayscale(W, H, p); break; case 8: o = fcv_grayscale_stretch(W, H, p); break; case 9: o = fcv_otsu_threshold_rgba(W, H, c.coin(), p); break;
    case 10: o = fcv_bw_smart(W, H, c.coin(), p); break; case 11: o = fcv_apply_gaussian_blur(W, H, c.oneof<double>({0, 0.5, 2, 30}), p); break;
    case 12: o = fcv_resize(W, H, 1, 1, &ow, &oh, p); break;
    case 13: o = fcv_add_border(W, H, ch, "#123456", c.range(1, 9), p, &ow, &oh); break;
    case 14: o = fcv_sobel_edge_detection(W, H, ch, p); break;
    case 15: o = fcv_single_to_multichannel(W, H, p); break;
    case 16: o = fcv_foerstner_corner(W, H, p, c.oneof<double>({0, 1.5, 7})); break;
    case 17: o = fcv_rgba_to_grayscale(W, H, p); break;
    case 18: o = fcv_convert_to_binary(p, W, H, "000000", "ffffff"); break;
    case 19: o = fcv_watershed_segmentation(W, H, p, mk, 2, c.coin()); break;
    case 20: o = fcv_crop(W, H, 4, p, 0, 0, W, H); break;
    case 21: { CornerPeaks *q = fcv_corner_peaks(W, H, p, 3, 0.1, 0.1); if (q) { free(q->points); } o = q; break; }
    case 22: { i32 tw = W, th = H; o = fcv_trim(&tw, &th, ch, p); break; }
    case 23: { i32 tw = W, th = H; o = fcv_trim_threshold(&tw, &th, ch, p, c.oneof<double>({0, 1, 10})); break; }
    case 24: o = fcv_binary_dilation_disk(p, W, H, c.range(0, 3)); break; case 25: o = fcv_binary_erosion_disk(p, W, H, c.range(0, 3)); break;
    case 26: o = fcv_binary_closing_disk(p, W, H, c.range(0, 3)); break; default: o = fcv_binary_opening_disk(p, W, H, c.range(0, 3)); break;
  }
  (void)z;
  if (o) { free(o); FAILF("function %d returned an image of %llux%llu pixels although an allocation of its size is impossible", f, (unsigned long long)w, (unsigned long long)h); }
}
// Small pieces of huge images: the index arithmetic has to reach every pixel.
static void far(Case &c) {
  A = api_linked();
  u64 w, h; int f = c.draw(6); u32 ch = f == 0 || f == 3 || f == 5 ? c.oneof<u32>({4, 1, 3}) : 4;
  gen_huge(c, w, h, 1ull << 42, 4); Sparse im((size_t)w * h * ch); u8 *p = im.p;
  u32 cw = std::min<u64>(w, c.range(1, 6)), chh = std::min<u64>(h, c.range(1, 6));
  u64 x = c.pick({1, 2, 1}) == 0 ? 0 : c.coin() ? w - cw : c.draw(w - cw + 1), y = c.pick({1, 3, 1}) == 0 ? 0 : c.coin() ? h - chh : c.draw(h - chh + 1);
  u64 seed = c.draw(1u << 30); Rng r(seed); Img want; want.w = cw; want.h = chh; want.ch = ch; want.d.resize(cw * chh * ch); for (u8 &b : want.d) b = r.next();
  c.note(fmt("fn %d: size %llux%llux%u region %ux%u at (%llu,%llu)", f, (unsigned long long)w, (unsigned long long)h, ch, cw, chh, (unsigned long long)x, (unsigned long long)y)); c.nontrivial(); c.label(fmt("far-%d", f));
  auto at = [&](u64 xx, u64 yy) { return p + ((size_t)yy * w + xx) * ch; };
  for (u32 j = 0; j < chh; j++) memcpy(at(x, y + j), want.px(0, j), (size_t)cw * ch);
  switch (f) {
    case 0: { Img g = take(fcv_crop(w, h, ch, p, x, y, cw, chh), cw, chh, ch, "crop"); cmp_img(g, want, "crop of a huge image"); break; }
    case 1: { Matrix3x3 m{1, 0, (double)x, 0, 1, (double)y, 0, 0, 1}; Img g = take(fcv_apply_matrix_3x3(w, h, p, cw, chh, &m), cw, chh, 4, "apply_matrix_3x3"); cmp_img(g, want, "translated part of a huge image"); break; }
    case 2: { if (x + cw == 1 && y + chh == 1) throw Discard(); // the plain half turn is shifted
      Matrix3x3 m{-1, 0, (double)(x + cw - 1), 0, -1, (double)(y + chh - 1), 0, 0, 1}; Img g = take(fcv_apply_matrix_3x3(w, h, p, cw, chh, &m), cw, chh, 4, "apply_matrix_3x3"); cmp_img(g, R_rot180(want), "turned part of a huge image"); break; }
    case 3: { u8 R = c.draw(256), G = c.draw(256), B = c.draw(256); fcv_draw_disk(w, h, ch, fmt("%02x%02x%02x", R, G, B).c_str(), 0, (double)x, (double)y, p); u8 *q = at(x, y); if (x > 0x3fffffff || y > 0x3fffffff) break;
      if (ch >= 3 && (q[0] != R || q[1] != G || q[2] != B || (ch == 4 && q[3] != 255))) FAILF("disk of radius 0 did not paint its pixel in a huge image"); break; }
    case 4: { fcv_draw_circle(w, h, 4, "102030", 2, (double)x, (double)y, p); break; }
    case 5: { fcv_set_circle_pixel(p, w, h, ch, (i32)x, (i32)y, 9, 8, 7); u8 *q = at(x, y); if (ch >= 3 && (q[0] != 9 || q[1] != 8 || q[2] != 7)) FAILF("pixel was not set"); break; }
  }
}
Property property() {
  return {"C25", "a case is non-trivial when a public function was actually called with the generated arguments (every case)",
          {{"wild", wild, 12000, 400000}, {"huge", huge, 500, 6000}, {"far", far, 3000, 60000}},
          {"allocations above 256 MB fail in this check, as on a machine with little memory", "strings are NUL-terminated and image buffers have exactly width*height*channels bytes", "the harness passes no null pointer to fcv_parse_hex_color and no null point list to sort_corners"}};
}
