// Generator of command-line pipelines together with a model made of direct library calls.
#pragma once
#include "cli.hpp"
struct Op { std::string name; std::vector<std::string> args; std::function<bool(Img &)> model; bool slow = false; };
static inline bool put(Img &a, u8 *p, u32 w, u32 h) { if (!p) return false; a.w = w; a.h = h; a.ch = 4; a.d.assign(p, p + (size_t)w * h * 4); free(p); return true; }
static inline std::string num(double v) { std::string s = fmt("%.10g", v); return s; }
// every call copies the image first, so that the library cannot see our vector
struct In { u8 *p; explicit In(const Img &a) { p = (u8 *)malloc(a.d.size() ? a.d.size() : 1); memcpy(p, a.d.data(), a.d.size()); } ~In() { free(p); } };
static inline std::string gen_color(Case &c) { std::string s; if (c.chance(1, 4)) s = "#"; for (int i = 0; i < 6; i++) s += (c.coin() ? "0123456789ABCDEF" : "0123456789abcdef")[c.draw(16)]; return s; }
// w,h: an estimate of the current size, used to draw sensible arguments
static inline Op gen_op(Case &c, u32 &w, u32 &h, u32 maxside, bool slow_ok) {
  Op o; std::vector<int> W{3, 2, 4, 2, 1, 1, 2, 3, 3, 3, 4, 2, 2, 4, 3, 1, 3, 2, 2, 2, 2}; int k = (int)c.draw(slow_ok ? 25 : 21);
  switch (k) {
    case 0: o.name = "grayscale"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_grayscale(a.w, a.h, i.p), a.w, a.h); }; break;
    case 1: { double r = c.coin() ? c.range(0, 6) : c.real(0, 8); o.name = "blur"; o.args = {num(r)}; r = atof(o.args[0].c_str()); o.model = [r](Img &a) { In i(a); return put(a, (u8 *)fcv_apply_gaussian_blur(a.w, a.h, r, i.p), a.w, a.h); }; break; }
    case 2: { o.name = "resize"; double fx, fy; int f = c.pick({3, 3, 4, 2, 2}); bool abs = false; double X = 0, Y = 0;
      auto fac = [&](u32 s) { double v = c.real(0.2, 3); if (s * v > maxside) v = (double)maxside / s; return std::floor(v * 1000) / 10; };
      if (f == 0) { double p = std::min(fac(w), fac(h)); o.args = {num(p) + "%"}; fx = fy = atof(o.args[0].c_str()) / 100.0; }
      else if (f == 1) { double p = fac(w), q = fac(h); o.args = {num(p) + "%x" + num(q) + "%"}; fx = atof(num(p).c_str()) / 100.0; fy = atof(num(q).c_str()) / 100.0; }
      else if (f == 2) { X = c.range(1, maxside); Y = c.range(1, maxside); o.args = {fmt("%dx%d", (int)X, (int)Y)}; abs = true; fx = fy = 0; }
      else if (f == 3) { double p = std::min(fac(w), fac(h)) / 100; o.args = {num(p)}; fx = fy = atof(o.args[0].c_str()); }
      else { double p = fac(w) / 100, q = fac(h) / 100; o.args = {num(p), num(q)}; fx = atof(o.args[0].c_str()); fy = atof(o.args[1].c_str()); }
      o.model = [=](Img &a) { In i(a); u32 ow = 0, oh = 0; double sx = abs ? X / (int)a.w : fx, sy = abs ? Y / (int)a.h : fy; u8 *p = (u8 *)fcv_resize(a.w, a.h, sx, sy, &ow, &oh, i.p); return put(a, p, ow, oh); };
      if (abs) { w = (u32)X; h = (u32)Y; } else { w = std::max(1u, (u32)(w * fx)); h = std::max(1u, (u32)(h * fy)); } break; }
    case 3: o.name = "threshold"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_otsu_threshold_rgba(a.w, a.h, false, i.p), a.w, a.h); }; break;
    case 4: o.name = "bw_smart"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_bw_smart(a.w, a.h, false, i.p), a.w, a.h); }; break;
    case 5: o.name = "bw_smooth"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_bw_smart(a.w, a.h, true, i.p), a.w, a.h); }; break;
    case 6: o.name = "sobel"; o.model = [](Img &a) { In i(a); u8 *g = fcv_sobel_edge_detection(a.w, a.h, 4, i.p); if (!g) return false; u8 *r = fcv_single_to_multichannel(a.w, a.h, g); free(g); return put(a, r, a.w, a.h); }; break;
    case 7: case 8: { bool disk = k == 8; o.name = disk ? "disk" : "circle"; std::string col = gen_color(c); double r = c.range(0, 20), x = c.range(-5, (i64)w + 5), y = c.range(-5, (i64)h + 5); if (c.chance(1, 4)) { x += 0.5; r += c.oneof<double>({0.25, 0.5, 0.75, 0.99}); } else if (c.chance(1, 8)) { x += c.oneof<double>({0.25, 0.99, -0.75}); y -= c.oneof<double>({0.5, 0.01}); r *= 0.37; } o.args = {col, num(r), num(x) + "x" + num(y)};
      o.model = [=](Img &a) { u8 *p = (u8 *)malloc(a.d.size()); memcpy(p, a.d.data(), a.d.size()); (disk ? fcv_draw_disk : fcv_draw_circle)(a.w, a.h, 4, col.c_str(), r, x, y, p); return put(a, p, a.w, a.h); }; break; }
    case 9: { o.name = "watershed"; int n = c.pick({4, 2}) == 0 ? c.range(1, 4) : c.range(5, 30); std::vector<Point2D> m; for (int i = 0; i < n; i++) { Point2D p{(double)c.draw(w), (double)c.draw(h)}; if (c.chance(1, 6)) p.x += 0.5; m.push_back(p); o.args.push_back(num(p.x) + "x" + num(p.y)); }
      o.model = [m](Img &a) { In i(a); u8 *g = fcv_rgba_to_grayscale(a.w, a.h, i.p); if (!g) return false; std::vector<Point2D> q = m; u8 *r = (u8 *)fcv_watershed_segmentation(a.w, a.h, g, q.data(), q.size(), false); free(g); return put(a, r, a.w, a.h); }; break; }
    case 10: { o.name = "crop"; u32 x = c.draw(w), y = c.draw(h), cw = c.range(1, w - x), chh = c.range(1, h - y); if (c.chance(1, 6)) cw += 5; o.args = {fmt("%ux%u+%u+%u", cw, chh, x, y)}; w = std::min(w - x, cw); h = std::min(h - y, chh);
      o.model = [=](Img &a) { if (x >= a.w || y >= a.h) return false; u32 ew = std::min(cw, a.w - x), eh = std::min(chh, a.h - y); In i(a); return put(a, fcv_crop(a.w, a.h, 4, i.p, x, y, ew, eh), ew, eh); }; break; }
    case 11: o.name = "flip_x"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_flip_x(a.w, a.h, i.p), a.w, a.h); }; break;
    case 12: o.name = "flip_y"; o.model = [](Img &a) { In i(a); return put(a, (u8 *)fcv_flip_y(a.w, a.h, i.p), a.w, a.h); }; break;
    case 13: { int a0 = 90 * (int)c.range(-5, 9); o.name = "rotate"; o.args = {fmt("%d", a0)}; int t = ((a0 % 360) + 360) % 360; if (t % 180) std::swap(w, h); o.model = [t](Img &a) { In i(a); if (t == 0) return true; if (t == 180) return put(a, fcv_rotate_180(a.w, a.h, i.p), a.w, a.h); return put(a, t == 90 ? fcv_rotate_90_cw(a.w, a.h, i.p) : fcv_rotate_270_cw(a.w, a.h, i.p), a.h, a.w); }; break; }
    case 14: { o.name = "trim"; int f = c.pick({3, 2, 2}); double p = 0; if (f) { p = c.pick({2, 1, 1}) == 0 ? c.range(0, 40) : c.coin() ? c.range(1, 79) / 2.0 : c.range(1, 399) / 10.0; o.args = {num(p) + (f == 1 ? "%" : "")}; p = atof(num(p).c_str()); } o.model = [=](Img &a) { In i(a); i32 tw = a.w, th = a.h; u8 *r = (u8 *)(f ? fcv_trim_threshold(&tw, &th, 4, i.p, p) : fcv_trim(&tw, &th, 4, i.p)); return put(a, r, tw, th); }; break; }
    case 15: o.name = "histogram"; w = 256; h = 200; o.model = [](Img &a) { In i(a); u32 ow = 0, oh = 0; u8 *r = fcv_generate_histogram(a.w, a.h, 4, i.p, &ow, &oh); return put(a, r, ow, oh); }; break;
    case 16: { o.name = "border"; std::string col = gen_color(c); u32 b = c.range(1, 9); o.args = {col, fmt("%u", b)}; w += 2 * b; h += 2 * b; o.model = [=](Img &a) { In i(a); u32 ow = 0, oh = 0; u8 *r = fcv_add_border(a.w, a.h, 4, col.c_str(), b, i.p, &ow, &oh); return put(a, r, ow, oh); }; break; }
    case 17: case 18: case 19: case 20: { static const char *n[] = {"erode", "dilate", "close", "open"}; int q = k - 17; double lim = std::min(512.0, (double)w + h); i32 r = c.chance(1, 20) && lim * lim * 4 * w * h < 6e7 ? c.oneof<int>({255, 256, 257, 258, 300, 512, 65536, 65539, 2147483647}) : c.range(0, 6); o.name = n[q]; o.args = {fmt("%d", r)}; o.model = [=](Img &a) { In i(a); u8 *g = fcv_rgba_to_grayscale(a.w, a.h, i.p); if (!g) return false; u8 *m = (q == 0 ? fcv_binary_erosion_disk : q == 1 ? fcv_binary_dilation_disk : q == 2 ? fcv_binary_closing_disk : fcv_binary_opening_disk)(g, a.w, a.h, r); free(g); if (!m) return false; u8 *x = fcv_single_to_multichannel(a.w, a.h, m); free(m); return put(a, x, a.w, a.h); }; break; }
    case 21: o.name = "detect_corners"; o.slow = true; o.model = [](Img &a) { return true; }; break;
    case 22: o.name = "draw_corners"; o.slow = true; o.model = [](Img &a) { In i(a); Corners k = fcv_detect_corners(i.p, a.w, a.h); double r = std::fmin(a.w, a.h) * 0.02; const double *e = &k.tl_x; for (int q = 0; q < 4; q++) fcv_draw_disk(a.w, a.h, 4, "FF0000", r, e[2 * q], e[2 * q + 1], i.p); a.d.assign(i.p, i.p + a.d.size()); return true; }; break;
    case 23: o.name = "extract_document"; o.slow = true; w = std::max(w, 100u); h = std::max(h, 100u); o.model = [](Img &a) { In i(a); u32 ow = 0, oh = 0; u8 *r = fcv_extract_document_auto(a.w, a.h, i.p, &ow, &oh); return put(a, r, ow, oh); }; break;
    default: { o.name = "extract_document_to"; o.slow = true; u32 ow = c.range(1, 100), oh = c.range(1, 100); o.args = {fmt("%ux%u", ow, oh)}; w = ow; h = oh; o.model = [=](Img &a) { In i(a); return put(a, fcv_extract_document(a.w, a.h, i.p, ow, oh), ow, oh); }; }
  }
  return o;
}
static inline std::string canon(const Op &o) { std::string s = o.name; for (auto &a : o.args) s += " " + a; return s; }
static inline std::string canon(const std::vector<Op> &v) { std::string s; for (auto &o : v) { if (!s.empty()) s += ", "; s += canon(o); } return s; }
static inline std::vector<Op> gen_pipeline(Case &c, const Img &a, int maxops, bool slow_ok, u32 maxside = 60) {
  std::vector<Op> v; u32 w = a.w, h = a.h; int n = c.range(1, maxops); int slow = 0; for (int i = 0; i < n; i++) { Op o = gen_op(c, w, h, maxside, slow_ok && slow < 1); if (o.slow) slow++; v.push_back(o); } return v; }
static inline bool run_model(const std::vector<Op> &v, Img &a, std::vector<std::pair<u32, u32>> *dims = nullptr) { for (auto &o : v) { if (!o.model(a)) return false; if (dims) dims->push_back({a.w, a.h}); } return true; }
