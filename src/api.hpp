// One generated call of any public function of the library: arguments, execution, serialised result.
// Shared by the checks that quantify over the whole API (C25..C29).
#pragma once
#include "img.hpp"

#define API_LIST(X) \
  X(fcv_binary_dilation_disk) X(fcv_binary_erosion_disk) X(fcv_binary_closing_disk) X(fcv_binary_opening_disk) \
  X(fcv_apply_gaussian_blur) X(fcv_grayscale) X(fcv_grayscale_stretch) X(fcv_apply_global_threshold) X(fcv_otsu_threshold_rgba) \
  X(fcv_bw_smart) X(fcv_resize) X(fcv_convert_to_binary) X(fcv_corner_peaks) X(fcv_crop) X(fcv_set_circle_pixel) \
  X(fcv_draw_circle) X(fcv_draw_disk) X(fcv_draw_circle_points) X(fcv_fill_disk_lines) X(fcv_add_border) \
  X(fcv_get_exif_orientation) X(fcv_extract_document) X(fcv_extract_document_auto) X(fcv_flip_x) X(fcv_flip_y) \
  X(fcv_transpose) X(fcv_transverse) X(fcv_foerstner_corner) X(fcv_generate_histogram) X(fcv_parse_hex_color) \
  X(fcv_calculate_perspective_transform) X(fcv_apply_matrix_3x3) X(fcv_detect_corners) X(fcv_detect_corners_ptr) \
  X(fcv_rgba_to_grayscale) X(fcv_rotate_90_cw) X(fcv_rotate_180) X(fcv_rotate_270_cw) X(fcv_single_to_multichannel) \
  X(fcv_sobel_edge_detection) X(sort_corners) X(fcv_trim) X(fcv_trim_threshold) X(fcv_watershed_segmentation)
enum Fn {
#define X(n) F_##n,
  API_LIST(X)
#undef X
  NFN
};
static const char *const fn_name[] = {
#define X(n) #n,
  API_LIST(X)
#undef X
};
struct Api {
#define X(n) decltype(&::n) n;
  API_LIST(X)
#undef X
};
static inline Api api_linked() {
  Api a;
#define X(n) a.n = &::n;
  API_LIST(X)
#undef X
  return a;
}

// set while control is inside a library call (used by the allocation wrappers)
static thread_local int g_inlib = 0;
struct InLib { InLib() { g_inlib++; } ~InLib() { g_inlib--; } };
template <class F> static inline auto lib(F f) { InLib g; return f(); }

static const size_t MAXOUT = 260000; // elements a generated call may produce
static u32 g_api_scale = 1; // > 1: images and point lists that many times larger
struct Larger { u32 old; explicit Larger(u32 s) : old(g_api_scale) { g_api_scale = s; } ~Larger() { g_api_scale = old; } };

struct Call {
  Fn fn = F_fcv_flip_x;
  Img img;              // image argument (w, h, ch as passed unless overridden)
  bool null_img = false, null_out = false, null_out2 = false;
  u32 u[6] = {0, 0, 0, 0, 0, 0};
  i64 i[4] = {0, 0, 0, 0};
  double d[3] = {0, 0, 0};
  bool b = false;
  std::string s, t;
  bool null_s = false, null_t = false;
  std::vector<Point2D> pts; u32 npts = 0; bool null_pts = false;
  Corners c1{}, c2{}; bool null_c1 = false, null_c2 = false;
  Matrix3x3 m{};  bool null_m = false;
  std::vector<u8> file; bool no_file = false;
  int align = 0; // offset of the image inside its buffer
  std::string show() const {
    std::string r = fmt("%s img=%s%s", fn_name[fn], null_img ? "NULL " : "", ::show(img).c_str());
    r += fmt(" u=[%u %u %u %u %u %u] i=[%lld %lld %lld %lld] d=[%g %g %g] b=%d s=%s t=%s", u[0], u[1], u[2], u[3], u[4], u[5], (long long)i[0], (long long)i[1], (long long)i[2], (long long)i[3], d[0], d[1], d[2], b, null_s ? "NULL" : s.c_str(), null_t ? "NULL" : t.c_str());
    if (npts) { r += fmt(" pts(%u)=", npts); for (size_t k = 0; k < std::min<size_t>(pts.size(), 6); k++) r += fmt("(%g,%g)", pts[k].x, pts[k].y); }
    if (fn == F_fcv_apply_matrix_3x3) r += fmt(" m=[%g %g %g; %g %g %g; %g %g %g]", m.m00, m.m01, m.m02, m.m10, m.m11, m.m12, m.m20, m.m21, m.m22);
    if (fn == F_fcv_calculate_perspective_transform) { const double *p = (const double *)&c1, *q = (const double *)&c2; r += " src="; for (int k = 0; k < 8; k++) r += fmt("%g ", p[k]); r += "dst="; for (int k = 0; k < 8; k++) r += fmt("%g ", q[k]); }
    return r;
  }
};

struct Result {
  bool null = false;       // the call returned no object
  std::vector<u8> bytes;   // everything observable
  u64 hash() const { u64 h = fnv(bytes.data(), bytes.size()); return h * 2 + null; }
  bool operator==(const Result &o) const { return null == o.null && bytes == o.bytes; }
  template <class T> void put(const T &v) { const u8 *p = (const u8 *)&v; bytes.insert(bytes.end(), p, p + sizeof v); }
  void putd(double v) { if (v != v) v = (double)NAN; put(v); } // one bit pattern for every not-a-number
  void putds(const void *p, size_t n) { for (size_t k = 0; k < n; k++) { double v; memcpy(&v, (const u8 *)p + k * 8, 8); putd(v); } }
  void put(const void *p, size_t n) { bytes.insert(bytes.end(), (const u8 *)p, (const u8 *)p + n); }
  std::string describe() const { std::string r = fmt("%s, %zu bytes:", null ? "no result" : "result", bytes.size()); for (size_t k = 0; k < std::min<size_t>(bytes.size(), 24); k++) r += fmt(" %02x", bytes[k]); return r; }
};

// ------------------------------------------------------------------ generation
static inline double wild_double(Case &c) {
  switch (c.pick({2, 4, 3, 3, 2})) {
    case 0: return c.oneof<double>({0, 1, -1, 0.5, 2, 255, 100});
    case 1: return c.oneof<double>({-0.0, 1e-320, 1e-9, 1e-3, 0.999999, 1.000001, 1000, 1000.5, 1001, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 268435455.0, 268435456.0, 1073741823.0, 1073741824.0, 1e10, 1e18, 1e19, 1e300, DBL_MAX, -1e-9, -2147483648.0, -2147483649.0, -1e18, -1e300, -DBL_MAX});
    case 2: return c.oneof<double>({(double)INFINITY, -(double)INFINITY, (double)NAN});
    case 3: return c.real(-300, 300);
    default: return c.real(0, 3);
  }
}
static inline u32 wild_u32(Case &c) {
  switch (c.pick({3, 3, 2})) {
    case 0: return c.range(0, 20);
    case 1: return c.oneof<u32>({0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, 65537, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu});
    default: return (u32)c.draw(1ull << 32);
  }
}
static inline std::string gen_hex(Case &c, bool wild) {
  if (wild && c.chance(1, 3)) { std::string s; int n = c.draw(12); for (int k = 0; k < n; k++) s += (char)(1 + c.draw(255)); return s; }
  std::string s = c.coin() ? "#" : ""; static const char *H = "0123456789abcdefABCDEF"; int n = wild && c.chance(1, 6) ? c.draw(9) : 6;
  for (int k = 0; k < n; k++) s += H[c.draw(22)];
  if (wild && c.chance(1, 8)) { static const char *pre[] = {" ", "#", "0x", "\t", "", "", "", ""}, *post[] = {"", "", "", "", " ", "0", "\n", "ff"}; int k = c.draw(8); s = pre[k] + s + post[k]; } // almost a colour
  return s;
}
static inline Point2D gen_pt(Case &c, u32 w, u32 h, bool wild) {
  if (wild && c.chance(1, 4)) return {wild_double(c), wild_double(c)};
  Point2D p{(double)c.draw(w ? w : 1), (double)c.draw(h ? h : 1)};
  if (c.chance(1, 3)) { p.x += c.real(0, 0.99); p.y += c.real(0, 0.99); }
  return p;
}
static inline Corners gen_quad(Case &c, double w, double h, bool wild) {
  double j = 0.35; auto R = [&](double a, double s) { return a + c.real(-j, j) * s; };
  Corners q; q.tl_x = R(0.3 * w, w * 0.5); q.tl_y = R(0.3 * h, h * 0.5); q.tr_x = R(0.8 * w, w * 0.4); q.tr_y = R(0.3 * h, h * 0.5);
  q.br_x = R(0.8 * w, w * 0.4); q.br_y = R(0.8 * h, h * 0.4); q.bl_x = R(0.3 * w, w * 0.5); q.bl_y = R(0.8 * h, h * 0.4);
  if (wild) { double *p = (double *)&q; int n = c.draw(5); for (int k = 0; k < n; k++) p[c.draw(8)] = wild_double(c); }
  return q;
}
static inline std::vector<u8> gen_exif(Case &c) { // small JPEG-ish files, mostly with an orientation tag
  std::vector<u8> f{0xff, 0xd8}; bool le = c.coin();
  auto p16 = [&](std::vector<u8> &v, u32 x) { if (le) { v.push_back(x); v.push_back(x >> 8); } else { v.push_back(x >> 8); v.push_back(x); } };
  auto p32 = [&](std::vector<u8> &v, u32 x) { if (le) { p16(v, x & 65535); p16(v, x >> 16); } else { p16(v, x >> 16); p16(v, x & 65535); } };
  int segs = c.draw(3);
  for (int k = 0; k < segs; k++) { u32 n = c.draw(40); f.push_back(0xff); f.push_back(0xe0 + c.draw(14) + (c.coin() ? 2 : 0)); f.push_back((n + 2) >> 8); f.push_back(n + 2); for (u32 q = 0; q < n; q++) f.push_back(c.draw(256)); }
  std::vector<u8> t{'E', 'x', 'i', 'f', 0, 0}; t.push_back(le ? 'I' : 'M'); t.push_back(le ? 'I' : 'M'); p16(t, 42); p32(t, 8);
  u32 n = c.range(1, 6), at = c.draw(n); p16(t, n);
  for (u32 k = 0; k < n; k++) { p16(t, k == at ? 0x112 : 0x100 + c.draw(16)); p16(t, 3); p32(t, 1); p16(t, k == at ? c.draw(10) : c.draw(65536)); p16(t, 0); }
  p32(t, 0);
  f.push_back(0xff); f.push_back(0xe1); f.push_back((t.size() + 2) >> 8); f.push_back(t.size() + 2); f.insert(f.end(), t.begin(), t.end());
  f.push_back(0xff); f.push_back(0xd9);
  if (c.chance(1, 3)) f.resize(c.draw(f.size() + 1));
  if (c.chance(1, 3) && f.size()) f[c.draw(f.size())] = c.draw(256);
  return f;
}
static inline u32 chan_of(Case &c, Fn fn, bool wild) { // bytes per pixel of the image argument
  switch (fn) {
    case F_fcv_binary_dilation_disk: case F_fcv_binary_erosion_disk: case F_fcv_binary_closing_disk: case F_fcv_binary_opening_disk:
    case F_fcv_apply_global_threshold: case F_fcv_foerstner_corner: case F_fcv_single_to_multichannel: case F_fcv_watershed_segmentation: return 1;
    case F_fcv_corner_peaks: return 2;
    case F_fcv_crop: case F_fcv_trim: case F_fcv_trim_threshold: return wild && c.chance(1, 6) ? c.range(0, 9) : c.range(1, 4);
    case F_fcv_set_circle_pixel: case F_fcv_draw_circle: case F_fcv_draw_disk: case F_fcv_draw_circle_points: case F_fcv_fill_disk_lines: case F_fcv_add_border:
    case F_fcv_sobel_edge_detection: case F_fcv_generate_histogram: return wild && c.chance(1, 3) ? c.range(0, 9) : c.oneof<u32>({4, 1, 3});
    default: return 4;
  }
}
// heavy functions get small images
static inline bool is_heavy(Fn f) { return f == F_fcv_detect_corners || f == F_fcv_detect_corners_ptr || f == F_fcv_extract_document || f == F_fcv_extract_document_auto; }
static inline Img gen_arg_img(Case &c, Fn fn, bool wild) {
  u32 ch = chan_of(c, fn, wild), w, h; u64 cap = 1200;
  if (is_heavy(fn)) cap = 4000;
  if (fn <= F_fcv_binary_opening_disk) cap = 400;
  if (fn == F_fcv_watershed_segmentation) cap = 600;
  if (g_api_scale > 1) { double a = c.real(0.1, 10), n = c.real(0.2, 1) * cap * g_api_scale; w = std::max(1.0, sqrt(n * a)); h = std::max(1.0, sqrt(n / a)); if (c.chance(1, 4)) { w = c.oneof<u32>({255, 256, 257, 511, 512, 513, 128, 64}); h = std::max(1.0, n / w); } }
  else gen_size(c, w, h, cap);
  if (wild && c.chance(1, 8)) { if (c.coin()) w = 0; if (c.coin()) h = 0; }
  Img im;
  if (w && h && ch && ch <= 4) im = gen_content(c, w, h, ch);
  else { im.w = w; im.h = h; im.ch = ch; im.d.resize((size_t)w * h * ch); u64 s = c.draw(1u << 20); Rng r(s); for (u8 &x : im.d) x = r.next(); }
  if (fn <= F_fcv_binary_opening_disk && c.chance(9, 10)) { u8 th = c.draw(255); for (u8 &x : im.d) x = x > th ? 255 : 0; }
  if (is_heavy(fn) && im.n() > 200 && c.coin()) { // a document-like quadrilateral
    u8 lo = c.draw(90), hi = 160 + c.draw(96); u32 x0 = w / 8 + c.draw(w / 5 + 1), x1 = w - 1 - w / 8 - c.draw(w / 5 + 1), y0 = h / 8 + c.draw(h / 5 + 1), y1 = h - 1 - h / 8 - c.draw(h / 5 + 1); int sk = c.range(-3, 3);
    for (u32 y = 0; y < h; y++) for (u32 x = 0; x < w; x++) { i64 xx = (i64)x + sk * (i64)y / (i64)h; u8 v = xx >= x0 && xx <= x1 && y >= y0 && y <= y1 ? hi : lo; u8 *p = im.px(x, y); p[0] = p[1] = p[2] = v; p[3] = 255; }
  }
  return im;
}
static inline bool out_ok(double w, double h) { double p = w * h; return !(p > MAXOUT) || p > 1.2e9; } // small, or refused by the allocation limit

static inline void gen_args(Case &c, Call &k, bool wild) {
  u32 w = k.img.w, h = k.img.h;
  auto num = [&](double lo, double hi) { return wild && c.chance(1, 3) ? wild_double(c) : c.real(lo, hi); };
  switch (k.fn) {
    case F_fcv_binary_dilation_disk: case F_fcv_binary_erosion_disk: case F_fcv_binary_closing_disk: case F_fcv_binary_opening_disk:
      k.i[0] = wild && k.img.n() <= 64 && c.chance(1, 3) ? (i32)wild_u32(c) : wild && c.chance(1, 8) ? -(i64)c.draw(4) : c.range(0, k.img.n() <= 100 ? 9 : 5); break;
    case F_fcv_apply_gaussian_blur: k.d[0] = num(0, c.coin() ? 4 : 40); break;
    case F_fcv_apply_global_threshold: k.u[0] = c.draw(256); break;
    case F_fcv_otsu_threshold_rgba: case F_fcv_bw_smart: k.b = c.coin(); break;
    case F_fcv_resize:
      for (int tries = 0; tries < 8; tries++) { k.d[0] = num(0.02, 3); k.d[1] = num(0.02, 3); if (out_ok(k.d[0] * w, k.d[1] * h)) break; k.d[0] = k.d[1] = 1; }
      break;
    case F_fcv_convert_to_binary: k.s = gen_hex(c, wild); k.t = gen_hex(c, wild);
      if (k.img.n() && k.img.ch == 4 && c.coin()) { const u8 *p = &k.img.d[c.draw(k.img.n()) * 4]; k.s = fmt("%02x%02X%02x", p[0], p[1], p[2]); } break;
    case F_fcv_corner_peaks: k.u[0] = wild && c.chance(1, 3) ? wild_u32(c) : c.range(0, 12); k.d[0] = num(0, 1); k.d[1] = num(0, 1); break;
    case F_fcv_crop:
      if (wild && c.coin()) for (int q = 0; q < 4; q++) k.u[q] = wild_u32(c);
      else if (w && h) { k.u[0] = c.draw(w); k.u[1] = c.draw(h); k.u[2] = c.range(1, w - k.u[0]); k.u[3] = c.range(1, h - k.u[1]); if (wild) k.u[c.draw(4)] += c.range(0, 2); }
      break;
    case F_fcv_set_circle_pixel: case F_fcv_draw_circle_points: case F_fcv_fill_disk_lines:
      for (int q = 0; q < 4; q++) k.i[q] = wild && c.chance(1, 3) ? (i32)wild_u32(c) : c.range(-6, 60);
      if (k.fn == F_fcv_fill_disk_lines || k.fn == F_fcv_draw_circle_points) { if (c.coin()) { k.i[2] = std::abs(k.i[2]); k.i[3] = std::abs(k.i[3]); } }
      for (int q = 0; q < 3; q++) k.u[q] = c.draw(256); break;
    case F_fcv_draw_circle: case F_fcv_draw_disk:
      k.s = gen_hex(c, wild); k.d[0] = num(0, 30); if (k.d[0] > 3e6 && k.d[0] < 268435456.0) k.d[0] = 3e6; // large radii only cost time
      k.d[1] = num(-10, w + 10.0); k.d[2] = num(-10, h + 10.0); break;
    case F_fcv_add_border: k.s = gen_hex(c, wild); k.u[0] = wild && c.chance(1, 2) ? wild_u32(c) : c.range(1, 20);
      if (!out_ok(2.0 * k.u[0] + w, 2.0 * k.u[0] + h) ) k.u[0] = 3;
      if ((2.0 * k.u[0] + w) * (2.0 * k.u[0] + h) > MAXOUT && (2.0 * k.u[0] + w) * (2.0 * k.u[0] + h) * k.img.ch < 1.2e9) k.u[0] = 3; break;
    case F_fcv_get_exif_orientation: k.file = gen_exif(c); k.no_file = c.chance(1, 20); break;
    case F_fcv_extract_document: k.u[0] = wild && c.chance(1, 3) ? wild_u32(c) : c.range(1, 120); k.u[1] = wild && c.chance(1, 3) ? wild_u32(c) : c.range(1, 120);
      if (!out_ok(k.u[0], k.u[1])) k.u[1] = 2; if (!out_ok(k.u[0], k.u[1])) k.u[0] = 3; break;
    case F_fcv_foerstner_corner: k.d[0] = num(0, 3); break;
    case F_fcv_parse_hex_color: k.s = gen_hex(c, wild); break;
    case F_fcv_calculate_perspective_transform: k.c1 = gen_quad(c, 100, 100, wild); k.c2 = gen_quad(c, 80, 120, wild); break;
    case F_fcv_apply_matrix_3x3: {
      k.i[0] = wild && c.chance(1, 4) ? (i32)wild_u32(c) : c.range(1, 60); k.i[1] = wild && c.chance(1, 4) ? (i32)wild_u32(c) : c.range(1, 60);
      if (!out_ok((double)k.i[0], (double)k.i[1])) k.i[1] = 2; if (!out_ok((double)k.i[0], (double)k.i[1])) k.i[0] = 3;
      double *p = (double *)&k.m; for (int q = 0; q < 9; q++) p[q] = wild && c.chance(1, 4) ? wild_double(c) : q == 0 || q == 4 ? c.real(-2, 2) : q == 8 ? 1 : q >= 6 ? c.real(-0.02, 0.02) : c.real(-20, 20);
      if (c.chance(1, 5)) k.m = Matrix3x3{-1, 0, 0, 0, -1, 0, 0, 0, 1}; break; }
    case F_sort_corners: {
      k.npts = wild ? c.draw(20) : c.range(3, g_api_scale > 1 ? 300 : 20); for (u32 q = 0; q < k.npts; q++) k.pts.push_back(gen_pt(c, 256, 256, wild));
      k.u[0] = wild && c.chance(1, 4) ? wild_u32(c) : c.range(1, 3000); k.u[1] = c.range(1, 3000); k.u[2] = wild && c.chance(1, 6) ? 0 : 256; k.u[3] = 256; break; }
    case F_fcv_trim_threshold: k.d[0] = num(0, 100); break;
    case F_fcv_watershed_segmentation: k.b = c.coin(); k.npts = wild ? c.draw(9) : c.range(1, g_api_scale > 1 ? 400 : 14); for (u32 q = 0; q < k.npts; q++) k.pts.push_back(gen_pt(c, w, h, wild)); break;
    default: break;
  }
  if (wild && c.chance(1, 10)) switch (c.draw(8)) {
    case 0: k.null_img = true; break; case 1: k.null_out = true; break; case 2: k.null_out2 = true; break;
    case 3: if (k.fn != F_fcv_parse_hex_color) k.null_s = true; break; case 4: k.null_t = true; break; case 5: if (k.fn == F_fcv_watershed_segmentation) k.null_pts = true; break;
    case 6: k.null_c1 = true; break; default: k.null_m = true; k.null_c2 = true; break; }
}
static inline Fn gen_fn(Case &c) {
  static const int heavy_w = 1, w = 12; int tot = 0; for (int f = 0; f < NFN; f++) tot += is_heavy((Fn)f) ? heavy_w : w;
  int v = c.draw(tot); for (int f = 0; f < NFN; f++) { v -= is_heavy((Fn)f) ? heavy_w : w; if (v < 0) return (Fn)f; }
  return F_fcv_flip_x;
}
static inline Call gen_call_of(Case &c, Fn fn, bool wild) {
  Call k; k.fn = fn;
  bool noimg = fn == F_fcv_get_exif_orientation || fn == F_fcv_parse_hex_color || fn == F_fcv_calculate_perspective_transform || fn == F_sort_corners;
  if (!noimg) k.img = gen_arg_img(c, fn, wild);
  gen_args(c, k, wild);
  return k;
}
static inline Call gen_call(Case &c, bool wild) { return gen_call_of(c, gen_fn(c), wild); }

// ------------------------------------------------------------------ execution
struct ImgArg { // image argument in an exactly sized heap buffer
  u8 *base, *p; size_t n; const std::vector<u8> *orig; size_t off;
  ImgArg(const Call &k) : orig(&k.img.d), off(k.align) { n = k.img.d.size(); base = (u8 *)malloc(off + (n || off ? n : 0)); p = k.null_img ? nullptr : base + off; if (n) memcpy(base + off, k.img.d.data(), n); }
  ~ImgArg() { free(base); }
  ImgArg(const ImgArg &) = delete;
  void unchanged(const char *fn) { if (n && memcmp(base + off, orig->data(), n)) { size_t q = 0; while (base[off + q] == (*orig)[q]) q++; FAILF("%s changed byte %zu of its input image", fn, q); } }
};
template <class T> struct Arr { // exactly sized copy of an argument array
  T *p; std::vector<T> orig;
  Arr(const std::vector<T> &v, size_t atleast = 0) : orig(v) { size_t m = std::max(v.size(), atleast); p = (T *)malloc(m * sizeof(T)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); }
  ~Arr() { free(p); }
  Arr(const Arr &) = delete;
  void unchanged(const char *fn) { if (orig.size() && memcmp(p, orig.data(), orig.size() * sizeof(T))) FAILF("%s changed an argument array", fn); }
};
// What a result must look like: size in bytes follows from the arguments or the reported size.
static inline Result exec(const Api &A, const Call &k, const std::string &dir, bool cap_check = true) {
  Result r; const char *N = fn_name[k.fn]; u32 w = k.img.w, h = k.img.h, ch = k.img.ch;
  ImgArg a(k); const u32 MARK = 0xA5A5A5A5u; u32 ow = MARK, oh = MARK; u8 *o = nullptr;
  u32 *pow_ = k.null_out ? nullptr : &ow, *poh = k.null_out2 ? nullptr : &oh;
  std::unique_ptr<char[]> S(new char[k.s.size() + 1]), T(new char[k.t.size() + 1]); memcpy(S.get(), k.s.c_str(), k.s.size() + 1); memcpy(T.get(), k.t.c_str(), k.t.size() + 1);
  const char *s = k.null_s ? nullptr : S.get(), *t = k.null_t ? nullptr : T.get();
  bool inplace = false;
  auto img_out = [&](u64 W, u64 H, u64 C) {
    if (!o) { r.null = true; return; }
    r.put((u32)W); r.put((u32)H);
    if (W * H * C > (u64)64 * 1000 * 1000) { free(o); FAILF("%s returned an image of %llux%llu although that much memory was not available", N, (unsigned long long)W, (unsigned long long)H); }
    r.put(o, W * H * C); free(o);
  };
  switch (k.fn) {
    case F_fcv_binary_dilation_disk: o = lib([&] { return A.fcv_binary_dilation_disk(a.p, w, h, (i32)k.i[0]); }); img_out(w, h, 1); break;
    case F_fcv_binary_erosion_disk: o = lib([&] { return A.fcv_binary_erosion_disk(a.p, w, h, (i32)k.i[0]); }); img_out(w, h, 1); break;
    case F_fcv_binary_closing_disk: o = lib([&] { return A.fcv_binary_closing_disk(a.p, w, h, (i32)k.i[0]); }); img_out(w, h, 1); break;
    case F_fcv_binary_opening_disk: o = lib([&] { return A.fcv_binary_opening_disk(a.p, w, h, (i32)k.i[0]); }); img_out(w, h, 1); break;
    case F_fcv_apply_gaussian_blur: o = lib([&] { return A.fcv_apply_gaussian_blur(w, h, k.d[0], a.p); }); img_out(w, h, 4); break;
    case F_fcv_grayscale: o = lib([&] { return A.fcv_grayscale(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_grayscale_stretch: o = lib([&] { return A.fcv_grayscale_stretch(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_apply_global_threshold: inplace = true; lib([&] { A.fcv_apply_global_threshold(w * h, a.p, k.u[0]); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_otsu_threshold_rgba: o = lib([&] { return A.fcv_otsu_threshold_rgba(w, h, k.b, a.p); }); img_out(w, h, 4); break;
    case F_fcv_bw_smart: o = lib([&] { return A.fcv_bw_smart(w, h, k.b, a.p); }); img_out(w, h, 4); break;
    case F_fcv_resize: o = lib([&] { return A.fcv_resize(w, h, k.d[0], k.d[1], pow_, poh, a.p); }); if (o && (!pow_ || !poh)) FAILF("%s returned an image without a place for its size", N); img_out(ow, oh, 4); break;
    case F_fcv_convert_to_binary: o = lib([&] { return A.fcv_convert_to_binary(a.p, w, h, s, t); }); img_out(w, h, 1); break;
    case F_fcv_corner_peaks: {
      CornerPeaks *p = lib([&] { return A.fcv_corner_peaks(w, h, a.p, k.u[0], k.d[0], k.d[1]); });
      if (!p) { r.null = true; break; }
      r.put(p->count); for (u32 q = 0; q < p->count; q++) { r.putd(p->points[q].x); r.putd(p->points[q].y); } free(p->points); free(p); break; }
    case F_fcv_crop: o = lib([&] { return A.fcv_crop(w, h, ch, a.p, k.u[0], k.u[1], k.u[2], k.u[3]); }); img_out(k.u[2], k.u[3], ch); break;
    case F_fcv_set_circle_pixel: inplace = true; lib([&] { A.fcv_set_circle_pixel(a.p, w, h, ch, k.i[0], k.i[1], k.u[0], k.u[1], k.u[2]); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_draw_circle: inplace = true; lib([&] { A.fcv_draw_circle(w, h, ch, s, k.d[0], k.d[1], k.d[2], a.p); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_draw_disk: inplace = true; lib([&] { A.fcv_draw_disk(w, h, ch, s, k.d[0], k.d[1], k.d[2], a.p); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_draw_circle_points: inplace = true; lib([&] { A.fcv_draw_circle_points(a.p, w, h, ch, k.i[0], k.i[1], k.i[2], k.i[3], k.u[0], k.u[1], k.u[2]); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_fill_disk_lines: inplace = true; lib([&] { A.fcv_fill_disk_lines(a.p, w, h, ch, k.i[0], k.i[1], k.i[2], k.i[3], k.u[0], k.u[1], k.u[2]); return 0; }); r.put(a.base + a.off, a.n); break;
    case F_fcv_add_border: o = lib([&] { return A.fcv_add_border(w, h, ch, s, k.u[0], a.p, pow_, poh); }); if (o && (!pow_ || !poh)) FAILF("%s returned an image without a place for its size", N);
      if (o && ch == 2) { r.put(ow); r.put(oh); free(o); o = nullptr; break; } // two channels are not supported: only memory safety is required
      if (o && ch > 4) { r.put(ow); r.put(oh); free(o); o = nullptr; break; }
      img_out(ow, oh, ch); break;
    case F_fcv_get_exif_orientation: {
      static thread_local u64 serial = 0; std::string f = dir + fmt("/exif-%d-%llx-%llu.jpg", getpid(), (unsigned long long)(uintptr_t)&serial, (unsigned long long)serial++);
      if (!k.no_file) { FILE *q = fopen(f.c_str(), "wb"); if (!q) throw std::runtime_error("scratch"); if (k.file.size()) fwrite(k.file.data(), 1, k.file.size(), q); fclose(q); }
      i32 v = lib([&] { return A.fcv_get_exif_orientation(f.c_str()); }); unlink(f.c_str()); r.put(v); break; }
    case F_fcv_extract_document: o = lib([&] { return A.fcv_extract_document(w, h, a.p, k.u[0], k.u[1]); }); img_out(k.u[0], k.u[1], 4); break;
    case F_fcv_extract_document_auto: o = lib([&] { return A.fcv_extract_document_auto(w, h, a.p, pow_, poh); }); if (o && (!pow_ || !poh)) FAILF("%s returned an image without a place for its size", N); img_out(ow, oh, 4); break;
    case F_fcv_flip_x: o = lib([&] { return A.fcv_flip_x(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_flip_y: o = lib([&] { return A.fcv_flip_y(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_transpose: o = lib([&] { return A.fcv_transpose(w, h, a.p); }); img_out(h, w, 4); break;
    case F_fcv_transverse: o = lib([&] { return A.fcv_transverse(w, h, a.p); }); img_out(h, w, 4); break;
    case F_fcv_foerstner_corner: o = lib([&] { return A.fcv_foerstner_corner(w, h, a.p, k.d[0]); }); img_out(w, h, 2); break;
    case F_fcv_generate_histogram: o = lib([&] { return A.fcv_generate_histogram(w, h, ch, a.p, pow_, poh); }); if (o && (!pow_ || !poh)) FAILF("%s returned an image without a place for its size", N); img_out(ow, oh, 4); break;
    case F_fcv_parse_hex_color: { u8 x[3] = {1, 2, 3}; lib([&] { A.fcv_parse_hex_color(s, &x[0], &x[1], &x[2]); return 0; }); r.put(x, 3); break; }
    case F_fcv_calculate_perspective_transform: {
      Corners p = k.c1, q = k.c2; Matrix3x3 *m = lib([&] { return A.fcv_calculate_perspective_transform(k.null_c1 ? nullptr : &p, k.null_c2 ? nullptr : &q); });
      if (memcmp(&p, &k.c1, sizeof p) || memcmp(&q, &k.c2, sizeof q)) FAILF("%s changed its corner arguments", N);
      if (!m) { r.null = true; break; } r.putds(m, 9); free(m); break; }
    case F_fcv_apply_matrix_3x3: {
      std::vector<Matrix3x3> mv{k.m}; Arr<Matrix3x3> m(mv);
      o = lib([&] { return A.fcv_apply_matrix_3x3(w, h, a.p, (i32)k.i[0], (i32)k.i[1], k.null_m ? nullptr : m.p); }); m.unchanged(N); img_out(k.i[0], k.i[1], 4); break; }
    case F_fcv_detect_corners: { Corners q = lib([&] { return A.fcv_detect_corners(a.p, w, h); }); r.putds(&q, 8); break; }
    case F_fcv_detect_corners_ptr: { Corners *q = lib([&] { return A.fcv_detect_corners_ptr(a.p, w, h); }); if (!q) { r.null = true; break; } r.putds(q, 8); free(q); break; }
    case F_fcv_rgba_to_grayscale: o = lib([&] { return A.fcv_rgba_to_grayscale(w, h, a.p); }); img_out(w, h, 1); break;
    case F_fcv_rotate_90_cw: o = lib([&] { return A.fcv_rotate_90_cw(w, h, a.p); }); img_out(h, w, 4); break;
    case F_fcv_rotate_180: o = lib([&] { return A.fcv_rotate_180(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_rotate_270_cw: o = lib([&] { return A.fcv_rotate_270_cw(w, h, a.p); }); img_out(h, w, 4); break;
    case F_fcv_single_to_multichannel: o = lib([&] { return A.fcv_single_to_multichannel(w, h, a.p); }); img_out(w, h, 4); break;
    case F_fcv_sobel_edge_detection: o = lib([&] { return A.fcv_sobel_edge_detection(w, h, ch, a.p); }); img_out(w, h, 1); break;
    case F_sort_corners: {
      Arr<Point2D> p(k.pts); u32 m = std::max<u32>(k.npts, 4); std::vector<Point2D> z(m, Point2D{-7, -7}); Arr<Point2D> q(z);
      Corners cc = lib([&] { return A.sort_corners(k.u[0], k.u[1], k.u[2], k.u[3], p.p, k.npts, q.p); }); p.unchanged(N); r.putds(&cc, 8);
      bool zero = k.npts < 3; if (!zero) r.putds(q.p, m * 2); break; }
    case F_fcv_trim: case F_fcv_trim_threshold: {
      i32 tw = w, th = h;
      o = k.fn == F_fcv_trim ? lib([&] { return A.fcv_trim(k.null_out ? nullptr : &tw, k.null_out2 ? nullptr : &th, ch, a.p); }) : lib([&] { return A.fcv_trim_threshold(k.null_out ? nullptr : &tw, k.null_out2 ? nullptr : &th, ch, a.p, k.d[0]); });
      if (o && (tw < 1 || th < 1 || tw > (i64)w || th > (i64)h)) FAILF("%s reports size %dx%d for an image of %ux%u", N, tw, th, w, h);
      img_out(tw, th, ch); break; }
    case F_fcv_watershed_segmentation: { Arr<Point2D> p(k.pts); o = lib([&] { return A.fcv_watershed_segmentation(w, h, a.p, k.null_pts ? nullptr : p.p, k.npts, k.b); }); p.unchanged(N); img_out(w, h, 4); break; }
    case NFN: break;
  }
  if (!inplace) a.unchanged(N);
  if (memcmp(S.get(), k.s.c_str(), k.s.size() + 1) || memcmp(T.get(), k.t.c_str(), k.t.size() + 1)) FAILF("%s changed its colour argument", N);
  return r;
}
