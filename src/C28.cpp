// C28: the Haskell bindings compute what the C functions compute. A driver built from the bindings executes generated
// batches of calls; its results are compared with those of the C functions for the same arguments.
#include "api.hpp"
#include <signal.h>
#include <set>
#include <fcntl.h>
#include <sys/prctl.h>
static Api A;
static const char *const hs_name[NFN] = {"binaryDilationDisk", "binaryErosionDisk", "binaryClosingDisk", "binaryOpeningDisk", "gaussianBlur", "grayscale", "grayscaleStretch", "applyGlobalThreshold", "otsuThreshold", "bwSmart", "resize", "convertToBinary", 0, "crop", 0, "drawCircle", "drawDisk", 0, 0, "addBorder", "getExifOrientation", "extractDocument", "extractDocumentAuto", "flipX", "flipY", "transpose", "transverse", "foerstnerCorner", "generateHistogram", "parseHexColor", "calculatePerspectiveTransform", "applyMatrix3x3", 0, "detectCorners", "rgbaToGrayscale", "rotate90CW", "rotate180", "rotate270CW", "singleToMultichannel", "sobelEdgeDetection", 0, "trim", "trimThreshold", "watershedSegmentation"};
static_assert(F_fcv_watershed_segmentation == 43 && F_fcv_crop == 13 && F_fcv_detect_corners_ptr == 33, "order of API_LIST");
static bool has_ptr(Fn f) { switch (f) { case F_fcv_apply_gaussian_blur: case F_fcv_grayscale: case F_fcv_grayscale_stretch: case F_fcv_otsu_threshold_rgba: case F_fcv_bw_smart: case F_fcv_flip_x: case F_fcv_flip_y: case F_fcv_transpose: case F_fcv_calculate_perspective_transform: case F_fcv_apply_matrix_3x3: case F_fcv_detect_corners_ptr: case F_fcv_rgba_to_grayscale: case F_fcv_rotate_90_cw: case F_fcv_rotate_180: case F_fcv_rotate_270_cw: case F_fcv_single_to_multichannel: return true; default: return false; } }

struct Driver {
  pid_t pid = -1; int in = -1, out = -1; pid_t owner = 0; std::string errf;
  void start() {
    errf = eng::scratch_dir + fmt("/hs-%d.err", getpid()); int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
    signal(SIGPIPE, SIG_IGN); fflush(stdout); pid_t parent = getpid(); pid = fork();
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(0); dup2(a[0], 0); dup2(b[1], 1); int e = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2);
      setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=190:max_malloc_fill_size=1073741824:quarantine_size_mb=64", 1);
      execl(eng::aux_path.c_str(), eng::aux_path.c_str(), (char *)nullptr); _exit(126); }
    close(a[0]); close(b[1]); in = a[1]; out = b[0]; owner = getpid();
  }
  void ensure() { if (pid < 0 || owner != getpid()) start(); }
  void stop() { if (pid > 0 && owner == getpid()) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, 0, 0); } pid = -1; }
  [[noreturn]] void died() {
    std::string e; FILE *f = fopen(errf.c_str(), "rb"); if (f) { char b[3000]; size_t n = fread(b, 1, sizeof b, f); e.assign(b, n); fclose(f); }
    size_t k = e.find("ERROR: AddressSanitizer"); if (k != std::string::npos) e = e.substr(k); int st = 0; if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); close(in); close(out); } pid = -1;
    FAILF("the Haskell program ended during the calls: %s", e.substr(0, 500).c_str());
  }
  void rd(void *p, size_t n) { u8 *b = (u8 *)p; while (n) { ssize_t k = read(out, b, n); if (k <= 0) died(); b += k; n -= k; } }
  void wr(const void *p, size_t n) { const u8 *b = (const u8 *)p; while (n) { ssize_t k = write(in, b, n); if (k <= 0) died(); b += k; n -= k; } }
};
static Driver drv;

struct Req { u64 repeats = 0; Call k; bool ptr; u64 code; Result want; u64 wantlen; std::string path; };
static void send(const Req &r) {
  const Call &k = r.k; u64 h[64] = {0}; auto D = [&](int at, double v) { memcpy(&h[at], &v, 8); };
  h[0] = r.code; h[1] = k.img.w; h[2] = k.img.h; h[3] = k.img.ch; for (int q = 0; q < 6; q++) h[4 + q] = k.u[q]; for (int q = 0; q < 4; q++) h[10 + q] = (u64)k.i[q]; for (int q = 0; q < 3; q++) D(14 + q, k.d[q]);
  std::string s = k.fn == F_fcv_get_exif_orientation ? r.path : k.s;
  h[17] = k.b; h[18] = s.size(); h[19] = k.t.size(); h[20] = k.img.d.size(); h[21] = k.pts.size(); h[22] = r.wantlen; h[23] = r.ptr; h[50] = r.repeats;
  memcpy(&h[24], &k.c1, 64); memcpy(&h[32], &k.c2, 64); memcpy(&h[40], &k.m, 72);
  drv.wr(h, sizeof h); drv.wr(s.data(), s.size()); drv.wr(k.t.data(), k.t.size()); drv.wr(k.img.d.data(), k.img.d.size()); drv.wr(k.pts.data(), k.pts.size() * 16);
}
// Listed findings (KNOWN_FINDINGS.txt, "known: property=C28 call=<binding> ..."): the existing Haskell tests require these
// bindings to return width*height*channels bytes although the C function returns width*height, so the rest is read beyond the buffer.
static const std::set<std::string> &known() {
  static std::set<std::string> s; static bool done = false;
  if (!done) { done = true; const char *root = getenv("VERIF_ROOT"); FILE *f = fopen((std::string(root ? root : "/verif") + "/KNOWN_FINDINGS.txt").c_str(), "r"); char l[2000]; while (f && fgets(l, sizeof l, f)) { const char *p = strstr(l, "known: property=C28 call="); if (p == l) { char n[200]; if (sscanf(l + 25, "%199s", n) == 1) s.insert(n); } } if (f) fclose(f); }
  return s;
}
static void judge(Case &c, const Req &r) {
  u64 h[6]; drv.rd(h, sizeof h); if (h[5] > (1u << 28)) throw std::runtime_error("protocol"); std::vector<u8> b(h[5]); drv.rd(b.data(), b.size());
  std::string nm = r.code >= 100 ? (r.code == 100 ? "prettyShowCorners" : "prettyShowMatrix3x3") : std::string(hs_name[r.k.fn]) + (r.ptr ? "Ptr" : ""); const char *N = nm.c_str();
  if (r.repeats && h[1] >= 2) { u64 grown = h[1] - 2; if (grown > r.repeats * 16) FAILF("%s leaves %.1f bytes per call allocated although the results are no longer referenced", N, (double)grown / r.repeats); }
  else if (!h[1]) FAILF("%s changed the caller's image", N);
  if (r.code >= 100) { // the numbers are printed in the order of the corners of the page / of the rows
    if (h[0] != 2) FAILF("%s failed", N); std::string s((char *)b.data(), b.size()); for (char &x : s) if (x == '(' || x == ')' || x == ',') x = ' ';
    std::vector<double> v; const char *p = s.c_str(); for (;;) { char *e; double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; }
    const Corners &q = r.k.c1; std::vector<double> w; if (r.code == 100) w = {q.tl_x, q.tl_y, q.tr_x, q.tr_y, q.bl_x, q.bl_y, q.br_x, q.br_y}; else { const double *m = (const double *)&r.k.m; w.assign(m, m + 9); }
    if (v.size() != w.size()) FAILF("%s prints %zu numbers instead of %zu: %s", N, v.size(), w.size(), s.c_str());
    for (size_t i = 0; i < w.size(); i++) if (r.code == 100 ? v[i] != w[i] : fabs(v[i] - w[i]) > 5.1e-6) FAILF("%s prints %g instead of %g as number %zu", N, v[i], w[i], i);
    return;
  }
  if (r.want.null) { if (h[0] != 1) FAILF("%s returns a value although the C function returns none", N); c.label("rejected"); return; }
  if (h[0] == 1) FAILF("%s fails although the C function returns a result", N);
  c.nontrivial();
  Result g;
  if (h[0] == 2) g.bytes = b;
  else {
    bool inplace = r.k.fn == F_fcv_apply_global_threshold || r.k.fn == F_fcv_draw_circle || r.k.fn == F_fcv_draw_disk;
    bool sized = r.k.fn == F_fcv_resize || r.k.fn == F_fcv_trim || r.k.fn == F_fcv_trim_threshold || r.k.fn == F_fcv_add_border || r.k.fn == F_fcv_extract_document_auto || r.k.fn == F_fcv_generate_histogram;
    if (!inplace) { if (sized) { g.put((u32)h[2]); g.put((u32)h[3]); } else g.put(r.want.bytes.data(), 8); }
    g.put(b.data(), b.size());
    if (h[4] != r.wantlen) {
      bool over = (r.k.fn <= F_fcv_binary_opening_disk || r.k.fn == F_fcv_convert_to_binary) ? h[4] == r.wantlen * 4 : r.k.fn == F_fcv_sobel_edge_detection ? h[4] == r.wantlen * r.k.img.ch : false;
      if (over && known().count(nm)) c.label("known:" + nm);
      else FAILF("%s returns %llu bytes, the C function's image has %llu", N, (unsigned long long)h[4], (unsigned long long)r.wantlen);
    }
  }
  if (r.k.fn == F_fcv_calculate_perspective_transform || r.k.fn == F_fcv_detect_corners_ptr) { Result z; z.putds(g.bytes.data(), g.bytes.size() / 8); g = z; }
  if (g.bytes != r.want.bytes) FAILF("%s gives %s, the C function gives %s", N, g.describe().c_str(), r.want.describe().c_str());
}
static bool usable(const Call &k) {
  if (k.null_img || k.null_out || k.null_out2 || k.null_s || k.null_t || k.null_pts || k.null_c1 || k.null_c2 || k.null_m) return false;
  if (k.npts != k.pts.size()) return false;
  double px = 0; u32 w = k.img.w, h = k.img.h;
  switch (k.fn) { case F_fcv_resize: px = (k.d[0] * w) * (k.d[1] * h); break; case F_fcv_add_border: px = (2.0 * k.u[0] + w) * (2.0 * k.u[0] + h); if (k.img.ch == 2 || k.img.ch > 4) return false; break;
    case F_fcv_extract_document: px = (double)k.u[0] * k.u[1]; break; case F_fcv_apply_matrix_3x3: px = (double)(i32)k.i[0] * (double)(i32)k.i[1]; if ((i32)k.i[0] <= 0 || (i32)k.i[1] <= 0) px = 0; break; default: break; }
  if (!(px <= MAXOUT)) return false;
  for (char x : k.s) if (x <= 0) return false; for (char x : k.t) if (x <= 0) return false; // the encoding of other characters depends on the locale
  return true;
}
static void batch(Case &c, bool wild, u64 repeats = 0) {
  A = api_linked(); int n = repeats ? 1 : c.range(1, 8); std::vector<Req> v;
  for (int q = 0; q < n; q++) {
    Req r; Fn f; do f = gen_fn(c); while (!hs_name[f] && !c.replaying); if (!hs_name[f]) f = F_fcv_flip_x;
    r.repeats = repeats; r.k = gen_call_of(c, f, wild); r.code = f; r.ptr = has_ptr(f) && c.coin();
    if (c.chance(1, 40)) { r.code = 100 + c.draw(2); r.k.fn = F_fcv_calculate_perspective_transform; r.k.img = Img(); r.k.c1 = gen_quad(c, 500, 300, false); double *m = (double *)&r.k.m; for (int i = 0; i < 9; i++) m[i] = c.real(-30, 30); r.ptr = false; r.wantlen = 0; c.note(r.code == 100 ? "prettyShowCorners" : "prettyShowMatrix3x3"); v.push_back(r); continue; }
    if (!usable(r.k)) continue;
    c.note(std::string(r.ptr ? "(Ptr) " : "") + r.k.show().substr(0, 300)); c.label(std::string(hs_name[f]) + (r.ptr ? "Ptr" : ""));
    r.want = exec(A, r.k, eng::scratch_dir);
    bool inplace = f == F_fcv_apply_global_threshold || f == F_fcv_draw_circle || f == F_fcv_draw_disk;
    r.wantlen = r.want.null ? 0 : inplace ? r.want.bytes.size() : r.want.bytes.size() >= 8 ? r.want.bytes.size() - 8 : 0;
    if (f == F_fcv_get_exif_orientation) { static u64 serial = 0; r.path = eng::scratch_dir + fmt("/hs-%d-%llu.jpg", getpid(), (unsigned long long)serial++); if (!r.k.no_file) { FILE *o = fopen(r.path.c_str(), "wb"); if (!o) throw std::runtime_error("scratch"); fwrite(r.k.file.data(), 1, r.k.file.size(), o); fclose(o); } }
    v.push_back(r);
  }
  if (v.empty()) throw Discard();
  drv.ensure(); u64 m = v.size(); drv.wr(&m, 8); 
  for (auto &r : v) send(r);
  try { for (auto &r : v) judge(c, r); } catch (...) { drv.stop(); for (auto &r : v) if (!r.path.empty()) unlink(r.path.c_str()); throw; }
  for (auto &r : v) if (!r.path.empty()) unlink(r.path.c_str());
}
static void accepted(Case &c) { batch(c, false); }
static void any(Case &c) { batch(c, true); }
static void larger(Case &c) { Larger l(c.oneof<u32>({4, 12, 30})); batch(c, false); }
// what the C library allocated is released when the results are no longer referenced
static void memory(Case &c) { batch(c, c.coin(), 40); }
Property property() {
  return {"C28", "at least one call of the batch returned a result that was compared byte by byte",
          {{"accepted", accepted, 1500, 60000}, {"any", any, 1000, 40000}, {"larger", larger, 150, 6000}, {"memory", memory, 700, 12000}},
          {"batches of 1 to 8 calls whose results are read only after all calls and two garbage collections", "colours and paths are ASCII (other characters depend on the locale)"}};
}
