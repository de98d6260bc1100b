// Running the real flatcv binary, and an independent PNG encoder/decoder (zlib).
#pragma once
#include "img.hpp"
#include <zlib.h>
extern char **environ;

struct RunRes { int status = -1; bool signaled = false; int sig = 0; bool timeout = false; std::string out, err; };
static inline std::string slurp(const std::string &p) { std::string t; FILE *f = fopen(p.c_str(), "rb"); if (!f) return t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); return t; }
static inline void spew(const std::string &p, const std::string &d) { FILE *f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("cannot write " + p); fwrite(d.data(), 1, d.size(), f); fclose(f); }
static inline bool exists(const std::string &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }

// a private directory per process, created on demand
static inline std::string workdir() {
  static std::string d; static pid_t owner = 0;
  if (owner != getpid()) { owner = getpid(); d = eng::scratch_dir + fmt("/p%d", (int)getpid()); mkdir(d.c_str(), 0755); }
  return d;
}
static inline void cleandir(const std::string &d) { // remove plain files inside our own scratch directory
  std::string cmd; // no shell: use nftw-free simple listing
  (void)cmd;
  extern void clean_dir_impl(const std::string &);
  clean_dir_impl(d);
}
#include <dirent.h>
void clean_dir_impl(const std::string &d) {
  DIR *q = opendir(d.c_str()); if (!q) return;
  while (dirent *e = readdir(q)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0) { if (S_ISDIR(s.st_mode)) { chmod(p.c_str(), 0700); clean_dir_impl(p); rmdir(p.c_str()); } else unlink(p.c_str()); } }
  closedir(q);
}

static inline RunRes run(const std::string &exe, const std::vector<std::string> &args, const std::string &cwd, double cpu = 60) {
  RunRes r; std::string o = cwd + "/.stdout", e = cwd + "/.stderr";
  fflush(stdout); fflush(stderr);
  std::vector<char *> av; av.push_back((char *)exe.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  pid_t p; int rc = posix_spawn(&p, exe.c_str(), &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (rc) throw std::runtime_error("cannot start " + exe);
  struct rlimit rl; rl.rlim_cur = (rlim_t)cpu; rl.rlim_max = (rlim_t)cpu + 5; prlimit(p, RLIMIT_CPU, &rl, nullptr);
  int st; double t0 = eng::now(); useconds_t w = 200;
  while (waitpid(p, &st, WNOHANG) == 0) { if (eng::now() - t0 > cpu * 5 + 30) { kill(p, SIGKILL); r.timeout = true; waitpid(p, &st, 0); break; } usleep(w); if (w < 4000) w *= 2; }
  if (WIFSIGNALED(st)) { r.signaled = true; r.sig = WTERMSIG(st); if (r.sig == SIGXCPU) r.timeout = true; } else r.status = WEXITSTATUS(st);
  r.out = slurp(o); r.err = slurp(e);
  unlink(o.c_str()); unlink(e.c_str());
  return r;
}
static inline RunRes cli(const std::vector<std::string> &args, double cpu = 60) { return run(eng::cli_path, args, workdir(), cpu); }
static inline std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) { if (!s.empty()) s += " "; bool q = x.empty() || x.find_first_of(" '()") != std::string::npos; s += q ? "\"" + x + "\"" : x; } return s; }
static inline std::string tail(const std::string &s) { return s.size() > 500 ? s.substr(s.size() - 500) : s; }

// ------------------------------------------------------------------ PNG
static inline void be32(std::string &s, u32 v) { s += (char)(v >> 24); s += (char)(v >> 16); s += (char)(v >> 8); s += (char)v; }
static inline void chunk(std::string &s, const char *t, const std::string &d) { be32(s, d.size()); std::string b = std::string(t, 4) + d; s += b; be32(s, crc32(0, (const Bytef *)b.data(), b.size())); }
static inline std::string deflate_(const std::string &d, int level) { uLongf n = compressBound(d.size()); std::string o(n, 0); compress2((Bytef *)&o[0], &n, (const Bytef *)d.data(), d.size(), level); o.resize(n); return o; }
static inline int paeth(int a, int b, int c) { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); return pa <= pb && pa <= pc ? a : pb <= pc ? b : c; }
// raw: packed scanlines (without filter bytes), bpp bytes per pixel for filtering
static inline std::string png_raw(u32 w, u32 h, int depth, int ctype, const std::vector<std::string> &rows, int bpp, const std::string &extra_chunks = "", const std::vector<int> &filters = {}, int level = 1, bool split_idat = false) {
  std::string s("\x89PNG\r\n\x1a\n", 8), ih; be32(ih, w); be32(ih, h); ih += (char)depth; ih += (char)ctype; ih += '\0'; ih += '\0'; ih += '\0';
  chunk(s, "IHDR", ih); s += extra_chunks;
  std::string raw; std::string prev(rows.empty() ? 0 : rows[0].size(), 0);
  for (u32 y = 0; y < h; y++) {
    int f = filters.empty() ? 0 : filters[y % filters.size()]; raw += (char)f; const std::string &r = rows[y];
    for (size_t i = 0; i < r.size(); i++) { int a = i >= (size_t)bpp ? (u8)r[i - bpp] : 0, b = (u8)prev[i], c = i >= (size_t)bpp ? (u8)prev[i - bpp] : 0; int p = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth(a, b, c); raw += (char)((u8)r[i] - p); }
    prev = r;
  }
  std::string z = deflate_(raw, level);
  if (split_idat && z.size() > 4) { chunk(s, "IDAT", z.substr(0, z.size() / 3)); chunk(s, "IDAT", z.substr(z.size() / 3)); } else chunk(s, "IDAT", z);
  chunk(s, "IEND", ""); return s;
}
static inline std::string png_encode(const Img &a) {
  std::vector<std::string> rows(a.h); for (u32 y = 0; y < a.h; y++) rows[y].assign((const char *)&a.d[(size_t)y * a.w * a.ch], (size_t)a.w * a.ch);
  int ct = a.ch == 4 ? 6 : a.ch == 3 ? 2 : a.ch == 2 ? 4 : 0; return png_raw(a.w, a.h, 8, ct, rows, a.ch);
}
// decoder for 8-bit non-interlaced PNG; throws Failure on malformed files
static inline Img png_decode(const std::string &s, const char *what) {
  auto rd = [&](size_t o) -> u32 { return ((u32)(u8)s[o] << 24) | ((u32)(u8)s[o + 1] << 16) | ((u32)(u8)s[o + 2] << 8) | (u8)s[o + 3]; };
  if (s.size() < 8 || s.compare(0, 8, std::string("\x89PNG\r\n\x1a\n", 8)) != 0) FAILF("%s is not a PNG file (%zu bytes)", what, s.size());
  size_t o = 8; std::string z; Img im; int ct = -1; bool end = false;
  while (o + 12 <= s.size()) {
    u32 n = rd(o); if (n > s.size() || o + 12 + n > s.size()) FAILF("%s: truncated PNG chunk", what);
    std::string t = s.substr(o + 4, 4);
    if (crc32(0, (const Bytef *)&s[o + 4], n + 4) != rd(o + 8 + n)) FAILF("%s: PNG CRC error", what);
    if (t == "IHDR") { im.w = rd(o + 8); im.h = rd(o + 12); if (s[o + 16] != 8) FAILF("%s: bit depth %d", what, s[o + 16]); ct = s[o + 17]; if (s[o + 20]) FAILF("%s: interlaced", what); }
    else if (t == "IDAT") z += s.substr(o + 8, n); else if (t == "IEND") { end = true; break; }
    o += 12 + n;
  }
  if (!end) FAILF("%s: PNG without IEND", what);
  im.ch = ct == 6 ? 4 : ct == 2 ? 3 : ct == 4 ? 2 : ct == 0 ? 1 : 0; if (!im.ch) FAILF("%s: colour type %d", what, ct);
  size_t st = (size_t)im.w * im.ch; std::string raw((st + 1) * im.h, 0); uLongf n = raw.size();
  if (uncompress((Bytef *)&raw[0], &n, (const Bytef *)z.data(), z.size()) != Z_OK || n != raw.size()) FAILF("%s: PNG data does not decompress to %ux%u", what, im.w, im.h);
  im.d.resize(st * im.h);
  for (u32 y = 0; y < im.h; y++) { u8 *q = &im.d[y * st]; const u8 *p = (const u8 *)&raw[y * (st + 1)]; const u8 *b = y ? q - st : nullptr; int f = p[0];
    if (f > 4) FAILF("%s: PNG filter %d", what, f);
    for (size_t i = 0; i < st; i++) { int A = i >= im.ch ? q[i - im.ch] : 0, B = b ? b[i] : 0, C = b && i >= im.ch ? b[i - im.ch] : 0; q[i] = p[1 + i] + (f == 0 ? 0 : f == 1 ? A : f == 2 ? B : f == 3 ? (A + B) / 2 : paeth(A, B, C)); } }
  return im;
}
static inline Img to_rgba(const Img &a) {
  if (a.ch == 4) return a; Img r; r.w = a.w; r.h = a.h; r.d.resize(a.n() * 4);
  for (size_t i = 0; i < a.n(); i++) for (int k = 0; k < 4; k++) r.d[i * 4 + k] = a.ch == 1 ? (k < 3 ? a.d[i] : 255) : a.ch == 2 ? (k < 3 ? a.d[i * 2] : a.d[i * 2 + 1]) : (k < 3 ? a.d[i * 3 + k] : 255);
  return r;
}
// runs `in.png pipeline out.png`; nullptr result means clean rejection
static inline bool cli_ok(const RunRes &r, const std::string &cmd) {
  if (r.timeout) FAILF("flatcv did not finish: %s", cmd.c_str());
  if (r.signaled) FAILF("flatcv ended by signal %d: %s: %s", r.sig, cmd.c_str(), tail(r.err).c_str());
  if (r.status == 99 || r.err.find("ERROR: AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) FAILF("sanitizer report: %s: %s", cmd.c_str(), r.err.substr(r.err.find("ERROR") != std::string::npos ? r.err.find("ERROR") : 0, 500).c_str());
  if (r.status != 0 && r.status != 1) FAILF("exit status %d: %s: %s", r.status, cmd.c_str(), tail(r.err).c_str());
  return r.status == 0;
}
// final dimensions reported on stderr/stdout
static inline bool reported_dims(const RunRes &r, u32 &w, u32 &h) { std::string t = r.err + "\n" + r.out; size_t p = t.rfind("Final output dimensions: "); return p != std::string::npos && sscanf(t.c_str() + p, "Final output dimensions: %ux%u", &w, &h) == 2; }
// Runs a pipeline on an image, returns true and the decoded result on success.
static inline bool cli_pipe(const Img &a, const std::vector<std::string> &ops, Img &out, std::string *errtext = nullptr, std::string *stdouttext = nullptr) {
  std::string d = workdir(), in = d + "/in.png", o = d + "/out.png"; unlink(o.c_str()); spew(in, png_encode(a));
  std::vector<std::string> args{"in.png"}; for (auto &x : ops) args.push_back(x); args.push_back("out.png");
  RunRes r = cli(args); std::string cmd = "flatcv " + join(args); if (errtext) *errtext = r.err; if (stdouttext) *stdouttext = r.out;
  if (!cli_ok(r, cmd)) { REQUIRE_F(!exists(o), "failed command left an output file: %s", cmd.c_str()); return false; }
  REQUIRE_F(exists(o), "exit status 0 but no output file: %s", cmd.c_str());
  Img q = png_decode(slurp(o), "out.png"); u32 w = 0, h = 0; REQUIRE_F(reported_dims(r, w, h), "no final dimensions reported: %s", cmd.c_str());
  REQUIRE_F(w == q.w && h == q.h, "reported %ux%u but wrote %ux%u: %s", w, h, q.w, q.h, cmd.c_str());
  out = to_rgba(q); unlink(o.c_str());
  return true;
}
