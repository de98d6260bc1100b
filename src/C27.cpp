// C27: the single-file distribution (flatcv.h + flatcv.c, generated by the makefile) behaves like the modular sources.
#include "api.hpp"
#include <dlfcn.h>
#include <set>
static Api M, S; static bool ready = false; static std::string build_error;
static std::string run_cmd(const std::string &cmd, int &rc) {
  FILE *p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) { rc = 127; return ""; }
  std::string o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) if (o.size() < 4000) o.append(b, n);
  rc = pclose(p); return o;
}
static std::string readf(const std::string &f) { FILE *p = fopen(f.c_str(), "rb"); std::string s; char b[4096]; size_t n; while (p && (n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); if (p) fclose(p); return s; }
static void writef(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "wb"); if (!p) throw std::runtime_error("scratch " + f); fwrite(s.data(), 1, s.size(), p); fclose(p); }
// The single-file build as a shared object with the flags of the modular one (built by check.py; its log is there if that failed).
static void load() {
  if (ready) return;
  std::string so = eng::aux_path + "/libamalg.so";
  if (access(so.c_str(), R_OK)) { std::string l = readf(eng::aux_path + "/build.log"); FAILF("the generated flatcv.c does not compile on its own: %s", l.substr(0, 600).c_str()); }
  void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) FAILF("the single-file build cannot be loaded: %s", dlerror());
  M = api_linked();
#define X(n) S.n = (decltype(S.n))dlsym(h, #n); if (!S.n) FAILF("the single-file build does not provide %s", #n); if (S.n == M.n) throw std::runtime_error("symbol " #n " resolved to the modular build");
  API_LIST(X)
#undef X
  ready = true;
}
static void same(Case &c, bool wild) {
  load(); int n = c.range(1, 3);
  for (int k = 0; k < n; k++) {
    Call q = gen_call(c, wild); c.note(q.show()); c.label(fn_name[q.fn]);
    Result a = exec(M, q, eng::scratch_dir), b = exec(S, q, eng::scratch_dir);
    if (!(a == b)) FAILF("%s: modular build gives %s, single-file build gives %s", fn_name[q.fn], a.describe().c_str(), b.describe().c_str());
    if (!a.null && a.bytes.size()) c.nontrivial();
  }
}
static void differential(Case &c) { same(c, false); }
static void rejected(Case &c) { same(c, true); }

// Generated client programs: one to four files, each including flatcv.h any number of times among other headers,
// calling or taking the address of public functions, linked with flatcv.c as one translation unit.
static void clients(Case &c) {
  if (access((eng::aux_path + "/build.log").c_str(), R_OK)) throw std::runtime_error("no build log");
  std::string d = eng::scratch_dir + fmt("/cl-%d", getpid()); int rc; run_cmd("rm -rf " + d + " && mkdir -p " + d, rc);
  std::string std_ = c.oneof<std::string>({"", "-std=gnu99", "-std=c99", "-std=c11", "-std=gnu17"}), cc = c.oneof<std::string>({"gcc", "clang"}), opt = c.oneof<std::string>({"-O0", "-O1", "-O2"});
  int files = c.range(1, 4); std::string all, desc;
  const char *H[] = {"stdio.h", "stdlib.h", "string.h", "math.h", "stdint.h", "stdbool.h", "assert.h", "float.h", "limits.h"};
  for (int f = 0; f < files; f++) {
    std::string s; int inc = c.range(1, 3), nh = c.draw(4); desc += fmt("%d", inc); if (c.chance(1, 6)) s += "#define FLATCV_AMALGAMATION\n";
    for (int k = 0; k < nh; k++) { if (inc && c.coin()) { s += "#include \"flatcv.h\"\n"; inc--; } s += fmt("#include <%s>\n", H[c.draw(9)]); }
    while (inc-- > 0) s += "#include \"flatcv.h\"\n";
    std::set<int> fs; int nf = f == 0 && c.coin() ? NFN : c.range(1, 8); for (int k = 0; k < nf; k++) fs.insert(nf == NFN ? k : (int)c.draw(NFN));
    s += fmt("int use%d(void) {\n  int n = 0;\n", f); int k = 0;
    for (int q : fs) { s += fmt("  { __typeof__(&%s) volatile p = %s; n += p != 0; }\n", fn_name[q], fn_name[q]); k++; }
    s += fmt("  return n - %d;\n}\n", k);
    if (f == 0) {
      for (int k = 1; k < files; k++) s += fmt("int use%d(void);\n", k);
      s += "int main(void) {\n  int r = use0();\n"; for (int k = 1; k < files; k++) s += fmt("  r |= use%d();\n", k);
      int w = c.range(1, 6), h = c.range(1, 6); s += fmt("  uint8_t d[%d]; for (unsigned k = 0; k < sizeof d; k++) d[k] = (uint8_t)(k * 7u);\n  uint8_t *o = fcv_flip_x(%du, %du, d);\n", w * h * 4, w, h);
      s += fmt("  r |= !o; for (unsigned k = 0; o && k < sizeof d; k++) { unsigned x = k / 4u %% %du, y = k / 4u / %du; if (o[k] != d[(y * %du + (%du - 1u - x)) * 4u + k %% 4u]) r |= 2; }\n  return r;\n}\n", w, w, w, w);
      if (s.find("free") == std::string::npos) {}
    }
    std::string fn = d + fmt("/u%d.c", f); writef(fn, s); all += " " + fn;
  }
  c.note(fmt("%s %s %s, %d file(s), includes per file %s", cc.c_str(), std_.c_str(), opt.c_str(), files, desc.c_str())); c.label(cc); c.label(files > 1 ? "several files" : "one file");
  std::string obj = eng::aux_path + "/" + cc + "/flatcv.o";
  if (access(obj.c_str(), R_OK)) { std::string l = readf(eng::aux_path + "/" + cc + "/build.log"); FAILF("the generated flatcv.c does not compile on its own with %s: %s", cc.c_str(), l.substr(0, 600).c_str()); }
  std::string o = run_cmd(cc + " " + std_ + " " + opt + " -I" + eng::aux_path + all + " " + obj + " -lm -o " + d + "/prog", rc);
  if (rc) { FAILF("a client of the single-file distribution does not build: %s", o.substr(0, 700).c_str()); }
  o = run_cmd("ASAN_OPTIONS= " + d + "/prog", rc); if (rc) FAILF("a client of the single-file distribution ended with status %d: %s", rc, o.substr(0, 200).c_str());
  run_cmd("rm -rf " + d, rc); c.nontrivial();
}
// Every function the modular sources define under the library's prefix exists in the single file, and vice versa.
static void symbols(Case &c) {
  int rc; auto names = [&](const std::string &f, bool dyn) { std::set<std::string> s; std::string o = ""; FILE *p = popen(("nm " + std::string(dyn ? "-D " : "") + "--defined-only " + f + " 2>/dev/null").c_str(), "r"); char b[4096]; while (p && fgets(b, sizeof b, p)) { char t = 0, n[2000]; if (sscanf(b, "%*s %c %1999s", &t, n) == 2 && t == 'T' && (!strncmp(n, "fcv_", 4) || !strcmp(n, "sort_corners"))) s.insert(n); } if (p) pclose(p); return s; };
  std::set<std::string> a = names("/proc/self/exe", true); { char e[4096]; ssize_t n = readlink("/proc/self/exe", e, 4095); e[n > 0 ? n : 0] = 0; a = names(e, true); }
  load(); std::set<std::string> b = names(eng::aux_path + "/libamalg.so", true);
  if (a.empty() || b.empty()) throw std::runtime_error("no symbols listed");
  for (auto &s : a) if (!b.count(s)) FAILF("the single-file build does not provide %s", s.c_str());
  for (auto &s : b) if (!a.count(s)) FAILF("the single-file build provides %s, which the modular sources lack", s.c_str());
  c.note(fmt("%zu functions", a.size())); c.nontrivial();
}
Property property() {
  return {"C27", "differential: a call returned an object or changed image; clients: the program was built and run",
          {{"symbols", symbols, 1, 1}, {"differential", differential, 6000, 300000}, {"rejected", rejected, 3000, 150000}, {"clients", clients, 60, 1000}},
          {"both builds use the same compiler and flags for the differential", "client programs are C (c99 to gnu17), gcc and clang"}};
}
