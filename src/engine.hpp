// Property-based testing engine: choice-sequence generation, integrated
// shrinking, crash isolation, deterministic from VERIF_SEED.
#pragma once
#include <algorithm>
#include <cctype>
#include <cerrno>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <spawn.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int32_t i32;
typedef int64_t i64;

static inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
};
static inline u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull) {
  const u8 *b = (const u8 *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}

static inline std::string fmt(const char *f, ...) {
  char stackbuf[2048];
  va_list ap; va_start(ap, f);
  int n = vsnprintf(stackbuf, sizeof stackbuf, f, ap);
  va_end(ap);
  if (n < (int)sizeof stackbuf) return std::string(stackbuf, n < 0 ? 0 : n);
  std::string s(n + 1, 0);
  va_start(ap, f); vsnprintf(&s[0], n + 1, f, ap); va_end(ap);
  s.resize(n);
  return s;
}

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};
#define FAILF(...) throw Failure(fmt(__VA_ARGS__))
#define REQUIRE_F(cond, ...) do { if (!(cond)) FAILF(__VA_ARGS__); } while (0)

// ---------------------------------------------------------------- Case
static u64 *g_trace = nullptr; // shared with the parent: [0] = count, then the choices drawn
static const u64 TRACE_MAX = 1u << 20;
struct Case {
  bool replaying = false;
  std::vector<u64> in, rec;   // given choices (replay) / recorded choices
  Rng rng{0};
  bool nontriv = false;
  std::string desc;
  std::vector<std::string> labels;
  u64 index = 0;
  int tier = 0; // 0 quick, 1 thorough

  // Draw in [0, n); 0 is the simplest value. n==0 means the full 64 bits.
  u64 draw(u64 n) {
    u64 v;
    if (replaying) {
      v = rec.size() < in.size() ? in[rec.size()] : 0;
      if (n && v >= n) v = n - 1;
    } else v = n ? rng.next() % n : rng.next();
    rec.push_back(v);
    if (g_trace && rec.size() < TRACE_MAX) { g_trace[rec.size()] = v; g_trace[0] = rec.size(); }
    return v;
  }
  i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo) + 1); }
  bool coin() { return draw(2); }
  bool chance(u64 num, u64 den) { return draw(den) >= den - num; } // shrinks to false
  // weighted pick; index 0 should be the simplest
  int pick(std::initializer_list<int> w) {
    u64 t = 0; for (int x : w) t += x;
    u64 v = draw(t); int i = 0;
    for (int x : w) { if (v < (u64)x) return i; v -= x; i++; }
    return 0;
  }
  template <class T> T oneof(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
  // real in [lo,hi] with 2^-20 resolution, simple values first
  double real(double lo, double hi) { return lo + (hi - lo) * (double)draw((1u << 20) + 1) / (double)(1u << 20); }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const std::string &s) { labels.push_back(s); }
  void note(const std::string &s) {
    if (desc.size() < 1500) { if (!desc.empty()) desc += "; "; desc += s; }
    if (g_trace) { char *t = (char *)(g_trace + TRACE_MAX + 1); size_t n = std::min<size_t>(desc.size(), 4000); memcpy(t, desc.data(), n); t[n] = 0; }
  }
};

struct Sub { const char *name; void (*fn)(Case &); u64 quick, thorough; };
struct Property { const char *id; const char *rule; std::vector<Sub> subs; std::vector<std::string> assumptions; };
extern Property property();

// ---------------------------------------------------------------- runner
namespace eng {
struct Shared { volatile u64 cur; volatile u64 evals; volatile u64 discards; volatile int phase; };
static std::string scratch_dir, out_path, replay_dir, cli_path, aux_path, repo_path;
static u64 seed_ = 1; static int tier_ = 0; static int jobs_ = 8;

static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}
static inline u64 subhash(const Sub &s) { return fnv(s.name, strlen(s.name)); }

enum Outcome { PASS = 0, FAIL = 1, CRASH = 2, HANG = 3, DISCARD = 4 };
struct Res { Outcome o = PASS; std::string msg; std::vector<u64> rec; std::string desc; };

static inline void run_case(const Sub &s, Case &c) { s.fn(c); }

// run one case in a forked child, cpu_limit seconds
static Res run_forked(const Sub &s, const std::vector<u64> *choices, u64 index, double cpu_limit) {
  std::string rf = scratch_dir + "/case_out";
  std::string ef = scratch_dir + "/case_err";
  unlink(rf.c_str());
  fflush(stdout); fflush(stderr);
  static u64 *trace = (u64 *)mmap(0, (TRACE_MAX + 1) * 8 + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  trace[0] = 0; *(char *)(trace + TRACE_MAX + 1) = 0;
  pid_t p = fork();
  if (p == 0) {
    g_trace = trace;
    struct rlimit rl; rl.rlim_cur = (rlim_t)cpu_limit; rl.rlim_max = (rlim_t)cpu_limit + 5; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (e >= 0) { dup2(e, 2); dup2(e, 1); }
    Case c; c.tier = tier_; c.index = index;
    if (choices) { c.replaying = true; c.in = *choices; }
    else c.rng = Rng(mix64(seed_) ^ mix64(subhash(s)) ^ mix64(index * 2 + 1));
    int code = 0; std::string msg;
    // pre-write the recorded choices even on crash: done through an atexit-free path
    FILE *f = fopen(rf.c_str(), "wb");
    static Case *cc; static FILE *ff; cc = &c; ff = f;
    auto dump = [](int code, const std::string &m) {
      fprintf(ff, "%d %zu\n", code, cc->rec.size());
      for (u64 v : cc->rec) fprintf(ff, "%llu ", (unsigned long long)v);
      fprintf(ff, "\n%zu\n", m.size()); fwrite(m.data(), 1, m.size(), ff);
      fprintf(ff, "\n%zu\n", cc->desc.size()); fwrite(cc->desc.data(), 1, cc->desc.size(), ff);
      fflush(ff);
    };
    try { run_case(s, c); }
    catch (Failure &x) { code = 1; msg = x.what(); }
    catch (Discard &) { code = 4; }
    catch (std::exception &x) { code = 5; msg = std::string("harness exception: ") + x.what(); }
    dump(code, msg);
    _exit(0);
  }
  double t0 = now(); int st = 0; Res r; bool killed = false;
  while (true) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (now() - t0 > cpu_limit * 6 + 60) { kill(p, SIGKILL); killed = true; waitpid(p, &st, 0); break; }
    usleep(now() - t0 < 0.05 ? 500 : 5000);
  }
  (void)killed;
  FILE *f = fopen(rf.c_str(), "rb");
  bool got = false;
  if (f) {
    int code; size_t n;
    if (fscanf(f, "%d %zu", &code, &n) == 2) {
      got = true;
      for (size_t i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) == 1) r.rec.push_back(v); }
      size_t m; if (fscanf(f, "%zu", &m) == 1) { fgetc(f); r.msg.resize(m); if (m) m = fread(&r.msg[0], 1, m, f); }
      if (fscanf(f, "%zu", &m) == 1) { fgetc(f); r.desc.resize(m); if (m) m = fread(&r.desc[0], 1, m, f); }
      r.o = code == 1 ? FAIL : code == 4 ? DISCARD : code == 5 ? DISCARD : PASS;
    }
    fclose(f);
  }
  if (!got) {
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL))) { r.o = HANG; r.msg = "no result within the CPU time limit"; }
    else {
      r.o = CRASH;
      r.msg = WIFSIGNALED(st) ? fmt("process ended by signal %d", WTERMSIG(st)) : fmt("process ended with status %d", WEXITSTATUS(st));
      FILE *e = fopen(ef.c_str(), "rb");
      if (e) { char b[3000]; size_t n = fread(b, 1, sizeof b, e); fclose(e); std::string t(b, n);
        size_t a = t.find("ERROR: "); size_t q = t.find("runtime error: ");
        size_t k = std::min(a, q); if (k != std::string::npos) { size_t ls = t.rfind('\n', k); ls = ls == std::string::npos ? 0 : ls + 1; r.msg += ": " + t.substr(ls, std::min<size_t>(400, t.size() - ls)); } else r.msg += ": " + t.substr(0, 300); }
    }
    r.rec.assign(trace + 1, trace + 1 + trace[0]);
    r.desc = (char *)(trace + TRACE_MAX + 1);
  }
  return r;
}
static bool bad(const Res &r) { return r.o == FAIL || r.o == CRASH || r.o == HANG; }

static std::vector<u64> shrink(const Sub &s, std::vector<u64> best, u64 index, Res &last, double budget, int maxevals, Outcome kind) {
  double t0 = now(); int ev = 0;
  auto attempt = [&](const std::vector<u64> &c) -> bool {
    if (now() - t0 > budget || ev >= maxevals) return false;
    ev++;
    Res r = run_forked(s, &c, index, 20);
    if (r.o == kind || (bad(r) && kind != HANG && r.o != HANG)) {
      std::vector<u64> n = !r.rec.empty() && r.rec.size() <= c.size() ? r.rec : c;
      best = n; last = r; return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && ev < maxevals) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.size();) {
        std::vector<u64> c = best; c.erase(c.begin() + i, c.begin() + i + chunk);
        if (attempt(c)) progress = true; else i += chunk;
        if (now() - t0 > budget) break;
      }
      if (chunk == 1) break;
    }
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < best.size(); i += chunk) {
        std::vector<u64> c = best; bool ch = false;
        for (size_t k = i; k < std::min(best.size(), i + chunk); k++) if (c[k]) { c[k] = 0; ch = true; }
        if (ch && attempt(c)) progress = true;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.size(); i++) {
      u64 lo = 0;
      while (i < best.size() && best[i] > lo) { // binary search downwards
        u64 mid = lo + (best[i] - lo) / 2;
        std::vector<u64> c = best; c[i] = mid;
        if (attempt(c)) { progress = true; continue; }
        if (mid == lo) break;
        lo = mid + 1;
        if (now() - t0 > budget) break;
      }
    }
  }
  return best;
}

static void write_evidence(const Property &P, double wall, u64 evals, u64 discards, const std::unordered_set<u64> &dist,
                           const std::map<std::string, u64> &labels, const std::vector<std::string> &samples,
                           const std::map<std::string, u64> &persub, int violations, const std::string &level, const std::string &build) {
  FILE *f = fopen(out_path.c_str(), "w");
  if (!f) { perror(out_path.c_str()); exit(2); }
  fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", jstr(P.id).c_str(), tier_ ? "thorough" : "quick", (unsigned long long)seed_, level.c_str());
  fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n  \"rule\": %s,\n", (unsigned long long)evals, dist.size(), (unsigned long long)discards, jstr(P.rule).c_str());
  fprintf(f, "  \"per_check\": {"); bool first = true;
  for (auto &k : persub) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\n  \"labels\": {"); first = true;
  for (auto &k : labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\n  \"build\": %s,\n  \"samples\": [", jstr(build).c_str()); first = true;
  for (auto &s : samples) { fprintf(f, "%s\n   %s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(f, "]\n },\n \"assumptions\": ["); first = true;
  for (auto &s : P.assumptions) { fprintf(f, "%s%s", first ? "" : ", ", jstr(s).c_str()); first = false; }
  fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
  fclose(f);
}

static volatile sig_atomic_t stop_flag = 0;
static void worker(const Property &P, const std::vector<std::pair<int, u64>> &plan, int w, Shared *sh, double deadline, u64 stop_after) {
  std::unordered_set<u64> dist; std::map<std::string, u64> labels, persub; std::vector<std::string> samples;
  std::map<int, int> samplecount;
  signal(SIGTERM, [](int) { stop_flag = 1; });
  std::string base = scratch_dir + fmt("/w%d", w);
  auto flush = [&]() {
    FILE *f = fopen((base + ".stats").c_str(), "wb");
    if (!f) return;
    fprintf(f, "%zu\n", dist.size()); for (u64 h : dist) fprintf(f, "%llu\n", (unsigned long long)h);
    fprintf(f, "%zu\n", labels.size()); for (auto &k : labels) fprintf(f, "%llu %s\n", (unsigned long long)k.second, k.first.c_str());
    fprintf(f, "%zu\n", persub.size()); for (auto &k : persub) fprintf(f, "%llu %s\n", (unsigned long long)k.second, k.first.c_str());
    fprintf(f, "%zu\n", samples.size()); for (auto &s : samples) { std::string t = s; for (char &c : t) if (c == '\n') c = ' '; fprintf(f, "%s\n", t.c_str()); }
    fclose(f);
  };
  for (u64 i = w; i < plan.size(); i += jobs_) {
    if (stop_flag) break;
    if (now() > deadline) { sh[w].phase = 3; break; }
    const Sub &s = P.subs[plan[i].first];
    sh[w].cur = i;
    Case c; c.tier = tier_; c.index = plan[i].second;
    c.rng = Rng(mix64(seed_) ^ mix64(subhash(s)) ^ mix64(c.index * 2 + 1));
    bool discarded = false;
    try { run_case(s, c); }
    catch (Failure &x) {
      FILE *f = fopen((base + ".fail").c_str(), "wb");
      fprintf(f, "%llu\n%s\n", (unsigned long long)i, x.what()); fclose(f);
      flush(); _exit(7);
    }
    catch (Discard &) { discarded = true; }
    sh[w].evals++;
    persub[s.name]++;
    if (discarded) { sh[w].discards++; continue; }
    for (auto &l : c.labels) labels[l]++;
    if (c.nontriv) {
      u64 h = fnv(c.rec.data(), c.rec.size() * 8, subhash(s));
      if (dist.size() < 300000) dist.insert(h);
      if (samplecount[plan[i].first] < 2 && w == 0 && !c.desc.empty()) { samples.push_back(std::string(s.name) + ": " + c.desc.substr(0, 600)); samplecount[plan[i].first]++; }
    }
    if (stop_after && i == stop_after) break;
  }
  flush(); fflush(stdout); _exit(0);
}

static std::string write_replay(const Property &P, const Sub &s, u64 planidx, u64 index, const std::vector<u64> &ch, const Res &r, const char *mode) {
  mkdir(replay_dir.c_str(), 0755);
  std::string path = replay_dir + fmt("/%s-%s.json", P.id, s.name);
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return path;
  fprintf(f, "{\n \"property\": %s,\n \"check\": %s,\n \"mode\": \"%s\",\n \"seed\": %llu,\n \"tier\": %d,\n \"jobs\": %d,\n \"plan_index\": %llu,\n \"case_index\": %llu,\n \"message\": %s,\n \"case\": %s,\n \"choices\": [",
          jstr(P.id).c_str(), jstr(s.name).c_str(), mode, (unsigned long long)seed_, tier_, jobs_, (unsigned long long)planidx, (unsigned long long)index, jstr(r.msg).c_str(), jstr(r.desc).c_str());
  for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)ch[i]);
  fprintf(f, "]\n}\n"); fclose(f);
  return path;
}

static int main_(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string replay, level = "exploration", build = "", only; double cap = 0; double scale = 1; bool once = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed_ = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") tier_ = val() == "thorough";
    else if (a == "--jobs") jobs_ = atoi(val().c_str());
    else if (a == "--scratch") scratch_dir = val();
    else if (a == "--out") out_path = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--level") level = val();
    else if (a == "--build") build = val();
    else if (a == "--cli") cli_path = val();
    else if (a == "--aux") aux_path = val();
    else if (a == "--repo") repo_path = val();
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--once") once = true;
  }
  (void)once;
  Property P = property();
  double t0 = now();
  if (!replay.empty()) { // deterministic re-run of a saved failure
    FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
    std::string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    auto field = [&](const char *k) { size_t p = t.find(std::string("\"") + k + "\": "); p = t.find(':', p) + 2; return t.substr(p, t.find_first_of(",\n", p) - p); };
    std::string name = field("check"); name = name.substr(1, name.size() - 2);
    std::vector<u64> ch; size_t p = t.find("\"choices\": ["); p = t.find('[', p) + 1;
    while (p < t.size() && t[p] != ']') { char *e; ch.push_back(strtoull(t.c_str() + p, &e, 10)); p = e - t.c_str(); if (t[p] == ',') p++; }
    for (auto &s : P.subs) if (name == s.name) {
      tier_ = atoi(field("tier").c_str());
      Res r = run_forked(s, &ch, strtoull(field("case_index").c_str(), 0, 10), 60);
      printf("replay %s/%s: %s %s\n  case: %s\n", P.id, s.name, bad(r) ? "FAILS" : "passes", r.msg.c_str(), r.desc.c_str());
      if (bad(r)) { printf("VIOLATION property=%s replay=%s\n", P.id, replay.c_str()); return 1; }
      return 0;
    }
    fprintf(stderr, "unknown check in replay\n"); return 2;
  }
  // plan: interleave the sub-checks proportionally
  std::vector<std::pair<int, u64>> plan;
  {
    std::vector<u64> cnt; u64 mx = 0;
    for (auto &s : P.subs) { u64 n = tier_ ? s.thorough : s.quick; if (!only.empty() && only != s.name) n = 0; n = n ? std::max<u64>(1, (u64)(n * scale)) : 0; cnt.push_back(n); mx = std::max(mx, n); }
    std::vector<std::tuple<double, int, u64>> v;
    for (size_t k = 0; k < cnt.size(); k++) for (u64 i = 0; i < cnt[k]; i++) v.emplace_back((i + 0.5) / cnt[k], (int)k, i);
    std::sort(v.begin(), v.end());
    for (auto &x : v) plan.emplace_back(std::get<1>(x), std::get<2>(x));
  }
  Shared *sh = (Shared *)mmap(0, sizeof(Shared) * 256, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (cap <= 0) cap = tier_ ? 3000 : 400;
  std::vector<pid_t> pids(jobs_); std::vector<int> done(jobs_, 0), status(jobs_, 0);
  for (int w = 0; w < jobs_; w++) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      int e = open((scratch_dir + fmt("/w%d.err", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (e >= 0) { dup2(e, 2); dup2(e, 1); }
      worker(P, plan, w, sh, t0 + cap, 0);
    }
    pids[w] = p;
  }
  int live = jobs_; i64 failw = -1; bool hung = false;
  std::vector<u64> lastcur(jobs_, ~0ull); std::vector<double> lastt(jobs_, now());
  auto cpu_of = [&](pid_t p) -> double {
    FILE *f = fopen(fmt("/proc/%d/stat", p).c_str(), "r"); if (!f) return 0; char b[1024]; size_t n = fread(b, 1, 1023, f); fclose(f); b[n] = 0;
    char *q = strrchr(b, ')'); if (!q) return 0; unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st); return (ut + st) / (double)sysconf(_SC_CLK_TCK);
  };
  std::vector<double> cpu0(jobs_, 0);
  while (live && failw < 0) {
    for (int w = 0; w < jobs_; w++) if (!done[w]) {
      int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) { done[w] = 1; status[w] = st; live--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { failw = w; break; } continue; }
      if (sh[w].cur != lastcur[w]) { lastcur[w] = sh[w].cur; lastt[w] = now(); cpu0[w] = cpu_of(pids[w]); }
      else if (now() - lastt[w] > 60 && (cpu_of(pids[w]) - cpu0[w] > 50 || now() - lastt[w] > 240)) { failw = w; hung = true; break; }
    }
    usleep(2000);
  }
  for (int w = 0; w < jobs_; w++) if (!done[w]) kill(pids[w], SIGTERM);
  double k0 = now();
  for (int w = 0; w < jobs_; w++) if (!done[w]) { int st; while (waitpid(pids[w], &st, WNOHANG) == 0) { if (now() - k0 > 3) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); break; } usleep(2000); } }
  u64 evals = 0, discards = 0; bool capped = false;
  for (int w = 0; w < jobs_; w++) { evals += sh[w].evals; discards += sh[w].discards; if (sh[w].phase == 3) capped = true; }
  std::unordered_set<u64> dist; std::map<std::string, u64> labels, persub; std::vector<std::string> samples;
  for (int w = 0; w < jobs_; w++) {
    FILE *f = fopen((scratch_dir + fmt("/w%d.stats", w)).c_str(), "rb"); if (!f) continue;
    char line[8192]; auto rd = [&]() -> std::string { if (!fgets(line, sizeof line, f)) return ""; size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0; return line; };
    u64 n = strtoull(rd().c_str(), 0, 10); for (u64 i = 0; i < n; i++) dist.insert(strtoull(rd().c_str(), 0, 10));
    for (auto m : {&labels, &persub}) { n = strtoull(rd().c_str(), 0, 10); for (u64 i = 0; i < n; i++) { std::string l = rd(); char *e; u64 v = strtoull(l.c_str(), &e, 10); (*m)[e + 1] += v; } }
    n = strtoull(rd().c_str(), 0, 10); for (u64 i = 0; i < n; i++) samples.push_back(rd());
    fclose(f);
  }
  int violations = 0; int rc = 0;
  if (failw >= 0) {
    u64 pi = sh[failw].cur;
    const Sub &s = P.subs[plan[pi].first]; u64 idx = plan[pi].second;
    fprintf(stderr, "candidate failure: %s/%s case %llu%s, confirming\n", P.id, s.name, (unsigned long long)idx, hung ? " (no progress)" : "");
    Res r = run_forked(s, nullptr, idx, hung ? 60 : 40);
    if (!bad(r)) r = run_forked(s, nullptr, idx, hung ? 60 : 40);
    if (bad(r)) {
      std::vector<u64> ch; Res last = r;
      bool usech = false;
      if (!r.rec.empty()) { ch = r.rec; usech = true; }
      if (usech) {
        Res chk = run_forked(s, &ch, idx, hung ? 60 : 40);
        if (r.o == HANG && chk.o == HANG) last = chk;
        else if (bad(chk) && !getenv("VERIF_NOSHRINK")) { last = chk; ch = shrink(s, ch, idx, last, hung ? 5 : 60, 3000, r.o); }
        else usech = false;
      }
      int ok = 0; if (r.o == HANG) ok = last.o == HANG ? 3 : 0; else for (int k = 0; k < 3; k++) { Res q = run_forked(s, usech ? &ch : nullptr, idx, hung ? 60 : 40); if (bad(q)) { ok++; last = q; } }
      if (ok == 3) {
        std::string path = write_replay(P, s, pi, idx, usech ? ch : std::vector<u64>(), last, usech ? "choices" : "seeded");
        printf("check %s: %s\n  case: %s\n", s.name, last.msg.c_str(), last.desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", P.id, path.c_str());
        violations = 1; rc = 1;
      } else fprintf(stderr, "not reproducible in isolation (%d/3)\n", ok);
    }
    if (!violations) {
      // History-dependent failure: re-run the worker's whole sequence afresh, twice.
      int again = 0; std::string msg;
      for (int k = 0; k < 2; k++) {
        unlink((scratch_dir + fmt("/w%d.fail", (int)failw)).c_str());
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) { int e = open((scratch_dir + "/hist.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (e >= 0) { dup2(e, 2); dup2(e, 1); } worker(P, plan, failw, sh, now() + 600, pi); }
        int st; double h0 = now(); bool to = false;
        while (waitpid(p, &st, WNOHANG) != p) { if (now() - h0 > 300) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; } usleep(5000); }
        if (!to && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && sh[failw].cur == pi) again++;
      }
      if (again == 2) {
        Res r2; r2.msg = "fails only after the preceding calls of the same process (history-dependent result)";
        FILE *f = fopen((scratch_dir + fmt("/w%d.fail", (int)failw)).c_str(), "rb"); if (f) { char b[1500]; size_t n = fread(b, 1, sizeof b, f); fclose(f); r2.msg += ": " + std::string(b, n); }
        std::string path = write_replay(P, s, pi, idx, {}, r2, "history");
        printf("check %s: %s\n", s.name, r2.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", P.id, path.c_str());
        violations = 1; rc = 1;
      } else {
        fprintf(stderr, "candidate failure did not reproduce; treated as inconclusive and not reported\n");
      }
    }
  }
  write_evidence(P, now() - t0, evals, discards, dist, labels, samples, persub, violations, level, build);
  printf("%s %s: %llu cases, %zu distinct non-trivial, %llu discarded%s, %.1f s, %s\n", P.id, tier_ ? "thorough" : "quick", (unsigned long long)evals, dist.size(), (unsigned long long)discards, capped ? " (time cap reached)" : "", now() - t0, rc ? "VIOLATED" : "held");
  return rc;
}
} // namespace eng

#ifndef ENGINE_NO_MAIN
int main(int argc, char **argv) { return eng::main_(argc, argv); }
#endif
