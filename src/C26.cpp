// C26: calls are pure - inputs intact, results repeatable, independent of history, memory contents and other threads, no leaks.
#ifdef HARNESS_TSAN
#define ENGINE_NO_MAIN
#endif
#include "alloc.hpp"
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
static Api A;

// a call related to an earlier one: same function and size, other content or other arguments
static Call gen_related(Case &c, const Call &k) {
  Call q = k;
  if (c.coin() && k.img.n() && k.img.ch >= 1 && k.img.ch <= 4) q.img = gen_content(c, k.img.w, k.img.h, k.img.ch);
  else { Call z; z.fn = k.fn; z.img = k.img; gen_args(c, z, false); q = z; }
  return q;
}
static void balance(const Call &k) {
  if (alloc::live) FAILF("%s left %zu allocation(s), %zu bytes, after its result was freed", fn_name[k.fn], alloc::live, alloc::live_bytes);
}
// One call, repeated under different memory contents, buffer alignments and neighbouring calls.
static void repeat(Case &c) {
  A = api_linked(); bool wild = c.chance(1, 4);
  Call k = gen_call(c, wild); c.note(k.show()); c.label(fn_name[k.fn]);
  alloc::reset(); alloc::fill_on = true; alloc::fill = 0; Result r0 = exec(A, k, eng::scratch_dir); balance(k);
  u64 made = alloc::count;
  alloc::fill = 0xffffffffffffffffull & ~3ull; Result r1 = exec(A, k, eng::scratch_dir); balance(k);
  if (!(r0 == r1)) FAILF("%s gives different results for the same arguments when fresh memory contains other values", fn_name[k.fn]);
  Call other = c.coin() ? gen_related(c, k) : gen_call(c, false);
  try { exec(A, other, eng::scratch_dir); } catch (Failure &) { throw; } balance(other);
  k.align = c.range(0, 17); alloc::fill = (u64)c.draw(1u << 30) | 1; Result r2 = exec(A, k, eng::scratch_dir); balance(k);
  if (!(r0 == r2)) FAILF("%s gives a different result for the same arguments after another call (buffer offset %d)", fn_name[k.fn], k.align);
  alloc::fill_on = false;
  c.nontrivial(!r0.null && r0.bytes.size() > 0); c.label(made ? "allocates" : "no allocation");
}
// A history of calls: each result equals that of the same call made first thing in a fresh process.
struct Slot { u64 hash; u32 done; u32 err; char msg[300]; };
static void run_child(const std::vector<const Call *> &v, Slot *s, size_t n) {
  memset(s, 0, sizeof(Slot) * n); fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    for (size_t k = 0; k < n; k++) {
      try { s[k].hash = exec(A, *v[k], eng::scratch_dir).hash(); s[k].done = 1; }
      catch (std::exception &e) { s[k].err = 1; snprintf(s[k].msg, sizeof s[k].msg, "%s", e.what()); _exit(3); }
    }
    _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    for (size_t k = 0; k < n; k++) { if (s[k].err) FAILF("%s", s[k].msg); if (!s[k].done) FAILF("%s ended the process (call %zu of the history)", fn_name[v[k]->fn], k + 1); }
    throw Discard();
  }
}
static void history(Case &c) {
  A = api_linked(); alloc::reset();
  static Slot *sh = (Slot *)mmap(0, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int n = c.range(2, 7); std::vector<Call> calls; bool same = c.chance(1, 3); Fn f0 = gen_fn(c);
  for (int k = 0; k < n; k++) {
    if (k && c.chance(1, 2)) calls.push_back(gen_related(c, calls[c.draw(k)]));
    else calls.push_back(same ? gen_call_of(c, f0, false) : gen_call(c, false));
    c.note(fmt("#%d ", k) + calls.back().show().substr(0, 160)); c.label(fn_name[calls.back().fn]);
  }
  if (c.coin()) calls.push_back(calls[c.draw(n)]); // ask again at the end
  std::vector<const Call *> v; for (auto &k : calls) v.push_back(&k);
  run_child(v, sh, v.size());
  std::vector<u64> h; for (size_t k = 0; k < v.size(); k++) h.push_back(sh[k].hash);
  for (size_t k = 1; k < v.size(); k++) {
    run_child({v[k]}, sh, 1);
    if (sh[0].hash != h[k]) FAILF("%s as call %zu of a history gives another result than the same call in a fresh process", fn_name[v[k]->fn], k + 1);
  }
  c.nontrivial();
}
// Concurrent calls, run in a ThreadSanitizer build of the library.
static int run_aux(u64 seed, int threads, int calls, std::string &out) {
  int fd[2]; if (pipe(fd)) return -1;
  pid_t p = fork();
  if (p == 0) {
    dup2(fd[1], 1); dup2(fd[1], 2); close(fd[0]); std::string a = fmt("%llu", (unsigned long long)seed), b = fmt("%d", threads), d = fmt("%d", calls);
    execl(eng::aux_path.c_str(), eng::aux_path.c_str(), a.c_str(), b.c_str(), d.c_str(), eng::scratch_dir.c_str(), (char *)nullptr); _exit(126);
  }
  close(fd[1]); char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) if (out.size() < 20000) out.append(buf, n);
  close(fd[0]); int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static void threads(Case &c) {
  u64 seed = c.draw(1u << 30); int t = c.range(2, 4), n = c.range(1, 6); c.note(fmt("seed %llu, %d threads with %d calls each", (unsigned long long)seed, t, n));
  std::string o; static int ok = -1;
  if (ok < 0) { std::string q; ok = run_aux(0, 0, 0, q) == 0 && q.find("probe ok") != std::string::npos; }
  if (!ok) { c.label("thread sanitizer cannot run here"); throw Discard(); }
  int rc = run_aux(seed, t, n, o);
  if (rc == 126) throw Discard();
  size_t k = o.find("WARNING: ThreadSanitizer"); if (k != std::string::npos) { size_t s = o.find("SUMMARY:", k); FAILF("concurrent calls are not independent: %s", o.substr(s == std::string::npos ? k : s, 300).c_str()); }
  if (rc == 98) FAILF("concurrent calls: %s", o.substr(0, 400).c_str());
  if (rc) FAILF("concurrent calls ended with status %d: %s", rc, o.substr(0, 400).c_str());
  c.nontrivial(); c.label("concurrent");
}
#ifdef HARNESS_TSAN
int main(int argc, char **argv) {
  u64 seed = strtoull(argv[1], 0, 10); int T = atoi(argv[2]), n = atoi(argv[3]); if (T == 0) { std::thread t([] {}); t.join(); puts("probe ok"); return 0; }
  std::string dir = argv[4]; A = api_linked(); Case c; c.rng = Rng(seed); bool same = c.coin();
  std::vector<std::vector<Call>> lists(T);
  for (int k = 0; k < n; k++) { Fn f = gen_fn(c); for (int t = 0; t < T; t++) { if (!same) f = gen_fn(c); lists[t].push_back(t && same && c.coin() ? gen_related(c, lists[0][k]) : gen_call_of(c, f, false)); } }
  std::vector<std::vector<u64>> got(T, std::vector<u64>(n * 3)); std::atomic<int> ready{0}; std::vector<std::string> err(T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; t++) th.emplace_back([&, t] {
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) {}
    try { for (int r = 0; r < 3; r++) for (int k = 0; k < n; k++) got[t][r * n + k] = exec(A, lists[t][k], dir).hash(); }
    catch (std::exception &e) { err[t] = e.what(); }
  });
  for (auto &x : th) x.join();
  for (int t = 0; t < T; t++) if (!err[t].empty()) { printf("%s\n", err[t].c_str()); return 98; }
  for (int t = 0; t < T; t++) for (int k = 0; k < n; k++) { u64 w = exec(A, lists[t][k], dir).hash(); for (int r = 0; r < 3; r++) if (got[t][r * n + k] != w) { printf("%s gave another result while other calls were running\n", fn_name[lists[t][k].fn]); return 98; } }
  return 0;
}
#endif
Property property() {
  return {"C26", "repeat: the call returned an object or changed image; history/threads: at least two calls were made",
          {{"repeat", repeat, 6000, 200000}, {"history", history, 450, 20000}, {"threads", threads, 180, 6000}},
          {"allocations are those made through malloc/calloc/realloc by the library's objects", "thread schedules are those the operating system produced; races are found by ThreadSanitizer's happens-before analysis"}};
}
