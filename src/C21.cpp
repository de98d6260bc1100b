#include "pipe.hpp"
static Img gen_in(Case &c) {
  Img a = gen_img(c, 4, 1600, c.coin()); if (!c.chance(1, 5)) return a;
  u32 m = c.range(1, 3), amp = c.range(0, 30); Img o; o.w = a.w + 2 * m; o.h = a.h + 2 * m; o.d.resize(o.n() * 4); u8 col[4] = {gen_byte(c), gen_byte(c), gen_byte(c), 255}; Rng r(c.draw(1 << 20)); // a margin that is almost of one colour
  for (size_t i = 0; i < o.n(); i++) for (int k = 0; k < 4; k++) { int v = col[k] - (int)(k < 3 || col[k] ? r.below(amp + 1) : 0); o.d[i * 4 + k] = v < 0 ? 0 : v; }
  for (u32 y = 0; y < a.h; y++) memcpy(o.px(m, y + m), a.px(0, y), (size_t)a.w * 4); return o;
}
static void model(Case &c) {
  Img a = gen_in(c); bool slow = c.chance(1, 12); auto v = gen_pipeline(c, a, c.pick({4, 1}) ? 12 : 5, slow); c.note("flatcv '" + canon(v) + "' on " + show(a)); c.nontrivial(v.size() > 1 && multi_valued(a)); for (auto &o : v) c.label(o.name);
  Img e = a; std::vector<std::pair<u32, u32>> dims; bool ok = run_model(v, e, &dims); Img g; std::string err, out; bool got = cli_pipe(a, {canon(v)}, g, &err, &out);
  REQUIRE_F(got == ok, "%s although the library %s", got ? "accepted" : "rejected", ok ? "accepts every step" : "rejects a step"); if (!ok) { c.label("rejected"); return; } cmp_img(g, e, "pipeline");
  size_t p = 0; for (size_t i = 0; i < v.size(); i++) { std::string t = "Applying operation: " + v[i].name; size_t q = err.find(t, p); REQUIRE_F(q != std::string::npos && (err[q + t.size()] == '\n' || err[q + t.size()] == ' '), "step %zu (%s) is not reported", i + 1, v[i].name.c_str()); std::string d = fmt("(output: %ux%u)", dims[i].first, dims[i].second); size_t r = err.find("(output: ", q); REQUIRE_F(r != std::string::npos && err.compare(r, d.size(), d) == 0, "step %zu (%s) reports %s instead of %s", i + 1, v[i].name.c_str(), err.substr(r, 24).c_str(), d.c_str()); p = r; }
  REQUIRE_F(err.find("Applying operation:", p) == std::string::npos, "more operations reported than requested"); REQUIRE_F(err.find(fmt("Loaded image: %ux%u", a.w, a.h)) != std::string::npos, "wrong input size reported");
}
// one operation on its own, so that no other step hides its effect
static void single(Case &c) {
  Img a = gen_in(c); u32 w = a.w, h = a.h; Op o = gen_op(c, w, h, 60, c.chance(1, 15));
  if (o.name == "trim" && o.args.size() || c.chance(1, 12)) { // the edges deviate by about the tolerance
    if (o.name != "trim" || o.args.empty()) { double p = c.coin() ? c.range(1, 399) / 10.0 : c.range(1, 79) / 2.0; std::string s = num(p); p = atof(s.c_str()); o = Op(); o.name = "trim"; o.args = {s + (c.coin() ? "%" : "")}; o.model = [p](Img &a) { In i(a); i32 tw = a.w, th = a.h; u8 *r = (u8 *)fcv_trim_threshold(&tw, &th, 4, i.p, p); return put(a, r, tw, th); }; }
    int t = (int)(atof(o.args[0].c_str()) * 2.55) + (int)c.range(-1, 1); if (t < 0) t = 0; u32 side = c.draw(4), ch = c.draw(3), n = side < 2 ? a.h : a.w, odd = c.draw(n); u8 col[4] = {gen_byte(c), gen_byte(c), gen_byte(c), 255}; for (u32 i = 0; i < n; i++) { u8 *p = side == 0 ? a.px(0, i) : side == 1 ? a.px(a.w - 1, i) : side == 2 ? a.px(i, 0) : a.px(i, a.h - 1); memcpy(p, col, 4); if (i == odd) p[ch] = p[ch] + t > 255 ? std::max(0, p[ch] - t) : p[ch] + t; }
  }
  std::vector<Op> v{o}; c.note("flatcv '" + canon(v) + "' on " + show(a)); c.nontrivial(multi_valued(a)); c.label("single " + o.name); Img e = a, g; bool ok = run_model(v, e), got = cli_pipe(a, {canon(v)}, g); REQUIRE_F(got == ok, "%s although the library %s", got ? "accepted" : "rejected", ok ? "accepts it" : "rejects it"); if (ok) cmp_img(g, e, "operation");
}
static void split(Case &c) {
  Img a = gen_in(c); auto v = gen_pipeline(c, a, 5, c.chance(1, 20)); if (v.size() < 2) throw Discard(); size_t k = c.range(1, v.size() - 1); c.note(fmt("split after %zu: '", k) + canon(v) + "' on " + show(a)); c.nontrivial(multi_valued(a)); c.label("split"); Img one, m, two; bool g1 = cli_pipe(a, {canon(v)}, one); std::vector<Op> x(v.begin(), v.begin() + k), y(v.begin() + k, v.end()); bool g2 = cli_pipe(a, {canon(x)}, m) && cli_pipe(m, {canon(y)}, two); REQUIRE_F(g1 == g2, "one run %s, two runs %s", g1 ? "succeeds" : "fails", g2 ? "succeed" : "fail"); if (g1) cmp_img(two, one, "split pipeline");
}
static void repeat(Case &c) {
  Img a = gen_in(c); auto v = gen_pipeline(c, a, 4, c.chance(1, 20)); std::string ext = c.oneof<std::string>({"png", "jpg", "jpeg", "dat"}); c.note("twice: '" + canon(v) + "' to ." + ext + " on " + show(a)); c.nontrivial(multi_valued(a)); c.label("repeat ." + ext); std::string d = workdir(), f[2]; spew(d + "/in.png", png_encode(a)); bool ok[2]; for (int k = 0; k < 2; k++) { std::string o = d + fmt("/o%d.", k) + ext; unlink(o.c_str()); std::vector<std::string> args{"in.png", canon(v), fmt("o%d.", k) + ext}; RunRes r = cli(args); ok[k] = cli_ok(r, "flatcv " + join(args)); f[k] = slurp(o); REQUIRE_F(ok[k] == exists(o), "exit status and output file disagree"); unlink(o.c_str()); } REQUIRE_F(ok[0] == ok[1] && f[0] == f[1], "the same command gives different files (%zu and %zu bytes)", f[0].size(), f[1].size());
  if (c.coin()) { std::vector<std::string> args{"in.png", canon(v), "in.png"}; RunRes r = cli(args); bool o2 = cli_ok(r, "flatcv in place"); REQUIRE_F(o2 == ok[0], "writing onto the input changes the outcome"); if (o2 && (ext == "png" || ext == "dat")) REQUIRE_F(slurp(d + "/in.png") == f[0], "writing onto the input gives another file"); c.label("in place"); }
}
Property property() {
  return {"C21", "Random images and grammar-generated pipelines of 1-12 operations over all 25 operations with random valid arguments, run through the real binary; model = direct library calls in process; single operations; pipelines split at a random point into two runs; repeated and in-place runs byte for byte; reported steps and sizes. Non-trivial: several operations on a non-constant image.",
    {{"model", model, 2600, 60000}, {"single", single, 2500, 40000}, {"split", split, 1000, 15000}, {"repeat", repeat, 600, 10000}}, {"the library functions themselves are decided by C01-C19"}};
}
