#include "cli.hpp"
static int orient(const std::string &d) { std::string p = workdir() + "/x.jpg"; spew(p, d); return fcv_get_exif_orientation(p.c_str()); }
static std::string u16(u32 v, bool le) { std::string s; if (le) { s += (char)v; s += (char)(v >> 8); } else { s += (char)(v >> 8); s += (char)v; } return s; }
static std::string u32s(u32 v, bool le) { return le ? u16(v & 0xffff, 1) + u16(v >> 16, 1) : u16(v >> 16, 0) + u16(v & 0xffff, 0); }
static std::string bytes(Case &c, size_t n) { std::string s(n, 0); Rng r(c.draw(1 << 20)); int k = r.below(4); for (auto &b : s) b = k == 0 ? 0 : k == 1 ? (char)0xff : (char)r.next(); return s; }
static std::string seg(u8 m, const std::string &p) { return std::string("\xff") + (char)m + u16(p.size() + 2, false) + p; }
static std::string fill(Case &c) { return c.chance(1, 8) ? std::string(1 + c.draw(5), (char)0xff) : ""; }
static std::string other(Case &c) {
  switch (c.pick({3, 3, 2, 2, 1, 1})) {
    case 0: return seg(0xe0, std::string("JFIF\0\1\1\0\0\1\0\1\0\0", 14));
    case 1: return seg(c.oneof<u8>({0xdb, 0xc0, 0xc4, 0xfe, 0xe2, 0xed, 0xee, 0xef, 0xdd, 0xc2}), bytes(c, c.draw(80)));
    case 2: return seg(0xe1, "http://ns.adobe.com/xap/1.0/" + std::string(1, 0) + bytes(c, c.draw(60)));
    case 3: return seg(0xe1, bytes(c, c.draw(9))); // short APP1 without the Exif signature (random bytes cannot spell it)
    case 4: { static const char lit[] = "\xff\xe1\x00\x22" "Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0"; return seg(0xfe, std::string(lit, sizeof lit - 1)); } // a comment that looks like EXIF
    default: return seg(0xe2, bytes(c, c.oneof<u32>({0, 1, 65533, 65532, 32768, 4000})));
  }
}
struct Built { std::string d; size_t vpos, epos; }; // positions of the orientation value and of the EXIF identifier
static Built build(Case &c, int value, bool with_exif, bool with_tag) {
  Built b; b.vpos = std::string::npos; std::string s("\xff\xd8", 2); int n = c.draw(4); for (int i = 0; i < n; i++) { s += fill(c); s += other(c); } s += fill(c);
  if (with_exif) {
    bool le = c.coin(); std::string t = le ? "II" : "MM"; t += u16(42, le); u32 gap = c.pick({4, 1, 1}) == 0 ? 0 : c.coin() ? c.draw(20) : c.draw(3000); t += u32s(8 + gap, le); t += bytes(c, gap); int before = c.pick({3, 3, 1}) == 2 ? c.draw(300) : c.draw(6), after = c.draw(5); t += u16(before + (with_tag ? 1 : 0) + after, le);
    static const u32 tags[] = {0x0100, 0x0101, 0x010f, 0x0110, 0x0111, 0x0113, 0x1201, 0x0012, 0x0212, 0x011a, 0x011b, 0x0128, 0x0131, 0x8769, 0x9003, 0xffff, 0x0001, 0x1301}; auto ent = [&](u32 tag) { return u16(tag, le) + u16(c.oneof<u32>({3, 2, 4, 5, 7, 1}), le) + u32s(c.oneof<u32>({1, 2, 20, 0x112, 0xffffffffu, 0x01120112u}), le) + u32s(c.oneof<u32>({0, 0x01120003u, 6, 0x00060000u, 0xffffffffu, 0x03011201u}), le); };
    for (int i = 0; i < before; i++) t += ent(tags[c.draw(18)]);
    size_t vp = 0; if (with_tag) { t += u16(0x0112, le) + u16(3, le) + u32s(1, le); vp = t.size(); t += u16(value, le) + (c.coin() ? std::string(2, 0) : bytes(c, 2)); }
    for (int i = 0; i < after; i++) t += ent(tags[c.draw(18)]);
    if (c.coin()) { t += u32s((u32)t.size() + 4, le); t += u16(1, le) + u16(0x0112, le) + u16(3, le) + u32s(1, le) + u16(c.range(1, 8), le) + std::string(2, 0); } // thumbnail IFD with an orientation of its own
    t += u32s(0, le); t += bytes(c, c.draw(30)); size_t base = s.size() + 4 + 6; b.epos = base - 6; if (with_tag) b.vpos = base + vp; s += seg(0xe1, std::string("Exif\0\0", 6) + t);
  }
  int m = c.draw(3); for (int i = 0; i < m; i++) s += other(c); if (c.coin()) { s += std::string("\xff\xda\x00\x08\x01\x01\x00\x00\x3f\x00", 10); s += bytes(c, c.draw(40)); } if (c.coin()) s += "\xff\xd9"; b.d = s; return b;
}
static void valid(Case &c) { int v = c.range(1, 8); if (c.chance(1, 8)) v = c.oneof<int>({0, 9, 255, 256, 0x0600, 65535, 0x0100, 0x0800, 10}); Built b = build(c, v, true, true); int e = v >= 1 && v <= 8 ? v : 1; c.note(fmt("orientation %d at byte %zu of %zu", v, b.vpos, b.d.size())); c.nontrivial(v != 1); c.label(v >= 1 && v <= 8 ? "valid orientation" : "out of range"); int g = orient(b.d); REQUIRE_F(g == e, "orientation %d is read as %d", v, g); }
static void absent(Case &c) { bool ex = c.coin(); Built b = build(c, 1, ex, false); c.note(fmt("%s, %zu bytes", ex ? "EXIF without orientation" : "no EXIF", b.d.size())); c.nontrivial(); c.label(ex ? "no tag" : "no EXIF"); int g = orient(b.d); REQUIRE_F(g == 1, "orientation %d although there is none", g); }
static void lookalike(Case &c) { // an APP1 segment that is almost EXIF, in front of nothing or of the real one
  Built b = build(c, c.range(2, 8), true, true); size_t k = b.epos; std::string id(b.d, k, 6), s = b.d; int m = c.draw(6);
  { int p = m; char n; do n = c.oneof<char>({0, 1, ' ', (char)0xff, 'e', 'E', 'X', 'x', 'F', 'f', 'I', 'M', 'i'}); while (n == id[p]); s[k + p] = n; }
  std::string real; int v = 1; if (c.coin()) { Built r = build(c, v = c.range(2, 8), true, true); size_t end = k - 4 + 2 + ((u8)s[k - 2] << 8 | (u8)s[k - 1]); s = s.substr(0, end) + r.d.substr(2); }
  c.note(fmt("byte %d of the identifier is %02x, %s", m, (u8)s[k + m], v > 1 ? "real EXIF follows" : "nothing follows")); c.nontrivial(); c.label("almost EXIF"); int g = orient(s); REQUIRE_F(g == v, "orientation %d, expected %d", g, v); }
static void after_scan(Case &c) { Built b = build(c, c.range(2, 8), true, true); std::string s("\xff\xd8", 2); int n = c.draw(3); for (int i = 0; i < n; i++) s += other(c); s += c.coin() ? std::string("\xff\xda\x00\x08\x01\x01\x00\x00\x3f\x00", 10) : std::string("\xff\xd9"); s += b.d.substr(2); c.note("EXIF after the scan or end marker"); c.nontrivial(); c.label("after scan"); int g = orient(s); REQUIRE_F(g == 1, "orientation %d taken from behind the image data", g); }
static void truncated(Case &c) { int v = c.range(2, 8); Built b = build(c, v, true, true); size_t L = c.coin() ? c.draw(b.d.size() + 1) : std::min<size_t>(b.d.size(), b.vpos + c.draw(6) - std::min<size_t>(b.vpos, 3)); std::string s = b.d.substr(0, L); int e = L >= b.vpos + 2 ? v : 1; c.note(fmt("orientation %d at byte %zu, file cut to %zu of %zu", v, b.vpos, L, b.d.size())); c.nontrivial(L < b.vpos + 2); c.label(L < b.vpos + 2 ? "cut before the value" : "cut after the value"); int g = orient(s); REQUIRE_F(g == e, "truncated file gives %d, expected %d", g, e); }
static void corrupt(Case &c) {
  std::string s; int k = c.pick({4, 2, 2, 2}); if (k <= 1) { Built b = build(c, c.range(1, 8), true, true); s = b.d; int n = 1 + c.draw(6); for (int i = 0; i < n; i++) { size_t p = k == 0 && s.size() > 12 ? std::min<size_t>(s.size() - 1, b.vpos > 60 ? b.vpos - c.draw(60) + c.draw(10) : c.draw(60)) : c.draw(s.size()); int m = c.draw(4); if (m == 0) s[p] = (char)c.draw(256); else if (m == 1) s[p] ^= (char)(1 << c.draw(8)); else if (m == 2) s[p] = (char)0xff; else if (s.size() > 4) s.erase(p, 1 + c.draw(3)); if (s.size() < 4) break; } }
  else if (k == 2) { s = std::string("\xff\xd8", 2) + (c.coin() ? seg(0xe1, std::string("Exif\0\0", 6) + bytes(c, c.draw(60))) : bytes(c, c.draw(200))); } else { s = bytes(c, c.draw(100)); if (s.size() >= 2 && (u8)s[0] == 0xff && (u8)s[1] == 0xd8) s[0] = 0; }
  c.note(fmt("%zu corrupt bytes, hash %016llx", s.size(), (unsigned long long)fnv(s.data(), s.size()))); c.nontrivial(); c.label("corrupt"); int g = orient(s); REQUIRE_F(g >= 1 && g <= 8, "corrupt file gives %d", g); if (s.size() < 2 || (u8)s[0] != 0xff || (u8)s[1] != 0xd8) REQUIRE_F(g == 1, "a file that is no JPEG gives %d", g);
}
static void nofile(Case &c) { std::string d = workdir(); int k = c.draw(3); std::string p = k == 0 ? d + "/missing" : k == 1 ? d : d + "/empty"; if (k == 2) spew(p, ""); c.note(p); c.nontrivial(); c.label("no file"); int g = fcv_get_exif_orientation(p.c_str()); REQUIRE_F(g == 1, "%s gives %d", k == 1 ? "directory" : "missing or empty file", g); }
Property property() {
  return {"C20", "Structured JPEG/EXIF generator with known answer (both byte orders, tag position, IFD offset, decoy tags, comments and thumbnail IFDs, XMP and other segments of all sizes, fill bytes), truncations at every position, mutations and random bytes with range oracle. Non-trivial: stored value other than 1, or content that must yield the default.",
    {{"valid", valid, 40000, 500000}, {"absent", absent, 10000, 100000}, {"after_scan", after_scan, 4000, 40000}, {"lookalike", lookalike, 6000, 60000}, {"truncated", truncated, 25000, 300000}, {"corrupt", corrupt, 40000, 600000}, {"nofile", nofile, 200, 1000}}, {"orientation tags are stored as one SHORT as EXIF prescribes", "at most one EXIF segment per file"}};
}
