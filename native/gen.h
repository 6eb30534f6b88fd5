// Stimulus shared by the differential harnesses: instruction-biased words and
// a small deterministic generator.  Nothing here judges anything.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <set>
#include <time.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
struct Rng {
  u64 s;
  Rng(u64 seed = 1) { s = seed * 0x9e3779b97f4a7c15ull + 0x1234567; next(); next(); }
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u32 u() { return (u32)next(); }
  u32 n(u32 k) { return k ? (u32)((next() >> 11) % k) : 0; }
  bool p(int pct) { return n(100) < (u32)pct; }
};
static const u32 csrs_impl[] = {0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344};
static const u32 csrs_ro0[] = {0xf11, 0xf12, 0xf13, 0xf14, 0xf15, 0x301, 0x310, 0x320, 0x343, 0xb00, 0xb02, 0xb03, 0xb80, 0xb83, 0x323, 0x33f};
// Constants the design under test compares with (emitted by nirc.py): used as
// operands, immediates, instruction words and wait lengths, so that behaviour
// keyed on a particular value is met.
struct DictE { u64 v, m; int w; };
static std::vector<DictE> dictv;
template <class T> static void dict_load(const T *d, int n) {
  for (int i = 0; i < n; i++) { bool have = false; for (auto &e : dictv) have |= e.v == d[i].v && e.m == d[i].m && e.w == d[i].w; if (!have) dictv.push_back({d[i].v, d[i].m, d[i].w}); }
}
static u32 dict_val(Rng &r) {
  if (dictv.empty()) return r.u();
  const DictE &e = dictv[r.n(dictv.size())];
  u64 v = (e.v & e.m) | (r.next() & ~e.m & (e.w < 64 ? (1ull << e.w) - 1 : ~0ull));
  if (r.p(15)) v += r.p(50) ? 1 : -1;
  if (e.w < 32) { u32 s = r.p(40) ? 0 : r.n(33 - e.w), f = r.p(60) ? 0 : r.u(), mk = ((1u << e.w) - 1) << s; return ((u32)v << s & mk) | (f & ~mk); }
  return r.p(80) ? (u32)v : (u32)(v << 2);
}
static u32 dict_len(Rng &r, u32 cap) {   // a length near a compared constant
  for (int k = 0; k < 8 && dictv.size(); k++) { const DictE &e = dictv[r.n(dictv.size())]; if (e.v > 20 && e.v < cap) return e.v - 3 + r.n(8); }
  u32 b = r.n(18); u32 v = (1u << b) + r.n(8); return v < cap ? v : cap;
}
// Flavours: 0 legal-biased, 1 mutated legal, 2 random
static u32 gen_word(Rng &r) {
  u32 k = r.n(100);
  if (k < 3) return r.u();
  if (k == 3) return r.p(20) ? dict_val(r) : r.u();
  u32 rd = r.n(32), a = r.n(32), b = r.n(32), f3 = r.n(8), w;
  if (r.p(40)) { rd &= 7; a &= 7; b &= 7; }
  if (r.p(20)) a = 0;
  if (k < 22) w = ((f3 == 0 || f3 == 5) && r.p(40) ? 0x40000000 : 0) | b << 20 | a << 15 | f3 << 12 | rd << 7 | 0x33;
  else if (k < 42) {
    u32 imm = r.p(30) ? (r.p(50) ? r.n(8) : 0xfff - r.n(8)) : r.n(4096);
    if (f3 == 1) imm &= 31; if (f3 == 5) imm = (imm & 31) | (r.p(50) ? 0x400 : 0);
    w = imm << 20 | a << 15 | f3 << 12 | rd << 7 | 0x13;
  } else if (k < 48) w = (r.u() & 0xfffff000) | rd << 7 | (r.p(60) ? 0x37 : 0x17);
  else if (k < 58) { static const u8 t[] = {0, 1, 4, 5, 6, 7}; u32 o = r.u(); if (r.p(70)) o &= ~(1u << 8); w = (o & 0xfe000f80) | b << 20 | a << 15 | t[r.n(6)] << 12 | 0x63; }
  else if (k < 62) { w = r.u() & 0xfffff000; if (r.p(70)) w &= ~(1u << 21); w |= rd << 7 | 0x6f; }
  else if (k < 66) w = (r.n(4096) & ~(r.p(60) ? 3 : 0)) << 20 | a << 15 | rd << 7 | 0x67;
  else if (k < 75) { static const u8 t[] = {0, 1, 2, 4, 5}; u32 x = t[r.n(5)], imm = r.n(4096); if (r.p(60)) imm &= ~3, a = r.p(50) ? 0 : a; w = imm << 20 | a << 15 | x << 12 | rd << 7 | 0x03; }
  else if (k < 86) { u32 x = r.n(3), imm = r.n(4096); if (r.p(60)) imm &= ~3, a = r.p(50) ? 0 : a; w = (imm >> 5) << 25 | b << 20 | a << 15 | x << 12 | (imm & 31) << 7 | 0x23; }
  else if (k < 97) {
    u32 c = r.p(75) ? csrs_impl[r.n(7)] : r.p(70) ? csrs_ro0[r.n(16)] : r.n(4096);
    u32 g = r.n(6); g = g < 3 ? g + 1 : g + 2;
    w = c << 20 | a << 15 | g << 12 | rd << 7 | 0x73;
  } else if (k == 97) w = r.p(50) ? 0x30200073 : 0x10500073;
  else if (k == 98) w = r.p(50) ? 0x73 : 0x100073;
  else w = 0x0000000f | (r.u() & 0xfff00f80);
  if (r.p(4)) w ^= 1u << r.n(32);
  if (r.p(2)) w ^= r.u() & 0x707f;
  return w;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 mix64(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; return z ^ (z >> 32); }
static u32 lanes(u32 sel) { u32 m = 0; for (int i = 0; i < 4; i++) if (sel >> i & 1) m |= 0xffu << (8 * i); return m; }
// Random words trap every few instructions, so a core fed with them hardly ever has interrupts enabled.  calm_word() never
// traps (as long as nothing made it so); seq_word() mixes it in and, in groups of four words, turns interrupts on.
static u32 calm_word(Rng &r) {
  u32 k = r.n(100), rd = r.n(32), a = r.n(32), b = r.n(32), f3 = r.n(8);
  if (k < 30) return ((f3 == 0 || f3 == 5) && r.p(40) ? 0x40000000 : 0) | b << 20 | a << 15 | f3 << 12 | rd << 7 | 0x33;
  if (k < 56) { u32 imm = r.p(20) ? 0xfff - r.n(8) : r.n(4096); if (f3 == 1) imm &= 31; if (f3 == 5) imm = (imm & 31) | (r.p(50) ? 0x400 : 0); return imm << 20 | a << 15 | f3 << 12 | rd << 7 | 0x13; }
  if (k < 64) return (r.u() & 0xfffff000) | rd << 7 | (r.p(60) ? 0x37 : 0x17);
  if (k < 74) { static const u8 t[] = {0, 1, 4, 5, 6, 7}; return (r.u() & 0xfe000e80) | b << 20 | a << 15 | t[r.n(6)] << 12 | 0x63; }
  if (k < 77) return (r.u() & 0xffdff000) | rd << 7 | 0x6f;
  if (k < 83) { static const u8 t[] = {0, 1, 2, 4, 5}; u32 x = t[r.n(5)], imm = r.n(4096) & ~3; return imm << 20 | x << 12 | rd << 7 | 0x03; }
  if (k < 90) { u32 imm = r.n(4096) & ~3; return (imm >> 5) << 25 | b << 20 | r.n(3) << 12 | (imm & 31) << 7 | 0x23; }
  if (k < 97) { static const u32 cs[] = {0x305, 0x340, 0x341, 0x342, 0x344, 0xf11, 0xb00, 0x301}; u32 c = cs[r.n(8)]; bool ro = (c >> 10) == 3; u32 g = ro ? 2 : r.n(6); if (!ro) g = g < 3 ? g + 1 : g + 2; return c << 20 | (ro ? 0 : a) << 15 | g << 12 | rd << 7 | 0x73; }
  return k == 97 ? 0x30200073 : k == 98 ? 0x10500073 : 0x0000000f | (r.u() & 0xfff00f80);
}
// Groups of eight words that bring two related values (often ones the design compares with) into registers and use them together.
static u32 value_word(u64 h, int i) {
  Rng R(h); u32 c = R.n(8), a = 1 + R.n(31), b = 1 + R.n(31), t = R.n(32), f3 = R.n(8), v = c < 4 ? dict_val(R) : c == 4 ? 1u << R.n(32) : c == 5 ? R.n(64) << 2 : R.u(), w = R.u(), rel = R.n(8), x = R.u();
  if (a == b) b = b ^ 1 ? b ^ 1 : 2;
  if (rel == 7 && dictv.size()) w = dict_val(R);
  switch (i) {
    case 0: return x & 1 ? ((x >> 20) & 0xffc) << 20 | 2 << 12 | a << 7 | 0x03 : (v + 0x800) & 0xfffff000 | a << 7 | 0x37;
    case 1: return x & 1 ? v : v << 20 | a << 15 | a << 7 | 0x13;
    case 2: switch (rel) { case 0: return 0xfff00013 | a << 15 | 4 << 12 | b << 7; case 1: return 0x40000033 | a << 20 | b << 7; case 2: return 0x00100013 | a << 15 | b << 7; case 3: return 0xfff00013 | a << 15 | b << 7; case 4: return 0x13 | a << 15 | b << 7; case 5: return 0x00400013 | a << 15 | b << 7; default: return (w + 0x800) & 0xfffff000 | b << 7 | 0x37; }
    case 3: return rel >= 6 ? w << 20 | b << 15 | b << 7 | 0x13 : 0x13;
    case 4: case 5: case 6: {
      u32 k = (x >> (4 * i)) & 15, p = x >> 30 & 1 ? a : b, q = p == a ? b : a; if (i == 5) { u32 z = p; p = q; q = z; }
      if (k < 4) return ((f3 == 0 || f3 == 5) && k & 1 ? 0x40000000u : 0) | q << 20 | p << 15 | f3 << 12 | t << 7 | 0x33;
      if (k < 6) return q << 20 | p << 15 | (k & 1) << 13 | 0x23;                            // sb/sw q, 0(p)
      if (k == 6) return p << 20 | (0x200u + (x & 0xc)) >> 5 << 25 | (x & 0xc) << 7 | 2 << 12 | 0x23;   // sw p, abs
      if (k < 9) { static const u8 l[] = {0, 1, 2, 2, 4, 5, 2, 2}; return p << 15 | (u32)l[f3] << 12 | t << 7 | 0x03; }
      if (k < 11) { static const u8 l[] = {0, 1, 4, 5, 6, 7, 0, 1}; return (x & 0xfe000e80) | q << 20 | p << 15 | (u32)l[f3] << 12 | 0x63; }
      if (k == 11) return p << 15 | t << 7 | 0x67;
      if (k == 12) { static const u32 cs[] = {0x305, 0x340, 0x341, 0x342}; return cs[f3 & 3] << 20 | p << 15 | (1 + (f3 >> 2)) << 12 | t << 7 | 0x73; }
      if (k == 13) { u32 m = x >> 20 & 0xfff; if (f3 == 1) m &= 31; if (f3 == 5) m = (m & 31) | (x & 0x400); return m << 20 | p << 15 | f3 << 12 | t << 7 | 0x13; }
      return 0x33 | p << 15 | f3 << 12 | q << 7 | (f3 == 0 || f3 == 5 ? 0 : q << 20); }
    default: return 0x23 | t << 20 | 2 << 12 | (x & 0x1c) << 7;
  }
}
struct Mood { u64 id = 0; int calm = 0, on = 0, vals = 0; void init(Rng &r) { id = r.next(); calm = r.p(40) ? 0 : r.p(50) ? 100 : 50 + r.n(50); on = r.p(30) ? 0 : 1 + r.n(12); vals = r.p(40) ? 0 : r.p(30) ? 80 : 5 + r.n(40); } };
static u32 seq_word(Rng &r, const Mood &q, u64 k) {   // k: transfers completed so far
  if (q.vals) { u64 g = mix64(q.id ^ 0xa7, k >> 3); if ((int)(g % 100) < q.vals) return value_word(g, k & 7); }
  u64 h = mix64(q.id ^ 0x5c, k >> 2);
  if ((int)(h % 100) < q.on) { u32 a = 1 + (h >> 20) % 31; switch (k & 3) { case 0: return 0xfff00013 | a << 7; case 1: return 0x30402073 | a << 15; case 2: return (h >> 40 & 1 ? 0x30001073 : 0x30002073) | a << 15; default: return h >> 41 & 1 ? 0x30046073 : calm_word(r); } }
  return (int)r.n(100) < q.calm ? calm_word(r) : gen_word(r);
}
static u32 huge_len(Rng &r) { return (1u << (16 + r.n(5))) + r.n(12); }   // waits of 2^16 .. 2^20 cycles
struct Opts {
  u64 seed = 1, only = 0; bool only_set = false; long episodes = 10; int len = 2000; double maxsec = 1e9; int stop = 5; int mode = -1; bool huge = false;
  int parse(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; size_t p = a.find('='); std::string k = a.substr(0, p), v = p == std::string::npos ? "" : a.substr(p + 1);
      if (k == "seed") seed = strtoull(v.c_str(), 0, 0); else if (k == "episodes") episodes = atol(v.c_str()); else if (k == "len") len = atoi(v.c_str());
      else if (k == "maxsec") maxsec = atof(v.c_str()); else if (k == "stop") stop = atoi(v.c_str()); else if (k == "mode") mode = atoi(v.c_str()); else if (k == "huge") huge = v != "0";
      else if (k == "only") only = strtoull(v.c_str(), 0, 0), only_set = true; else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
    }
    return 0;
  }
};
