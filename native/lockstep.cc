// Lock-step monitor.
//
// Drives the compiled design (dut.h, generated from the current /repo tree)
// with hostile instruction streams, bus timing, interrupts and resets, and
// judges every clock cycle at the Wishbone/IRQ interface against iss.h.
// The harness *is* the memory: each word the core fetches is invented at fetch
// time from the architectural state the reference model says it must have.
#include "dut.h"
#include "iss.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <set>
#include <map>
#include <unistd.h>

// ---- property bits --------------------------------------------------------
enum { P_ALU = 1, P_CF = 2, P_LS = 4, P_ILL = 8, P_CSR = 16, P_TRAP = 32, P_IRQ = 64,
       P_WB = 128, P_RST = 256, P_FRAME = 512, P_PROG = 1024, P_RVFI = 2048 };
static const char *pname(int b) {
  switch (b) { case P_ALU: return "alu"; case P_CF: return "flow"; case P_LS: return "ls"; case P_ILL: return "ill";
    case P_CSR: return "csr"; case P_TRAP: return "trap"; case P_IRQ: return "irq"; case P_WB: return "wb";
    case P_RST: return "rst"; case P_FRAME: return "frame"; case P_PROG: return "prog"; case P_RVFI: return "rvfi"; }
  return "?";
}
static u32 mn_prop(Mn m) {
  if (m == M_ILL) return P_ILL;
  if (m == M_JAL || m == M_JALR || (m >= M_BEQ && m <= M_BGEU)) return P_CF;
  if (m >= M_LB && m <= M_SW) return P_LS;
  if (m == M_ECALL || m == M_EBREAK || m == M_MRET) return P_TRAP;
  if (m >= M_CSRRW) return P_CSR;
  return P_ALU;
}

struct Rng {
  u64 s;
  explicit Rng(u64 x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 u() { return (u32)(next() >> 16); }
  u32 n(u32 k) { return (u32)(((next() >> 32) * (u64)k) >> 32); }
  bool p(int pct) { return (int)n(100) < pct; }
};

struct DictE { u64 v, m; int w; };
static std::vector<DictE> dictv;
// Constants the design compares with (nirc.py), placed anywhere in a word.
static u32 dict_val(Rng &r) {
  if (dictv.empty()) return r.u();
  const DictE &e = dictv[r.n(dictv.size())];
  u64 v = (e.v & e.m) | (r.next() & ~e.m & (e.w < 64 ? (1ull << e.w) - 1 : ~0ull));
  if (r.p(15)) v += r.p(50) ? 1 : -1;
  if (e.w < 32) { u32 s = r.p(40) ? 0 : r.n(33 - e.w), f = r.p(60) ? 0 : r.u(), mk = ((1u << e.w) - 1) << s; return ((u32)v << s & mk) | (f & ~mk); }
  return r.p(80) ? (u32)v : (u32)(v << 2);
}
static bool dict_hit(u32 v) {
  for (auto &e : dictv) if (e.w >= 20 && e.w <= 32) { u64 wide = e.w < 32 ? (1ull << e.w) - 1 : 0xffffffffull; u64 m = e.m & wide; if (__builtin_popcountll(m) < 16) continue; if (((v ^ e.v) & m) == 0 || (e.w < 32 && (((v >> (32 - e.w)) ^ e.v) & m) == 0)) return true; }
  return false;
}
static u32 dict_len(Rng &r, u32 cap) {
  for (int k = 0; k < 8 && dictv.size(); k++) { const DictE &e = dictv[r.n(dictv.size())]; if (e.v > 20 && e.v < cap) return e.v - 3 + r.n(8); }
  u32 v = (1u << r.n(18)) + r.n(8); return v < cap ? v : cap;
}

// ---- options ---------------------------------------------------------------
struct Opt {
  u64 seed = 1; long episodes = 100; int len = 600; u64 only = 0; bool only_set = false; bool verbose = false;
  std::string profile = "mix";
  int dump_rd = 60;      // % of rd writes followed by a store of rd
  int full_every = 40;   // mean distance of full register dumps
  int csr_every = 60;    // mean distance of CSR dumps
  int wait = 0;          // 0 random mix, 1 always minimum, 2 long, 3 fixed pattern
  int irq = 30;          // % of instructions with a non-low IRQ policy
  int giant = 0, giantk = 0; // one wait of about 2^giant cycles, on a fetch / load / store
  int stray = 0;         // percent of episodes in which ACK is also asserted outside transfers
  int romglitch = 0;     // percent of held reset cycles in which ROM latches are disturbed
  int reset = 0;         // per-mille of cycles at which a reset strikes
  int stop_after = 20;   // violations
  int enable = 5;        // % of boundaries at which software re-enables interrupts
  long sweep = -1;       // systematic sweep kind (see gen)
  long sweep_from = 0, sweep_to = 0;
  int w[12] = {30,12,16,8,14,6,4,2,0,0,0,0}; // class weights
  std::string trace;     // transaction trace file (metamorphic checks)
  double maxsec = 1e9;
} opt;

// ---- statistics ------------------------------------------------------------
struct Stats {
  u64 cycles = 0, instrs = 0, txs = 0, checks = 0, resets = 0, irq_taken = 0, irq_must = 0, irq_masked = 0,
      traps = 0, dumps = 0, fulls = 0, episodes = 0, waits = 0, pulse_in = 0, pulse_out = 0, romglitch = 0, stray = 0, giants = 0, scenes = 0, late = 0;
  u64 mn[M_N] = {0}, mn_checked[M_N] = {0};
  int tmax[M_N + 2], tmin[M_N + 2]; u32 tmaxw[M_N + 2];
  u64 cause[32] = {0};
  std::vector<u8> cov; u64 covn = 0;
  std::vector<u8> ua; // microcode addresses
  Stats() : cov(1 << 20, 0), ua(65536, 0) { for (int i = 0; i < M_N + 2; i++) tmax[i] = 0, tmin[i] = 1 << 30, tmaxw[i] = 0; }
  void hit(u64 k) { k *= 0x9E3779B97F4A7C15ull; k >>= 44; if (!cov[k]) { cov[k] = 1; covn++; } }
} st;

static std::map<std::string, int> vcount;
static int nviol = 0;
static u64 foreign = 0;
static FILE *tracef = nullptr;
static u32 want_mask = ~0u;

#include "limits.h"

#ifdef HAVE_RVFI
static u64 rvfi_count = 0, rvfi_csr = 0, rvfi_mip = 0;
#endif
struct Q { u32 w; bool hasdata; u32 data; };
struct Tx { u32 adr, dat_w; u8 sel, we; };

struct LogEnt { u64 cyc; u32 pc, w; char what[80]; };

struct Episode {
  u64 id; Rng g, gi, gt;   // instruction choice, irq, timing
  dut_t S; Iss iss;
  std::deque<Q> q; std::deque<std::function<u32()>> sq;
  u64 cyc = 0; long icount = 0;
  // transaction state
  bool in_tx = false, just_acked = false, tx_fetch = false; Tx tx; int wait_left = 0; u32 reply = 0;
  int txcyc = 0;
  // instruction state
  bool have = false, data_done = false; Eff e; u32 load_dat = 0; int switch_in = -1;
  // IRQ policy of an instruction: the level in the cycle after its fetch is
  // acknowledged (the only one that may decide), and what the line does before
  // and after that cycle: 0 same level, 1 random, 2 opposite level
  struct Pol { bool lvl; u8 pre, post; bool low2; } pol = {false, 0, 0, false}, next_pol = {false, 0, 0, false};
  bool samp = false, samp2 = false, seen0 = false, seen1 = false; bool pre_live = false;
  bool mixed() const { return seen0 && seen1; }
  static bool csr_word(u32 w) { return (w & 0x7f) == 0x73 && ((w >> 12) & 3); }
  u32 next_word = 0; Q nextq; bool next_forced = false, cur_forced = false;
  u64 ack_cyc = 0; int data_wait_extra = 0; int idle = 0;
  bool irq_now = false;
  // verification bookkeeping
  u32 rmask[32]; u32 cmask[8]; u32 anymask = 0; Mn lastmn = M_ILL;
  int altk[32]; u32 altv[32]; bool mcause_alt = false; u32 mcause_altv = 0; bool mpie_unk = false; 
  // reset; more likely shortly after a value the design compares with was used
  int near_magic = 0;
  int rst_left = 0; bool prev_rst = false; bool after_reset = false; u32 rst_blame = 0; long since_reset = 0;
  bool dead = false; u32 lastmask = 0;
  std::vector<LogEnt> log; size_t logpos = 0;
  int full_ctr, csr_ctr; long stopped = 0;
  u32 late = 0; int lazy = 0;   // registers whose read-back was put off, and how often that happens (%)
  u64 thash = 1469598103934665603ull;
  int wait_style = 0; bool giant_done = false;
  Rng gk; int stray = 0;  // stray acknowledges: probability per cycle without a transfer, percent
  long sweep_at = 0;
#ifdef HAVE_RVFI
#include "rvfi_state.h"
#endif

  Episode(u64 i) : id(i), g(opt.seed * 1000003 + i * 7919 + 11), gi(opt.seed * 77 + i * 131 + 5), gt(opt.seed * 99 + i * 17 + 3), gk(opt.seed * 55 + i * 29 + 9) {
    if (opt.stray && (int)gk.n(100) < opt.stray) { static const u8 t[] = {3, 15, 50, 90, 100}; stray = t[gk.n(5)]; }
  }

  void lg(const char *fmt, u32 a = 0, u32 b = 0, u32 c = 0, u32 d = 0) {
    LogEnt le; le.cyc = cyc; le.pc = iss.pc; le.w = e.w; snprintf(le.what, sizeof le.what, fmt, a, b, c, d);
    if (opt.verbose) { printf("# %llu pc=%08x %s\n", (unsigned long long)cyc, iss.pc, le.what); }
    if (log.size() < 48) log.push_back(le); else { log[logpos] = le; logpos = (logpos + 1) % 48; }
  }
  void viol(u32 mask, const char *fmt, u32 a = 0, u32 b = 0, u32 c = 0, u32 d = 0) {
    dead = true;
    char msg[300]; snprintf(msg, sizeof msg, fmt, a, b, c, d);
    if (after_reset_blame()) mask |= P_RST;
    if (stray) mask |= P_WB;     // the same episode is fine without them on a core that ignores them
    bool want = mask & want_mask; lastmask = mask;
    std::string props; for (int i = 0; i < 12; i++) if (mask & (1u << i)) { if (props.size()) props += ","; props += pname(1 << i); }
    int &k = vcount[props + "|" + std::string(fmt)];
    k++;
    if (want) nviol++; else foreign++;
    if (k <= 3 || opt.verbose) {
      printf("V {\"props\":\"%s\",\"want\":%d,\"msg\":\"%s\",\"profile\":\"%s\",\"seed\":%llu,\"episode\":%llu,\"cycle\":%llu,\"instrs\":%ld,\"pc\":\"%08x\",\"insn\":\"%08x\",\"mn\":\"%s\",\"log\":[",
             props.c_str(), (int)want, msg, opt.profile.c_str(), (unsigned long long)opt.seed, (unsigned long long)id, (unsigned long long)cyc, icount, e.pc, e.w, mn_name[e.mn]);
      for (size_t i = 0; i < log.size(); i++) { LogEnt &l = log[(logpos + i) % log.size()]; printf("%s\"%llu %s\"", i ? "," : "", (unsigned long long)l.cyc, l.what); }
      printf("]}\n"); fflush(stdout);
    }
  }
  bool after_reset_blame() { return st.resets && since_reset < 45 && opt.reset; }

  // ---- data values ---------------------------------------------------------
  // values that coincide with something alive: addresses, CSRs, relatives of a register
  static u32 swab(u32 v) { return v << 24 | v >> 24 | (v << 8 & 0xff0000) | (v >> 8 & 0xff00); }
  u32 relative(u32 v) {
    switch (g.n(12)) { case 0: return v; case 1: case 2: return ~v; case 3: return -v; case 4: return v + 1; case 5: return v - 1; case 6: return v << 1; case 7: return v >> 1;
      case 8: return swab(v); case 9: return v << 16 | v >> 16; case 10: return (v & 0xffff) | g.u() << 16; default: return (v & 0xffff0000) | (g.u() & 0xffff); }
  }
  u32 special() {
    switch (g.n(12)) {
    case 0: case 1: return iss.pc + 4 * (g.n(7) - 2); case 2: return iss.mtvec + (g.p(60) ? 0 : 4); case 3: return iss.mepc + (g.p(50) ? 0 : g.p(50) ? 4 : -4); case 4: return g.p(50) ? iss.mscratch : iss.mcause;
    case 5: return g.p(50) ? 0 : 4u * (g.n(4) - 2); case 6: return hadr[g.n(4)] + (g.p(60) ? 0 : 4); case 7: return hw[g.n(8)]; case 8: return iss.x[g.n(32)];
    case 9: return (g.p(50) ? iss.mtvec : iss.pc) ^ (1u << g.n(32)); default: return relative(iss.x[g.n(32)]); }
  }
  u32 ival() {
    switch (g.n(19)) {
    case 16: return dict_val(g); case 17: return special(); case 18: return relative(iss.x[g.n(32)]);
    case 0: return 0; case 1: return 1; case 2: return ~0u; case 3: return 0x80000000; case 4: return 0x7fffffff;
    case 5: return 1u << g.n(32); case 6: return ~(1u << g.n(32)); case 7: return (1u << g.n(32)) - 1; case 8: return (i32)0x80000000 >> g.n(32);
    case 9: return g.n(64); case 10: return iss.x[g.n(32)]; case 11: return iss.x[g.n(32)] + (g.n(3) - 1);
    case 12: return iss.x[g.n(32)] ^ (1u << g.n(32)); case 13: { u32 b = g.n(256); return b * 0x01010101u; }
    default: return g.u();
    }
  }
  u32 reg() { return g.n(100) < 8 ? 0 : g.n(32); }
  static u32 R(u32 op, u32 rd, u32 f3, u32 r1, u32 r2, u32 f7) { return op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | f7 << 25; }
  static u32 I(u32 op, u32 rd, u32 f3, u32 r1, u32 imm) { return op | rd << 7 | f3 << 12 | r1 << 15 | imm << 20; }
  static u32 SW(u32 r2, u32 imm, u32 f3 = 2, u32 r1 = 0) { return 0x23 | (imm & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | ((imm >> 5) & 127) << 25; }
  u32 imm12() { switch (g.n(7)) { case 0: return 0; case 1: return 0x7ff; case 2: return 0x800; case 3: return 0xfff; case 4: return g.n(32); case 6: return g.p(20) ? dict_val(g) & 0xfff : g.n(4096); default: return g.n(4096); } }
  u32 csr_addr() {
    static const u16 impl[] = {C_MSTATUS, C_MIE, C_MTVEC, C_MSCRATCH, C_MEPC, C_MCAUSE, C_MIP};
    static const u16 ro[] = {0xF11,0xF12,0xF13,0xF14,0xF15,0x301,0x310,0x320,0x343,0xB00,0xB02,0xB80,0xB82,0xB03,0xB1F,0xB83,0xB9F,0x323,0x33F};
    u32 k = g.n(100);
    if (k < 68) return impl[g.n(7)];
    if (k < 84) return ro[g.n(19)];
    if (k < 94) return (g.p(50) ? impl[g.n(7)] : ro[g.n(19)]) ^ (1u << g.n(12));
    return g.n(4096);
  }
  u32 gen_class(int c) {
    u32 rd = reg(), r1 = reg(), r2 = reg();
    switch (c) {
    case 0: { // ALU
      switch (g.n(10)) {
      case 0: return 0x37 | rd << 7 | (g.u() & 0xfffff000);
      case 1: return 0x17 | rd << 7 | (g.u() & 0xfffff000);
      case 2: case 3: case 4: { u32 f3 = g.n(8); if (f3 == 1 || f3 == 5) return I(0x13, rd, f3, r1, g.n(32) | (f3 == 5 && g.p(50) ? 0x400 : 0)); return I(0x13, rd, f3, r1, imm12()); }
      case 5: { u32 f3 = g.p(50) ? 1 : 5; return R(0x33, rd, f3, r1, r2, f3 == 5 && g.p(50) ? 0x20 : 0); }
      case 6: if (g.p(30)) return g.p(50) ? (0x0f | (g.u() & 0xffff8f80)) : 0x10500073;
      default: { u32 f3 = g.n(8); return R(0x33, rd, f3, r1, r2, (f3 == 0 || f3 == 5) && g.p(50) ? 0x20 : 0); }
      } }
    case 1: { // branch
      static const u8 f[] = {0,1,4,5,6,7};
      if (g.p(15)) r2 = r1;
      u32 im = g.p(85) ? g.n(2048) << 2 : g.n(4096) << 1;
      return 0x63 | ((im >> 11) & 1) << 7 | ((im >> 1) & 15) << 8 | f[g.n(6)] << 12 | r1 << 15 | r2 << 20 | ((im >> 5) & 63) << 25 | ((im >> 12) & 1) << 31; }
    case 2: { // load/store
      static const u8 lf[] = {0,1,2,4,5};
      u32 f3 = g.p(50) ? lf[g.n(5)] : g.n(3); bool store = f3 < 3 && g.p(50);
      u32 sz = 1u << (f3 & 3); u32 im = imm12();
      if (g.p(20)) { // an address used a moment ago, or next to it
        u32 want = hadr[g.n(4)] + (g.p(60) ? 0 : g.n(9) - 4);
        for (int k = 0; k < 8; k++) { i32 d = (i32)(want - iss.x[r1]); if (d >= -2048 && d < 2048) { im = d & 0xfff; break; } r1 = k < 6 ? g.n(32) : 0; }
      }
      if (g.p(80)) { u32 a = iss.x[r1] + sx(im, 12); u32 off = a & (sz - 1); if (off) { u32 cand = im - off; if (sx(im, 12) - (i32)off >= -2048) im = cand & 0xfff; else im = (im + sz - off) & 0xfff; } }
      return store ? SW(r2, im, f3, r1) : I(0x03, rd, f3, r1, im); }
    case 3: { // jumps
      if (g.p(50)) { u32 im = g.p(85) ? g.n(1 << 19) << 2 : g.n(1 << 20) << 1; return 0x6f | rd << 7 | (im & 0xff000) | ((im >> 11) & 1) << 20 | ((im >> 1) & 1023) << 21 | ((im >> 20) & 1) << 31; }
      u32 im = imm12(); if (g.p(85)) { u32 a = iss.x[r1] + sx(im, 12); if (a & 2) im ^= 2; a = iss.x[r1] + sx(im, 12); if (a & 2) im ^= 2; }
      if (g.p(15)) rd = r1;
      return I(0x67, rd, 0, r1, im); }
    case 4: { // CSR
      static const u8 f[] = {1,2,3,5,6,7};
      u32 a = csr_addr(); u32 f3 = f[g.n(6)];
      if (g.p(20)) r1 = 0; if (g.p(20)) rd = 0;
      if (f3 >= 5) { if (a == C_MSTATUS && g.p(70)) r1 = (r1 & ~8u) | (g.p(60) ? 8 : 0); else r1 = g.n(32); if (g.p(15)) r1 = 0; }
      return I(0x73, rd, f3, r1, a); }
    case 5: { // environment
      switch (g.n(4)) { case 0: return 0x73; case 1: return 0x100073; default: return 0x30200073; } }
    case 6: { // mutated / illegal
      if (g.p(20)) { // fields at the ends of their range, or a compared constant above a good opcode
        u32 w = (gen_class(g.n(6)) & 127) | g.n(8) << 12; if (g.p(10)) w ^= 1u << (2 + g.n(5));
        if (g.p(30)) { static const u8 at[] = {7, 12, 15, 20, 25}; u32 s = at[g.n(5)]; return (w & ((1u << s) - 1)) | dict_val(g) << s; }
        for (u32 at : {7, 15, 20, 25}) { u32 v = g.p(60) ? 0 : g.p(30) ? 127 : g.p(50) ? 1u << g.n(7) : g.n(128); w |= (at == 25 ? v : v & 31) << at; }
        return w;
      }
      u32 w = gen_class(g.n(6)); int k = 1 + g.n(3); while (k--) w ^= 1u << g.n(32);
      return w; }
    case 7: return g.p(10) ? dict_val(g) : g.u();
    case 8: return g.p(50) ? (g.u() & ~3u) | g.n(3) : (gen_class(g.n(6)) & ~3u) | g.n(3);
    case 9: { // system with funct3 = 0/4
      static const u16 fs[] = {0,1,2,0x102,0x302,0x002,0x105,0x120,0x104,0x300,0x301,0x303,0x7b2,0x105};
      u32 w = fs[g.n(14)] << 20; if (g.p(30)) w ^= 1u << (20 + g.n(12)); u32 v = 0x73 | w; if (g.p(40)) v ^= 1u << (7 + g.n(13)); if (g.p(10)) v = (v & ~0x7000u) | 0x4000; return v; }
    }
    return 0x13;
  }
  // what was executed and accessed a moment ago, so that the same word, the same
  // address or the same target comes round again
  u32 hw[8] = {0x13,0x13,0x13,0x13,0x13,0x13,0x13,0x13}, hadr[4] = {0, 0, 0, 0}; u32 hwn = 0, hadrn = 0;
  // Short scenes whose operands coincide with something: played word by word, as ordinary (interruptible) instructions
  u32 ldw(u32 r, u32 v) { nextq.hasdata = true; nextq.data = v; return I(0x03, r, 2, 0, sw_off()); }
  u32 alu_rr(u32 rd, u32 a, u32 b) { u32 f3 = g.n(8); return R(0x33, rd, f3, a, b, (f3 == 0 || f3 == 5) && g.p(50) ? 0x20 : 0); }
  u32 near_jump(u32 t, bool br) {   // a jal or branch at iss.pc to t, if it is in reach
    i32 d = (i32)(t - iss.pc);
    if (br ? d < -4096 || d > 4094 : d < -(1 << 20) || d > (1 << 20) - 2) d = 4 * ((i32)g.n(6) - 2);
    u32 im = d & (br ? 0x1ffe : 0x1ffffe);
    static const u8 f[] = {0,1,4,5,6,7};
    if (br) return 0x63 | ((im >> 11) & 1) << 7 | ((im >> 1) & 15) << 8 | f[g.n(6)] << 12 | reg() << 15 | reg() << 20 | ((im >> 5) & 63) << 25 | ((im >> 12) & 1) << 31;
    return 0x6f | reg() << 7 | (im & 0xff000) | ((im >> 11) & 1) << 20 | ((im >> 1) & 1023) << 21 | ((im >> 20) & 1) << 31;
  }
  u32 scene() {
    u32 a = 1 + g.n(31), b = 1 + g.n(31), rd = reg(), im = imm12(); st.scenes++;
    switch (g.n(7)) {
    case 0: return near_jump(special() & ~3u, g.p(50));
    case 1: sq.push_back([=] { return I(0x67, rd, 0, a, im); }); return ldw(a, (special() & (g.p(90) ? ~3u : ~0u)) - sx(im, 12));
    case 2: { u32 c = g.p(50) ? C_MEPC : g.p(70) ? C_MTVEC : C_MSCRATCH; u32 k = g.n(6); bool more = g.p(80);
      sq.push_back([=] { return I(0x73, g.p(70) ? 0 : rd, 1, a, c); });
      if (more) sq.push_back([=] { return c == C_MEPC ? 0x30200073 : k == 0 ? 0x73 : k == 1 ? 0x100073 : k == 2 ? 0 : gen0(); });
      return ldw(a, special()); }
    case 3: { u32 f3 = g.n(3), st_ = g.p(50), d = g.p(50) ? a : b; u32 v = special() & (g.p(85) ? ~3u : ~0u);
      sq.push_back([=] { if (!st_) { u32 w = I(0x03, rd, f3 | (f3 < 2 && g.p(50) ? 4 : 0), a, im); nextq.hasdata = g.p(60); nextq.data = g.p(50) ? v : g.p(50) ? relative(v) : special(); return w; } return SW(d, im, f3, a); });
      if (st_ && d != a && g.p(60)) { sq.push_front([=] { return ldw(d, g.p(50) ? v : special()); }); }
      return ldw(a, v - (g.p(30) ? 0 : sx(im, 12))); }
    case 4: case 5: { u32 v = ival(); bool br = g.p(25);
      sq.push_back([=] { return ldw(b, relative(iss.x[a])); });
      sq.push_back([=] { return br ? (near_jump(special() & ~3u, true) & ~0x1ff8000u) | a << 15 | b << 20 : alu_rr(rd, a, b); });
      return ldw(a, v); }
    default: sq.push_back([=] { return gen0(); }); return g.p(50) ? 0x30200073 : ldw(a, special());
    }
  }
  u32 gen() {
    if (opt.sweep < 0) {
      if (!sq.empty()) { auto f = sq.front(); sq.pop_front(); u32 w = f(); hw[hwn++ & 7] = w; return w; }
      if (g.p(9)) { u32 w = scene(); hw[hwn++ & 7] = w; return w; }
    }
    u32 w = gen0();
    if (!(opt.sweep >= 0) && g.p(10)) {
      w = hw[g.p(50) ? (hwn - 1) & 7 : g.n(8)];
      switch (g.n(8)) { case 0: w ^= 1u << g.n(32); break; case 1: w = (w & ~0xf80u) | reg() << 7; break; case 2: w = (w & ~0xf8000u) | reg() << 15; break; }
    }
    hw[hwn++ & 7] = w;
    return w;
  }
  u32 gen0() {
    if (opt.sweep >= 0 && sweep_at < opt.sweep_to) {
      u32 k = sweep_at++;
      switch (opt.sweep) {
      case 0: { // opcode x funct3 x funct7, everything else random
        return (g.u() & 0x01ff8f80) | (k & 127) | ((k >> 7) & 7) << 12 | ((k >> 10) & 127) << 25; }
      case 1: { // all CSR addresses x all funct3 x {rs1,rd zero or not}
        u32 f3 = (k >> 2) & 7; u32 rd = (k & 1) ? 1 + g.n(31) : 0, r1 = (k & 2) ? 1 + g.n(31) : 0; return I(0x73, rd, f3, r1, (k >> 5) & 4095); }
      case 2: // SYSTEM, funct3=0: every funct12, with rs1/rd fields
        return 0x73 | ((k >> 10) & 4095) << 20 | (k & 31) << 7 | ((k >> 5) & 31) << 15;
      case 3: // shifts: every amount x kind x both forms
        { u32 sh = k & 31, kind = (k >> 5) % 3; static const u8 f[] = {1,5,5}; u32 r1 = 1 + g.n(31); u32 rd = reg();
          return I(0x13, rd, f[kind], r1, sh | (kind == 2 ? 0x400 : 0)); }
      case 5: { // opcode x funct3 x fields at the ends of their range (words that are one exact pattern)
        static const u8 f5[] = {0, 1, 31, 2}, f8[] = {0, 1, 2, 31, 3, 4, 5, 16}, f7[] = {0, 1, 0x20, 0x7f, 2, 4, 8, 0x10, 0x40, 0x18, 9, 0x30};
        return 3 | (k & 31) << 2 | ((k >> 5) & 7) << 12 | f5[(k >> 8) & 3] << 7 | f5[(k >> 10) & 3] << 15 | f8[(k >> 12) & 7] << 20 | f7[(k >> 15) % 12] << 25; }
      case 4: // every value of the low 16 bits, upper random
        return (g.u() & 0xffff0000) | (k & 0xffff);
      }
    }
    int tot = 0; for (int i = 0; i < 10; i++) tot += opt.w[i];
    int k = g.n(tot); int c = 0; while (k >= opt.w[c]) k -= opt.w[c++];
    return gen_class(c);
  }
  u32 sw_off() { return (g.n(1024) << 2) & 0xffc; }

  void push_full() {
    st.fulls++;
    u32 rot = g.n(32), mul = g.n(16) * 2 + 1;
    for (u32 i = 0; i < 32; i++) q.push_back({SW((i * mul + rot) & 31, sw_off()), false, 0});
  }
  void push_csr_dump() {
    static const u16 impl[] = {C_MSTATUS, C_MIE, C_MTVEC, C_MSCRATCH, C_MEPC, C_MCAUSE, C_MIP};
    u32 t = 1 + g.n(31); u32 old = iss.x[t]; u32 r = g.n(7);
    for (u32 i = 0; i < 7; i++) { q.push_back({I(0x73, t, 2, 0, impl[(i + r) % 7]), false, 0}); q.push_back({SW(t, sw_off()), false, 0}); }
    q.push_back({I(0x03, t, 2, 0, sw_off()), true, old});
  }
  // Instructions whose whole effect is defined before anything is initialised,
  // so that the first one after reset is not always the same kind
  void prologue() {
    bool mt = false, tr = false;
    for (int n = 1 + g.n(6); n; n--) {
      u32 rd = g.p(50) ? 0 : g.n(32), w = 0x13; bool ld = false;
      switch (g.n(15)) {
      case 0: w = 0x37 | rd << 7 | (g.u() & 0xfffff000); break;
      case 1: w = 0x17 | rd << 7 | (g.u() & 0xfffff000); break;
      case 2: { u32 f3 = g.n(8); w = I(0x13, rd, f3, 0, f3 == 1 || f3 == 5 ? g.n(32) : imm12()); } break;
      case 3: { u32 f3 = g.n(8); w = R(0x33, rd, f3, 0, 0, (f3 == 0 || f3 == 5) && g.p(50) ? 0x20 : 0); } break;
      case 4: w = 0x6f | rd << 7 | g.n(64) << 23; break;
      case 5: w = I(0x67, rd, 0, 0, g.n(1024) << 2); break;
      case 6: { static const u8 f[] = {0,1,4,5,6,7}; w = 0x63 | f[g.n(6)] << 12 | g.n(8) << 9; } break;
      case 7: case 8: { static const u8 f[] = {0,1,2,4,5}; u32 f3 = f[g.n(5)]; w = I(0x03, rd, f3, 0, g.n(4096) & ~((1u << (f3 & 3)) - 1)); ld = true; } break;
      case 9: { u32 f3 = g.n(3); w = SW(0, g.n(4096) & ~((1u << f3) - 1), f3); } break;
      case 10: w = 0x0000000f; break;
      case 11: w = I(0x73, 0, 5, g.n(32), C_MTVEC); mt = true; break;
      case 12: if (mt) { w = g.p(50) ? 0 : g.p(50) ? 0x73 : 0x100073; tr = true; } break;
      case 13: if (tr) { w = 0x30200073; tr = false; } break;
      case 14: w = I(0x73, 0, 5, g.n(32), C_MSCRATCH); break;
      }
      q.push_back({w, ld, ld ? ival() : 0});
    }
  }
  void boot() {
    // Values that survive are unspecified: initialise everything, in random order.
    q.clear(); sq.clear();
    for (int i = 0; i < 32; i++) { altk[i] = 0; rmask[i] = P_RST; }
    for (int i = 0; i < 8; i++) cmask[i] = P_RST;
    mcause_alt = false;
    if (g.p(70)) prologue();
    if (g.p(70)) q.push_back({SW(0, sw_off()), false, 0});
    u32 t = 1 + g.n(31);
    if (g.p(70)) { q.push_back({I(0x73, t, 2, 0, C_MCAUSE), false, 0}); q.push_back({SW(t, sw_off()), false, 0}); }
    if (g.p(70)) { q.push_back({I(0x73, t, 2, 0, C_MSTATUS), false, 0}); q.push_back({SW(t, sw_off()), false, 0}); }
    std::vector<u32> order; for (u32 i = 1; i < 32; i++) order.push_back(i);
    for (u32 i = 30; i > 0; i--) std::swap(order[i], order[g.n(i + 1)]);
    for (u32 r : order) q.push_back({I(0x03, r, 2, 0, sw_off()), true, ival()});
    auto csrw = [&](u32 c, u32 v) { u32 r = 1 + g.n(31); q.push_back({I(0x03, r, 2, 0, sw_off()), true, v}); q.push_back({I(0x73, 0, 1, r, c), false, 0}); };
    csrw(C_MSCRATCH, g.u()); csrw(C_MEPC, g.u()); csrw(C_MTVEC, g.u());
    csrw(C_MIE, g.p(70) ? ~0u : g.u());
    csrw(C_MSTATUS, g.p(50) ? 8 : g.u());
    if (g.p(50)) q.push_back({SW(0, sw_off()), false, 0});
  }
  void arch_reset() {
    memset(&iss, 0, sizeof iss);
    mpie_unk = true;
    have = false; in_tx = false; just_acked = false; data_done = false; idle = 0; since_reset = 0;
    e = plan(iss, 0x13, false); e.next = 0;
    boot();
#ifdef HAVE_RVFI
    rvfi_reset();
#endif
  }

  // choose next instruction + irq policy; called when its fetch starts
  void choose() {
    if (!q.empty()) { nextq = q.front(); q.pop_front(); next_word = nextq.w; next_forced = true; }
    else { nextq.hasdata = false; next_word = gen(); next_forced = false; }
    bool en = irq_enabled(iss);
    Pol p = {false, 0, 0, false};
    if (next_forced) { p.lvl = en ? false : gi.n(2); p.low2 = en; }
    else p.lvl = en ? (int)gi.n(100) < opt.irq * 3 / 4 : opt.irq && gi.n(2);
    if (opt.irq) { p.pre = gi.p(45) ? 0 : 1 + gi.n(2); p.post = gi.p(55) ? 0 : 1 + gi.n(2); }
    if (!p.lvl && en && csr_word(next_word)) {
      // the second decode cycle of a CSR instruction may notice the line as well
      Eff a = plan(iss, next_word, false);
      if (!a.trap && a.next == iss.mtvec) p.low2 = true;
    }
    next_pol = p; pre_live = gi.n(2);
  }

  u32 csr_idx(u32 c) { switch (c) { case C_MSTATUS: return 0; case C_MIE: return 1; case C_MTVEC: return 2; case C_MSCRATCH: return 3; case C_MEPC: return 4; case C_MCAUSE: return 5; default: return 6; } }
  void csr_blame(u32 i, u32 m) { cmask[i] |= m; }

  // instruction finished: fold into the model
  void retire(bool interrupted) {
    u32 pm = mn_prop(e.mn);
    since_reset++;
    if (interrupted) {
      st.irq_taken++;
      take_trap(iss, iss.pc, 0x8000000Bu);
      cmask[0] = cmask[4] = cmask[5] = P_IRQ | P_TRAP;
      if (cur_forced) { /* never: forced instructions run with irq low when enabled */ }
      lastmn = e.mn;
      st.hit(0x1000000 + e.mn * 8 + pol.pre * 4 + pol.post);
      maybe_dump(-1, true);
      return;
    }
    bool en = irq_enabled(iss);
    if (samp && !en) st.irq_masked++;
    if (!samp && seen1 && en) st.pulse_out++;
    bool may = en && !samp && samp2 && csr_word(e.w);
    Iss before = iss;
    u32 rdold = e.rd >= 0 ? iss.x[e.rd] : 0; (void)rdold;
    commit(iss, e, load_dat);
    st.mn[e.mn]++; st.instrs++; lastmn = e.mn;
    bool ambiguous = false;
    if (e.trap) {
      st.traps++; st.cause[e.cause & 31]++;
      u32 b = pm | P_TRAP; cmask[0] = cmask[4] = cmask[5] = b;
      if (may) { mcause_alt = true; mcause_altv = 0x8000000Bu; ambiguous = true; }
    }
    // stray corruption accumulates in every location's blame mask
    for (int i = 0; i < 32; i++) rmask[i] |= pm;
    for (int i = 0; i < 7; i++) cmask[i] |= pm;
    if (e.rd > 0) {
      u32 b = pm; if (e.csr_read) b |= cmask[csr_idx(e.csr)] ;
      rmask[e.rd] = b | (e.trap ? P_TRAP : 0);
      altk[e.rd] = 0;
      if (e.csr_read && e.csr == C_MIP && mixed()) { altk[e.rd] = 1; altv[e.rd] = iss.x[e.rd] ^ 0x800; ambiguous = true; }
      if (e.csr_read && e.csr == C_MCAUSE && mcause_alt) { altk[e.rd] = 2; altv[e.rd] = mcause_altv; }
      if (e.csr_read && e.csr == C_MSTATUS && mpie_unk) { altk[e.rd] = 3; altv[e.rd] = iss.x[e.rd] ^ 0x80; }
    }
    if (e.csr_write) { cmask[csr_idx(e.csr)] = pm; if (e.csr == C_MSTATUS) mpie_unk = false; if (e.csr == C_MCAUSE) mcause_alt = false; }
    if (e.mn == M_MRET) cmask[0] = P_TRAP;
    // coverage of distinct behaviours
    auto bk = [](u32 v) -> u32 { if (v == 0) return 0; if (v == 1) return 1; if (v == ~0u) return 2; if (v == 0x80000000) return 3; if (v == 0x7fffffff) return 4; if ((i32)v < 0) return 5 + (v & 3) ; return 9 + (v & 3); };
    u64 key = e.mn; key = key * 16 + bk(e.rs1v); key = key * 16 + bk(e.rs2v); key = key * 4 + e.trap * 2 + (e.next == e.pc + 4);
    key = key * 8 + (e.mem ? (e.addr & 3) : 0); key = key * 4 + samp * 2 + mixed(); key = key * 2 + en;
    if (e.mn >= M_CSRRW) key = key * 4096 + e.csr;
    if (e.mn == M_ILL) key = key * 65536 + (e.w & 127) * 512 + ((e.w >> 12) & 7) * 8 + ((e.w >> 29) & 7);
    st.hit(key);
    maybe_dump(e.rd, ambiguous || e.trap);
    if (ambiguous) {
      // resolve at once
      if (e.trap) { u32 t = 1 + g.n(31); u32 old = iss.x[t]; q.push_front({I(0x03, t, 2, 0, sw_off()), true, old}); q.push_front({SW(t, sw_off()), false, 0}); q.push_front({I(0x73, t, 2, 0, C_MCAUSE), false, 0}); }
      else if (e.rd > 0) q.push_front({SW(e.rd, sw_off()), false, 0});
    }
    (void)before;
  }
  void maybe_dump(int rd, bool important) {
    if (cur_forced || !q.empty() || !sq.empty()) { return; }
    if (--full_ctr <= 0) { full_ctr = 1 + g.n(2 * opt.full_every); push_full(); late = 0; lazy = g.p(45) ? 90 : 0; }
    else if (rd > 0 && lazy && g.p(lazy)) late |= 1u << rd, st.late++;
    else if (rd >= 0 && g.p(opt.dump_rd)) q.push_back({SW(rd, sw_off()), false, 0});
    if (late && g.p(12)) { u32 k = g.n(32); for (u32 i = 0; i < 32; i++) { u32 r = (i + k) & 31; if (late >> r & 1) q.push_back({SW(r, sw_off()), false, 0}); } late = 0; }
    if (--csr_ctr <= 0 || (important && g.p(25))) { csr_ctr = 1 + g.n(2 * opt.csr_every); push_csr_dump(); }
    if (q.empty() && !irq_enabled(iss) && g.p(opt.enable)) {
      u32 r = 1 + g.n(31);
      if (!iss.meie) { q.push_back({I(0x03, r, 2, 0, sw_off()), true, ival() | 0x800}); q.push_back({I(0x73, 0, g.p(50) ? 2 : 1, r, C_MIE), false, 0}); }
      switch (g.n(3)) {
      case 0: q.push_back({I(0x73, 0, 6, 8, C_MSTATUS), false, 0}); break;
      case 1: q.push_back({I(0x03, r, 2, 0, sw_off()), true, ival() | 8}); q.push_back({I(0x73, 0, 1, r, C_MSTATUS), false, 0}); break;
      default: q.push_back({I(0x03, r, 2, 0, sw_off()), true, 0x80}); q.push_back({I(0x73, 0, 2, r, C_MSTATUS), false, 0}); q.push_back({0x30200073, false, 0});
      }
    }
    if (q.empty() && g.p(10)) { u32 r = 1 + g.n(31); q.push_back({I(0x03, r, 2, 0, sw_off()), true, ival()}); }
  }

  // a store observed on the bus; e is the planned store
  void check_store() {
    u32 lanes = 0; for (int i = 0; i < 4; i++) if (e.sel >> i & 1) lanes |= 0xffu << (8 * i);
    u32 r1 = (e.w >> 15) & 31, r2 = (e.w >> 20) & 31;
    st.checks++;
    if (tx.adr != e.addr >> 2 || tx.sel != e.sel) {
      viol(P_LS | (r1 ? rmask[r1] : P_FRAME), "store to wrong address/lanes: adr=%08x sel=%x expected adr=%08x sel=%x", tx.adr << 2, tx.sel, e.addr & ~3u, e.sel); return; }
    u32 got = tx.dat_w & lanes;
    if (altk[r2] && e.mn == M_SW) {
      if (got == altv[r2]) {
        iss.x[r2] = altv[r2];
        if (altk[r2] == 2) { iss.mcause = mcause_altv; st.irq_taken++; }
        if (altk[r2] == 3) iss.mpie = altv[r2] >> 7 & 1;
        e.wdata = altv[r2];
      }
      if (altk[r2] == 2) mcause_alt = false;
      if (altk[r2] == 3) mpie_unk = false;
      altk[r2] = 0;
    }
    if (got != e.wdata) {
      u32 m = rmask[r2];
      if (r2 == 0) m |= P_FRAME;
      if (!m) m = P_LS; 
      if (cur_forced) m |= P_FRAME; else m |= P_LS;
      viol(m, "stored value of x%u is %08x, expected %08x (sel %x)", r2, got, e.wdata, e.sel); return; }
    if (e.mn == M_SW) { if (rmask[r2]) { st.mn_checked[0]++; } rmask[r2] = 0; st.dumps++; }
  }

  void on_tx_start() {
    bool isfetch_like = !tx.we && tx.sel == 15;
    st.txs++;
    if (tracef || opt.trace.size()) { thash = (thash ^ tx.adr) * 1099511628211ull; thash = (thash ^ (tx.sel | tx.we << 4)) * 1099511628211ull; if (tx.we) { u32 l = 0; for (int i = 0; i < 4; i++) if (tx.sel >> i & 1) l |= 0xffu << (8 * i); thash = (thash ^ (tx.dat_w & l)) * 1099511628211ull; } }
    if (!have) { // first transaction after reset
      if (!isfetch_like || tx.adr != 0) { viol(P_RST, "first transfer after reset is adr=%08x we=%u sel=%x, expected a fetch of address 0", tx.adr << 2, tx.we, tx.sel); return; }
      tx_fetch = true; lg("reset fetch"); begin_fetch(); return;
    }
    bool en = irq_enabled(iss);
    bool must = en && samp, may = en && !samp && samp2 && csr_word(e.w) && !data_done;
    u32 pm = mn_prop(e.mn);
    bool is_mtvec = isfetch_like && tx.adr == iss.mtvec >> 2;
    if (must && !data_done) {
      st.irq_must++;
      if (!is_mtvec) { viol(P_IRQ | pm, "enabled interrupt asserted in the cycle after the fetch at %08x was acknowledged was not taken (bus adr=%08x we=%u, mtvec=%08x)", iss.pc, tx.adr << 2, tx.we, iss.mtvec); return; }
      if (pol.pre || pol.post) st.pulse_in++;
      end_insn(true); tx_fetch = true; begin_fetch(); return;
    }
    if (e.mem && !data_done) {
      if (may && is_mtvec) { end_insn(true); tx_fetch = true; begin_fetch(); return; }
      u32 r1 = (e.w >> 15) & 31;
      if (tx.we != e.we) {
        viol(P_LS | pm | P_WB | (is_mtvec ? P_IRQ | P_TRAP | P_ILL : 0), "expected a %u-byte data transfer (we=%u) at %08x, bus shows adr=%08x", e.size, e.we, e.addr, tx.adr << 2); return; }
      if (e.we) { check_store(); if (dead) return; }
      else if (tx.adr != e.addr >> 2 || tx.sel != e.sel) {
        viol(P_LS | rmask[r1] | (r1 ? 0 : P_FRAME) | (is_mtvec ? P_IRQ | P_TRAP | P_ILL : 0), "load from wrong address/lanes: adr=%08x sel=%x expected adr=%08x sel=%x", tx.adr << 2, tx.sel, e.addr & ~3u, e.sel); return; }
      tx_fetch = false;
      if (curq.hasdata) reply = curq.data; else reply = ival();
      load_dat = reply;
      if (!cur_forced || g.p(20)) hadr[hadrn++ & 3] = e.addr;
      lg(e.we ? "store adr=%08x sel=%x data=%08x" : "load adr=%08x sel=%x -> %08x", tx.adr << 2, tx.sel, e.we ? tx.dat_w : reply);
      return;
    }
    // expect the next fetch
    u32 exp = e.next;
    if (isfetch_like && tx.adr == exp >> 2) { end_insn(false); tx_fetch = true; begin_fetch(); return; }
    if (may && is_mtvec) { end_insn(true); tx_fetch = true; begin_fetch(); return; }
    u32 m = pm;
    if (tx.we || tx.sel != 15) m |= P_LS | P_WB;
    if (is_mtvec) { m |= P_ILL | P_TRAP; if (en || seen1) m |= P_IRQ; }
    if (e.trap) m |= P_TRAP | cmask[2];
    if (e.mn == M_MRET) m |= cmask[4];
    if (e.mn == M_JALR || (e.mn >= M_BEQ && e.mn <= M_BGEU)) { m |= rmask[(e.w >> 15) & 31]; if (e.mn != M_JALR) m |= rmask[(e.w >> 20) & 31]; }
    if (!e.trap && e.next == e.pc + 4 && !is_mtvec) m |= P_CF;
    viol(m, "after the instruction at %08x the bus shows adr=%08x (we/sel %02x), expected a fetch of %08x", e.pc, tx.adr << 2, tx.we << 4 | tx.sel, exp);
  }
  Q curq;
  void end_insn(bool intr) {
    int T = (int)(cyc - ack_cyc) - data_wait_extra;
    int k = intr ? M_N : e.trap ? M_N + 1 : e.mn;
    if (T > st.tmax[k]) st.tmax[k] = T, st.tmaxw[k] = e.w;
    if (T < st.tmin[k]) st.tmin[k] = T;
    int lim = insn_limit(e, intr);
    if (T > lim) { viol(P_PROG | 0, "instruction %08x took %u cycles from fetch acknowledge to the next fetch, documented limit %u", e.w, T, lim); return; }
#ifdef HAVE_RVFI
    rvfi_push(intr);
#endif
    retire(intr);
  }
  void begin_fetch() {
    if (dead) return;
    icount++;
    choose();
  }
  void pick_wait() {
    int w = 1;
    switch (wait_style) {
    case 1: w = 1; break;
    case 2: w = 1 + gt.n(20); break;
    case 3: w = gt.p(97) ? 1 + gt.n(3) : gt.p(98) ? 1 + gt.n(600) : 1 + dict_len(gt, 80000); break;
    case 4: w = gt.n(200) ? 1 + gt.n(3) : (1u << (16 + gt.n(5))) + gt.n(12); break;
    default: w = gt.p(60) ? 1 : 1 + gt.n(6);
    }
    if (opt.giant && !giant_done && icount > 30 && (tx_fetch ? 0 : tx.we ? 2 : 1) == opt.giantk && gt.n(8) == 0) { w = (1 << opt.giant) + gt.n(1 << (opt.giant - 4)); giant_done = true; st.giants++; }
    wait_left = w;
    st.waits += w - 1;
    if (tx_fetch) switch_in = gt.n(w + 1); // when, during the wait, the IRQ policy of the next instruction starts
  }

  // one clock cycle
  void cycle() {
    bool rst = false;
    if (near_magic) near_magic--;
    if (rst_left > 0) { rst = true; rst_left--; }
    else if (opt.reset && g.n(100000) < (near_magic && opt.reset < 4000 ? 4000 : (u32)opt.reset)) { rst = true; rst_left = gt.n(4); if (gt.p(50)) rst_left = 0; if (gt.p(1)) rst_left = dict_len(gt, 2000); }
    bool ack = false;
    u32 dr = gt.u();
    if (in_tx && !prev_rst) {
      if (wait_left == 0) {
        ack = true;
        if (tx_fetch) dr = next_word;
        else if (!tx.we) { u32 lanes = 0; for (int i = 0; i < 4; i++) if (tx.sel >> i & 1) lanes |= 0xffu << (8 * i); dr = (reply & lanes) | (dr & ~lanes); }
      }
      else if (gt.p(50)) dr = tx_fetch ? next_word ^ (1u << gt.n(32)) : ~reply;
    }
    if (in_tx && tx_fetch && wait_left <= switch_in && switch_in >= 0) { pre_live = next_pol.lvl; switch_in = -1; }
    if (have && cyc == ack_cyc + 1) irq_now = pol.lvl;
    else if (have && cyc == ack_cyc + 2 && pol.low2) irq_now = false;
    else if (have && !(in_tx && tx_fetch)) irq_now = pol.post == 0 ? pol.lvl : pol.post == 1 ? gi.p(40) : !pol.lvl;
    else irq_now = next_pol.pre == 0 ? pre_live : next_pol.pre == 1 ? gi.p(40) : !next_pol.lvl;
    if (rst || prev_rst) { irq_now = gi.n(2); ack = rst && !prev_rst ? ack : false; }
    if (have) { if (cyc == ack_cyc + 1) samp = irq_now; else if (cyc == ack_cyc + 2) samp2 = irq_now; if (cyc > ack_cyc && !(in_tx && tx_fetch)) (irq_now ? seen1 : seen0) = true; }
    S.i_rst = rst; S.i_irq = irq_now; S.i_bus__ack = ack; S.i_bus__dat_r = dr;
    dut_eval(&S);
    if (stray && !S.o_bus__cyc && !S.o_bus__stb && (int)gk.n(100) < stray) {
      S.i_bus__ack = 1; st.stray++;
      if (gk.p(50)) S.i_bus__dat_r = gk.p(60) ? next_word ^ (gk.p(50) ? 1u << gk.n(32) : 0) : gk.u();
      dut_eval(&S);
    }
    st.cycles++;
#ifdef HAVE_UADDR
    { u32 ua = S.o_obs_uaddr & 0xff; st.ua[ua] |= 1; st.ua[lastua << 8 | ua] |= 2; lastua = ua; }
#endif
    bool cy = S.o_bus__cyc, sb = S.o_bus__stb;
    if (prev_rst) {
      if (cy || sb) { viol(P_RST | P_WB, "CYC/STB asserted in a cycle directly following reset (cyc=%u stb=%u adr=%08x we=%u)", cy, sb, S.o_bus__adr << 2, S.o_bus__we); }
    }
    if (!rst && !prev_rst && !dead) {
      if (cy != sb) viol(P_WB, "CYC=%u STB=%u", cy, sb);
      else if (in_tx) {
        u32 lanes = 0; for (int i = 0; i < 4; i++) if (tx.sel >> i & 1) lanes |= 0xffu << (8 * i);
        st.checks++;
        if (!cy) viol(P_WB, "transfer abandoned before acknowledge (adr %08x we %u, ack=%u)", tx.adr << 2, tx.we, ack);
        else if (S.o_bus__adr != tx.adr || S.o_bus__we != tx.we || S.o_bus__sel != tx.sel || (tx.we && ((S.o_bus__dat_w ^ tx.dat_w) & lanes)))
          viol(P_WB, "ADR/WE/SEL/DAT_W changed while waiting for ACK: adr %08x -> %08x, sel/we %x -> %x", tx.adr << 2, S.o_bus__adr << 2, tx.sel | tx.we << 4, S.o_bus__sel | S.o_bus__we << 4);
        else if (ack) {
          in_tx = false; just_acked = true;
          if (tx_fetch) {
            pol = next_pol; samp = samp2 = seen0 = seen1 = false; cur_forced = next_forced; curq = nextq; 
            e = plan(iss, next_word, pol.lvl); have = true; data_done = false; ack_cyc = cyc; data_wait_extra = 0; idle = 0;
            if (opt.reset && (dict_hit(e.w) || dict_hit(e.pc) || dict_hit(e.rs1v) || dict_hit(e.rs2v) || (e.mem && dict_hit(e.addr)) || (e.rd > 0 && !e.mem && dict_hit(e.rdval)))) near_magic = 40;
            lg("fetch adr=%08x -> %08x irq=%u/%x", tx.adr << 2, next_word, pol.lvl, pol.pre << 4 | pol.post);
          } else { data_done = true; idle = 0; }
        } else wait_left--;
      } else if (cy) {
        if (just_acked) viol(P_WB | P_PROG, "CYC/STB still asserted in the cycle after ACK (adr %08x)", S.o_bus__adr << 2);
        else {
          tx = Tx{(u32)S.o_bus__adr, (u32)S.o_bus__dat_w, (u8)S.o_bus__sel, (u8)S.o_bus__we};
          if (tx.sel == 0) viol(P_WB | P_LS, "transfer with no byte lane selected (adr %08x we %u)", tx.adr << 2, tx.we);
          else {
            in_tx = true; txcyc = 0;
            on_tx_start();
            if (!dead) { pick_wait(); wait_left--; if (!tx_fetch) data_wait_extra += wait_left; }
          }
        }
        just_acked = false;
      } else {
        just_acked = false;
        if (++idle > 120) viol(P_PROG | (have ? mn_prop(e.mn) : P_RST), "no bus activity for 120 cycles after instruction %08x at %08x", e.w, e.pc);
      }
    }
#ifdef HAVE_RVFI
    if (!rst && !dead) rvfi_cycle();
#endif
    dut_tick(&S);
    cyc++;
    // Under reset the microcode ROM may output stale or arbitrary words (the
    // block RAM start-up fault that control.py documents).
    if (rst && rst_left > 0 && opt.romglitch && gt.n(100) < (u32)opt.romglitch) { dut_romglitch(&S, gt.next(), gt.p(60)); st.romglitch++; }
    if (rst) { arch_reset(); st.resets++; next_pol = {false, (u8)gi.n(3), 0, false}; after_reset = true; }
    prev_rst = rst;
  }
  u32 lastua = 0;

  void run() {
    dut_init(&S);
    full_ctr = 1 + g.n(2 * opt.full_every); csr_ctr = 1 + g.n(2 * opt.csr_every);
    late = 0; lazy = g.p(45) ? 90 : 0;
    wait_style = opt.wait ? opt.wait : (int)gt.n(4);
    sweep_at = opt.sweep_from;
    arch_reset();
    // power-on: with or without an explicit reset pulse
    rst_left = gt.n(3);
    if (rst_left && opt.romglitch && gt.p(50)) dut_romglitch(&S, gt.next(), 0), st.romglitch++;
    prev_rst = rst_left == 0 ? true : false; // first cycle after power-on must be quiet too
    int quiet = 0; (void)quiet;
    long limit = opt.len; long cyclimit = opt.len * 3000L;
    while (!dead && (opt.sweep >= 0 ? sweep_at < opt.sweep_to || !q.empty() : icount < limit) && (long)cyc < (opt.sweep >= 0 ? (1L << 60) : cyclimit)) cycle();
    // closing full dump so that late corruption is seen
    if (!dead && !opt.reset) { int k = 0; while (!q.empty() && k++ < 100000 && !dead) cycle(); if (!dead) { int s = opt.irq; opt.irq = 0; push_full(); push_csr_dump(); k = 0; while (!q.empty() && k++ < 200000 && !dead) cycle(); for (k = 0; k < 60 && !dead; k++) cycle(); opt.irq = s; } }
    if (dead && !(lastmask & P_PROG)) post_mortem();
    st.episodes++;
  }
  // After a divergence the model is lost, but not the question whether the core
  // still gets anywhere: feed it no-ops, acknowledge promptly, keep the IRQ line.
  void post_mortem() {
    std::set<u32> fetched; int w = 0; u32 irq = irq_now;
    for (int c = 0; c < 1500; c++) {
      S.i_rst = 0; S.i_irq = irq; S.i_bus__ack = 0; S.i_bus__dat_r = 0x13;
      dut_eval(&S);
      bool on = S.o_bus__cyc && S.o_bus__stb;
      if (on && w++) { S.i_bus__ack = 1; dut_eval(&S); w = 0; if (!S.o_bus__we && S.o_bus__sel == 15) fetched.insert(S.o_bus__adr); } else if (!on) w = 0;
      dut_tick(&S);
    }
    if (fetched.size() < 8) viol(P_PROG, "and from there the core no longer makes progress: %u distinct words fetched in 1500 cycles", fetched.size());
  }
};

#include "lockstep_main.h"
