// C18/C19: components driven on their own against their documented contracts.
// One section per component (compiled with -DB_<NAME>); enums.h carries the
// numeric values of the design's own enumerations, dut.h the component.
// An X in a comment marks what the documentation leaves open and the monitor
// therefore does not look at.
#include "enums.h"
#include "dut.h"
#include "gen.h"
static Rng R(1); static Opts O; static u64 ev = 0, seqs = 0; static int viol = 0; static std::set<u64> cov; static const char *blk = ""; static bool to = false;
static double T0;
static void V(const char *fmt, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0, u64 e = 0) {
  char m[300]; snprintf(m, sizeof m, fmt, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d, (unsigned long long)e);
  printf("V {\"msg\":\"%s: %s\",\"episode\":%llu}\n", blk, m, (unsigned long long)seqs); viol++;
}
static void see(u64 k) { if (cov.size() < 3000000) cov.insert(k); }
// Values seen lately on any port, and how they may be related to the next one.
static u32 ring[8], nring = 0; static u64 related = 0;
static u32 note(u32 v) { ring[nring++ & 7] = v; return v; }
static u32 kin() {
  u32 v = ring[R.n(8)], w = ring[R.n(8)]; related++;
  switch (R.n(16)) {
  case 0: return ~v; case 1: return -v; case 2: return v + 1; case 3: return v - 1; case 4: return v << 2; case 5: return v >> 2; case 6: return __builtin_bswap32(v);
  case 7: return v << 16 | v >> 16; case 8: return v ^ 1u << R.n(32); case 9: return v ^ w; case 10: return v + w; case 11: return v - w; default: return v;
  }
}
// How long a control input tends to keep its value; drawn anew for every sequence.
static u32 stick = 0;
static void mood() { static const u32 t[] = {0, 0, 0, 50, 80, 95, 99}; stick = t[R.n(7)]; for (u32 &v : ring) v = R.u(); }
#define KEEP(T, x, e) static T x; if (c == 0 || !stick || !R.p(stick)) x = (e);
static u32 fresh() {                    // operand: corners, runs of bits, single bits, random
  if (R.n(24) == 0) return dict_val(R);
  if (R.n(6) == 0) return kin();
  switch (R.n(8)) {
  case 0: { static const u32 t[] = {0, 1, 2, 3, 4, 31, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x55555555, 0xaaaaaaaa, 0xff, 0x80, 0x7f, 0x8000, 0x7fff, 0xffff}; return t[R.n(19)]; }
  case 1: return 1u << R.n(32);
  case 2: { u32 a = R.n(32), b = R.n(32); return (~0u >> a) & (~0u << b); }
  case 3: return ~(1u << R.n(32));
  default: return R.u();
  }
}
static u32 val() { return note(fresh()); }
static u32 cls(u32 v) { return v == 0 ? 0 : v == ~0u ? 1 : v == 0x80000000 ? 2 : v == 0x7fffffff ? 3 : v < 32 ? 4 : v >> 31 ? 5 : 6; }

#ifdef B_ASRC
static const char *NAME = "ASrcMux";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 cur = 0; bool known = false;
  for (int c = 0; c < len && !viol; c++) {
    u32 gp = val(), imm = val(), alu = val(), sel; KEEP(u32, latch, R.p(60)) static const u32 s[] = {ASrc_GP, ASrc_IMM, ASrc_ALU_O, ASrc_ZERO, ASrc_FOUR, ASrc_NEG_ONE, ASrc_THIRTY_ONE};
    KEEP(u32, sel_, s[R.n(7)]) sel = sel_; D.i_latch = latch; D.i_sel = sel; D.i_gp = gp; D.i_imm = imm; D.i_alu = alu; dut_eval(&D);
    if (known && D.o_data != cur) return V("cycle %llu data=%llx expected %llx", c, D.o_data, cur);
    ev++; see(sel << 1 | latch | cls(D.o_data) << 8); dut_tick(&D);
    if (latch) { known = true; cur = sel == ASrc_GP ? gp : sel == ASrc_IMM ? imm : sel == ASrc_ALU_O ? alu : sel == ASrc_ZERO ? 0 : sel == ASrc_FOUR ? 4 : sel == ASrc_NEG_ONE ? ~0u : 31; }
  }
}
#endif

static u32 rdalign(u32 ms, u32 ext, u32 adr, u32 d) {
  if (ms == MemSel_BYTE) { u32 b = d >> (8 * (adr & 3)) & 0xff; return ext == MemExtend_SIGN && b & 0x80 ? b | 0xffffff00 : b; }
  if (ms == MemSel_HWORD) { u32 h = d >> (16 * (adr >> 1 & 1)) & 0xffff; return ext == MemExtend_SIGN && h & 0x8000 ? h | 0xffff0000 : h; }
  return d;
}
static u32 msel() { static const u32 s[] = {MemSel_BYTE, MemSel_HWORD, MemSel_WORD}; return s[R.n(3)]; }
static u32 mext() { return R.p(50) ? MemExtend_SIGN : MemExtend_ZERO; }

#ifdef B_BSRC
static const char *NAME = "BSrcMux";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 cur = 0; bool known = false;
  for (int c = 0; c < len && !viol; c++) {
    static const u32 s[] = {BSrc_GP, BSrc_PC, BSrc_IMM, BSrc_ONE, BSrc_DAT_R, BSrc_CSR_IMM, BSrc_CSR, BSrc_MCAUSE_LATCH};
    u32 gp = val(), imm = val(), pc = val() & 0x3fffffff, d = val(), ci = R.n(32), csr = val(), mc = val(), adr = val(), ms = msel(), me = mext(); KEEP(u32, latch, R.p(60)) KEEP(u32, sel, s[R.n(8)])
    if (R.p(5)) ms = MemSel_AUTO;       // X when DAT_R is selected
    D.i_latch = latch; D.i_sel = sel; D.i_mem_sel = ms; D.i_mem_extend = me; D.i_data_adr = adr; D.i_gp = gp; D.i_imm = imm; D.i_pc = pc; D.i_dat_r = d; D.i_csr_imm = ci; D.i_csr = csr; D.i_mcause = mc;
    dut_eval(&D);
    if (known && D.o_data != cur) return V("cycle %llu data=%llx expected %llx", c, D.o_data, cur);
    ev++; see(sel | latch << 3 | ms << 4 | me << 6 | (adr & 3) << 7 | cls(D.o_data) << 9); dut_tick(&D);
    if (latch) {
      known = !(sel == BSrc_DAT_R && ms == MemSel_AUTO);
      cur = sel == BSrc_GP ? gp : sel == BSrc_PC ? pc << 2 : sel == BSrc_IMM ? imm : sel == BSrc_ONE ? 1 : sel == BSrc_DAT_R ? rdalign(ms, me, adr, d) : sel == BSrc_CSR_IMM ? ci : sel == BSrc_CSR ? csr : mc;
    }
  }
}
#endif

#ifdef B_ALU
#ifndef W
#define W 32
#endif
static const char *NAME = "ALU";
typedef unsigned __int128 U;
static const U M = W == 128 ? ~(U)0 : ((U)1 << W) - 1;
static U wval() {
  U v = (U)val() | (U)val() << 32 | (U)R.next() << 64;
  switch (R.n(8)) { case 0: v = 0; break; case 1: v = M; break; case 2: v = (U)1 << (W - 1); break; case 3: v = M >> 1; break; case 4: v = R.n(4); break; case 5: v = M - R.n(4); break; default:; }
  return v & M;
}
static void seq(int len) {
  static dut_t D; dut_init(&D); U cur = 0; bool known = false; U la = 0, lb = 0;
  for (int c = 0; c < len && !viol; c++) {
    static const u32 ops[] = {OpType_ADD, OpType_SUB, OpType_AND, OpType_OR, OpType_XOR, OpType_SLL, OpType_SRL, OpType_SRA, OpType_CMP_LTU};
    static const u32 om[] = {ALUOMod_NONE, ALUOMod_INV_LSB_O, ALUOMod_CLEAR_LSB_O};
    KEEP(u32, op, ops[R.n(9)]) KEEP(u32, im, R.p(40) ? ALUIMod_INV_MSB_A_B : ALUIMod_NONE) KEEP(u32, o, om[R.n(3)]) U a = wval(), b = wval();
    if (R.p(10)) { U p[] = {la, lb, cur, a}, v = p[R.n(4)]; related++; switch (R.n(8)) { case 0: b = ~v & M; break; case 1: b = -v & M; break; case 2: b = v; break; case 3: b = v ^ (U)1 << (W - 1); break; case 4: b = v << 1 & M; break; case 5: b = v >> 1; break; case 6: a = v; b = ~v & M; break; default: b = ((U)1 << (v & 31)) & M; } }
    if (R.p(10)) b = a; if (R.p(8)) b = (a + 1 - R.n(3)) & M; if (R.p(10)) a = la; if (R.p(10)) b = lb; if (R.p(10)) a = cur; la = a; lb = b;
    D.i_a = a; D.i_b = b; D.i_ctrl__op = op; D.i_ctrl__imod = im; D.i_ctrl__omod = o; dut_eval(&D);
    if (known && (U)D.o_o != cur) return V("width %llu cycle %llu o=%llx expected %llx", W, c, (u64)D.o_o, (u64)cur);
    if (D.o_ctrl__zero != ((U)D.o_o == 0)) return V("width %llu cycle %llu zero=%llu with o=%llx", W, c, D.o_ctrl__zero, (u64)D.o_o);
    ev++; see(op | im << 4 | o << 5 | (u64)D.o_ctrl__zero << 7 | (u64)(a == b) << 8 | (u64)(a < b) << 9 | (u64)(a >> (W - 1)) << 10 | (u64)(b >> (W - 1)) << 11 | (u64)(a == 0) << 12 | (u64)(b == 0) << 13 | (u64)W << 16);
    dut_tick(&D);
    U x = a, y = b, q; if (im == ALUIMod_INV_MSB_A_B) { x ^= (U)1 << (W - 1); y ^= (U)1 << (W - 1); }
    q = op == OpType_ADD ? x + y : op == OpType_SUB ? x - y : op == OpType_AND ? x & y : op == OpType_OR ? x | y : op == OpType_XOR ? x ^ y : op == OpType_SLL ? x << 1 : op == OpType_SRL ? x >> 1
      : op == OpType_SRA ? (x >> 1 | (x >> (W - 1) << (W - 1))) : (U)(x < y);
    q &= M; if (o == ALUOMod_INV_LSB_O) q ^= 1; if (o == ALUOMod_CLEAR_LSB_O) q &= ~(U)1; cur = q; known = true;
  }
}
#endif

#ifdef B_ADRALIGN
static const char *NAME = "AddressAlign";
static void seq(int len) {
  static dut_t D; dut_init(&D);
  for (int c = 0; c < len && !viol; c++) {
    u32 req = R.p(80), ms = msel(), f = R.p(40), pc = val() & 0x3fffffff, a = val(); if (R.p(50)) a = (a & ~3) | R.n(4); if (f && R.p(40)) ms = MemSel_AUTO;
    D.i_mem_req = req; D.i_mem_sel = ms; D.i_insn_fetch = f; D.i_pc = pc; D.i_latched_adr = a; dut_eval(&D); ev++; see(req | f << 1 | ms << 2 | (a & 3) << 4 | cls(a) << 6 | cls(pc) << 9); dut_tick(&D);
    if (!req) continue;                 // X: outputs are qualified by mem_req
    u32 adr = f ? pc : a >> 2, sel = f || ms == MemSel_WORD ? 15 : ms == MemSel_BYTE ? 1u << (a & 3) : a & 2 ? 12 : 3;
    if (D.o_wb_adr != adr || D.o_wb_sel != sel) return V("adr=%llx sel=%llx for latched_adr=%llx, expected adr=%llx sel=%llx", D.o_wb_adr, D.o_wb_sel, a, adr, sel);
  }
}
#endif
#ifdef B_RDALIGN
static const char *NAME = "ReadDataAlign";
static void seq(int len) {
  static dut_t D; dut_init(&D);
  for (int c = 0; c < len && !viol; c++) {
    u32 ms = msel(), me = mext(), a = val(), d = val(); if (R.p(50)) a = (a & ~3) | R.n(4); if (R.p(30)) d = 0x80808080u >> R.n(8) ^ (R.u() & R.u() & R.u());
    D.i_mem_sel = ms; D.i_mem_extend = me; D.i_latched_adr = a; D.i_wb_dat_r = d; dut_eval(&D); u32 e = rdalign(ms, me, a, d);
    if (D.o_data != e) return V("data=%llx expected %llx (mem_sel %llu adr %llx dat_r %llx)", D.o_data, e, ms, a, d);
    ev++; see(ms | me << 2 | (a & 3) << 3 | cls(e) << 5 | (d >> 7 & 0x01010101) * 0x204081u >> 20 << 8); dut_tick(&D);
  }
}
#endif
#ifdef B_WRALIGN
static const char *NAME = "WriteDataAlign";
static void seq(int len) {
  static dut_t D; dut_init(&D);
  for (int c = 0; c < len && !viol; c++) {
    u32 ms = msel(), a = val(), d = val(); if (R.p(50)) a = (a & ~3) | R.n(4);
    D.i_mem_sel = ms; D.i_latched_adr = a; D.i_data = d; dut_eval(&D);
    u32 e = ms == MemSel_BYTE ? (d & 0xff) << (8 * (a & 3)) : ms == MemSel_HWORD ? (d & 0xffff) << (16 * (a >> 1 & 1)) : d;
    u32 m = ms == MemSel_BYTE ? 0xffu << (8 * (a & 3)) : ms == MemSel_HWORD ? 0xffffu << (16 * (a >> 1 & 1)) : ~0u;  // other lanes X
    if ((D.o_wb_dat_w & m) != (e & m)) return V("wb_dat_w=%llx expected %llx in lanes %llx (adr %llx)", D.o_wb_dat_w, e, m, a);
    ev++; see(ms | (a & 3) << 2 | cls(d) << 4 | (d & 0xff) << 8); dut_tick(&D);
  }
}
#endif

#ifdef B_PC
static const char *NAME = "ProgramCounter";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 cur = 0; bool known = false;
  for (int c = 0; c < len && !viol; c++) {
    static const u32 s[] = {PcAction_HOLD, PcAction_INC, PcAction_LOAD_ALU_O}; u32 w = val() & 0x3fffffff; KEEP(u32, act, s[R.n(3)]) if (R.p(10)) w = 0x3fffffff - R.n(3);
    if (known && R.p(15)) w = (cur + R.n(5) - 2) & 0x3fffffff;
    D.i_ctrl__action = act; D.i_dat_w = w; dut_eval(&D);
    if (known && D.o_dat_r != cur) return V("cycle %llu dat_r=%llx expected %llx", c, D.o_dat_r, cur);
    ev++; see(act | cls(cur << 2) << 2 | (cur == 0x3fffffff) << 6 | cls(w << 2) << 8); dut_tick(&D);
    if (act == PcAction_INC) cur = (cur + 1) & 0x3fffffff; else if (act == PcAction_LOAD_ALU_O) cur = w, known = true;
  }
}
#endif

#ifdef B_REGFILE
static const char *NAME = "RegFile";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 m[64]; bool mk[64] = {0}; u32 q = 0; bool qk = false;
  u32 span = R.p(50) ? 4 : 32;
  for (int c = 0; c < len && !viol; c++) {
    KEEP(u32, rd, R.p(60)) KEEP(u32, wr, R.p(60)) KEEP(u32, z, R.p(30)) KEEP(u32, op, R.p(60) ? CSROp_NONE : R.p(50) ? CSROp_READ_CSR : CSROp_WRITE_CSR)
    u32 ar = R.n(span), aw = R.p(20) ? ar : R.n(span), dw = val(), ca = R.p(15) ? ar : R.p(15) ? aw : R.n(span), cw = val(); if (R.p(8)) dw = ar; if (R.p(8)) cw = dw; if (qk && R.p(10)) dw = q;
    if (R.p(10)) aw = R.n(3);
    D.i_pub__adr_r = ar; D.i_pub__adr_w = aw; D.i_pub__dat_w = dw; D.i_pub__ctrl__reg_read = rd; D.i_pub__ctrl__reg_write = wr; D.i_pub__ctrl__allow_zero_wr = z;
    D.i_priv__adr = ca; D.i_priv__dat_w = cw; D.i_priv__op = op; dut_eval(&D);
    if (qk && (D.o_pub__dat_r != q || D.o_priv__dat_r != q)) return V("cycle %llu dat_r=%llx expected %llx", c, D.o_pub__dat_r != q ? D.o_pub__dat_r : D.o_priv__dat_r, q);
    ev++; see(rd | wr << 1 | z << 2 | op << 3 | (aw < 3 ? aw : 3) << 5 | (ar == aw) << 7 | (ca == ar) << 8 | (ca == aw) << 9 | qk << 10 | ar << 11); dut_tick(&D);
    if (op == CSROp_NONE) {
      if (wr && (aw || z)) m[aw] = dw, mk[aw] = true;
      if (rd) q = m[ar], qk = mk[ar];   // transparent: the value being written; otherwise held
    } else if (op == CSROp_READ_CSR) q = m[32 + ca], qk = mk[32 + ca];
    else { m[32 + ca] = cw; mk[32 + ca] = true; qk = false; }
  }
}
#endif

#ifdef B_DATAPATH
static const char *NAME = "DataPath";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 x[32], cs[32]; bool xk[32] = {0}, ck[32] = {0}; bool mie = 0, mpie = 0, meie = 0; u32 gq = 0, cq = 0, pc = 0; bool gk = false, cqk = false, pk = false;
  static const u32 adrs[] = {CSRFile_MSTATUS, CSRFile_MIE, CSRFile_MTVEC, CSRFile_MSCRATCH, CSRFile_MEPC, CSRFile_MCAUSE, CSRFile_MIP};
  for (int c = 0; c < len && !viol; c++) {
    KEEP(u32, rd, R.p(60)) KEEP(u32, wr, R.p(60)) KEEP(u32, z, R.p(30)) KEEP(u32, op, R.p(40) ? CSROp_NONE : R.p(50) ? CSROp_READ_CSR : CSROp_WRITE_CSR)
    u32 ar = R.n(32), aw = R.p(20) ? ar : R.n(32), dw = val(), ca = R.p(92) ? adrs[R.n(7)] : R.n(16), cw = val(); if (R.p(8)) cw = dw; if (R.p(6)) cw = pc; if (R.p(6)) cw = pc << 2; if (gk && R.p(10)) dw = gq; if (R.p(6)) ar = ca; if (R.p(6)) aw = ca; if (R.p(5)) cw = 0;
    if (R.p(30)) cw ^= 1u << (R.p(50) ? 3 : R.p(50) ? 7 : 11);
    u32 ex = R.p(80) ? ExceptCtl_NONE : R.p(40) ? ExceptCtl_ENTER_INT : R.p(66) ? ExceptCtl_LEAVE_INT : ExceptCtl_LATCH_DECODER + R.n(4), mip = val(), pw = val() & 0x3fffffff; KEEP(u32, pa, R.p(34) ? PcAction_INC : R.p(50) ? PcAction_HOLD : PcAction_LOAD_ALU_O) if (R.p(10)) pw = (pc + R.n(5) - 2) & 0x3fffffff; if (R.p(6)) pw = cw >> 2; if (R.p(4)) pw = 0x3fffffff - R.n(3);
    if (op == CSROp_WRITE_CSR && ca == CSRFile_MSTATUS) ex = ExceptCtl_NONE;  // X: both at once
    D.i_gp__adr_r = ar; D.i_gp__adr_w = aw; D.i_gp__dat_w = dw; D.i_gp__ctrl__reg_read = rd; D.i_gp__ctrl__reg_write = wr; D.i_gp__ctrl__allow_zero_wr = z;
    D.i_csr__adr = ca; D.i_csr__dat_w = cw; D.i_csr__ctrl__op = op; D.i_csr__ctrl__exception = ex; D.i_csr__mip_w = mip; D.i_pc__dat_w = pw; D.i_pc__ctrl__action = pa; dut_eval(&D);
    if (gk && D.o_gp__dat_r != gq) return V("cycle %llu gp.dat_r=%llx expected %llx", c, D.o_gp__dat_r, gq);
    if (cqk && D.o_csr__dat_r != cq) return V("cycle %llu csr.dat_r=%llx expected %llx", c, D.o_csr__dat_r, cq);
    if (pk && D.o_pc__dat_r != pc) return V("cycle %llu pc.dat_r=%llx expected %llx", c, D.o_pc__dat_r, pc);
    u32 ms = 0x1800 | mpie << 7 | mie << 3;
    if (D.o_csr__mstatus_r != ms) return V("cycle %llu mstatus_r=%llx expected %llx", c, D.o_csr__mstatus_r, ms);
    if (D.o_csr__mie_r != (u32)meie << 11) return V("cycle %llu mie_r=%llx expected %llx", c, D.o_csr__mie_r, (u32)meie << 11);
    if ((D.o_csr__mip_r ^ mip) & 0x800) return V("cycle %llu mip_r=%llx with mip_w=%llx", c, D.o_csr__mip_r, mip);
    ev++; see(rd | wr << 1 | z << 2 | op << 3 | ca << 5 | ex << 10 | mie << 13 | mpie << 14 | meie << 15 | (mip >> 11 & 1) << 16 | pa << 17 | (u64)(aw == 0) << 19);
    dut_tick(&D);
    cqk = false;
    if (op == CSROp_NONE) { if (wr && (aw || z)) x[aw] = dw, xk[aw] = true; if (rd) gq = x[ar], gk = xk[ar]; }
    else gk = false;
    if (op == CSROp_READ_CSR) {
      if (ca == CSRFile_MSTATUS) cq = ms, cqk = true; else if (ca == CSRFile_MIE) cq = (u32)meie << 11, cqk = true; else if (ca == CSRFile_MIP) cq = mip & 0x800, cqk = true;
      else { bool impl = false; for (u32 a : adrs) impl |= a == ca; cq = cs[ca]; cqk = ck[ca] && impl; }
    }
    if (op == CSROp_WRITE_CSR) {
      if (ca == CSRFile_MSTATUS) mie = cw >> 3 & 1, mpie = cw >> 7 & 1; else if (ca == CSRFile_MIE) meie = cw >> 11 & 1;
      else { cs[ca] = ca == CSRFile_MTVEC || ca == CSRFile_MEPC ? cw & ~3u : cw; ck[ca] = true; }
    }
    if (ex == ExceptCtl_ENTER_INT) mpie = mie, mie = 0; else if (ex == ExceptCtl_LEAVE_INT) mie = mpie, mpie = 1;
    if (pa == PcAction_INC) pc = (pc + 1) & 0x3fffffff; else if (pa == PcAction_LOAD_ALU_O) pc = pw, pk = true;
  }
}
#endif

#ifdef B_SRCMUX
static const char *NAME = "DataPathSrcMux";
static void seq(int len) {
  static dut_t D; dut_init(&D);
  for (int c = 0; c < len && !viol; c++) {
    u32 f = R.p(50), rs = R.p(50) ? RegRSel_INSN_RS1 : RegRSel_INSN_RS2, ws = R.p(50) ? RegWSel_INSN_RD : RegWSel_ZERO, csl = R.p(50) ? CSRSel_INSN_CSR : CSRSel_TRG_CSR, u = R.n(32), a = R.n(32), b = R.n(32), d = R.n(32), e = R.n(16), t = R.n(16);
    if (R.p(10)) u = a; if (R.p(10)) b = a; if (R.p(10)) d = b; if (R.p(10)) d = a; if (R.p(10)) t = e; if (R.p(5)) u = a = b = d = R.n(32); if (R.p(5)) { u32 *q[] = {&u, &a, &b, &d}; *q[R.n(4)] = 0; }
    D.i_insn_fetch = f; D.i_reg_r_sel = rs; D.i_reg_w_sel = ws; D.i_csr_sel = csl; D.i_src_a_unreg = u; D.i_src_a = a; D.i_src_b = b; D.i_dst = d; D.i_csr_encoding = e; D.i_csr_target = t; dut_eval(&D);
    u32 r = rs == RegRSel_INSN_RS2 ? b : f ? u : a, w = ws == RegWSel_ZERO ? 0 : d, z = ws == RegWSel_ZERO, k = csl == CSRSel_TRG_CSR ? t : e;
    if (D.o_reg_r_adr != r || D.o_reg_w_adr != w || D.o_allow_zero_wr != z || D.o_csr_adr != k) return V("reg_r_adr=%llu reg_w_adr=%llu allow_zero_wr=%llu csr_adr=%llu", D.o_reg_r_adr, D.o_reg_w_adr, D.o_allow_zero_wr, D.o_csr_adr);
    ev++; see(f | rs << 1 | ws << 2 | csl << 3 | r << 4 | w << 9 | k << 14); dut_tick(&D);
  }
}
#endif

#if defined B_IMMGEN || defined B_DECODE || defined B_CSRATTR || defined B_EXCTL
#include "iss.h"
static u32 lcg;
// the immediate the specification assigns to the instruction's format
static bool has_imm(u32 w) { switch (w >> 2 & 31) { case 4: case 25: case 0: case 13: case 5: case 27: case 24: case 8: return true; } return false; }
static u32 imm_of(u32 w) { switch (w >> 2 & 31) { case 13: case 5: return w & 0xfffff000; case 27: return imm_j(w); case 24: return imm_b(w); case 8: return imm_s(w); default: return imm_i(w); } }
#endif
#ifdef B_IMMGEN
static const char *NAME = "ImmediateGenerator";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 cur = 0; bool known = false;
  for (int c = 0; c < len && !viol; c++) {
    u32 w = gen_word(R), en = R.p(70); if (R.p(30)) w = (val() & ~0x7fu) | (w & 0x7f);
    D.i_enable = en; D.i_insn = w; dut_eval(&D);
    if (known && D.o_imm != cur) return V("cycle %llu imm=%llx expected %llx", c, D.o_imm, cur);
    ev++; see((w & 0x7f) | en << 7 | (w >> 31) << 8 | cls(D.o_imm) << 9 | (u64)(w >> 20) << 12); dut_tick(&D);
    known = en && has_imm(w) && (w & 3) == 3; if (known) cur = imm_of(w);   // X unless enabled on a format with an immediate
  }
}
#endif
#ifdef B_CSRATTR
static const char *NAME = "CSRAttributes";
// bits 8 and 9 are documented not to matter; only machine-mode numbers are judged
static void seq(int len) {
  static dut_t D; dut_init(&D); int kind = -1; u32 last = 0;
  for (int c = 0; c < len && !viol; c++) {
    u32 a = R.p(30) ? csrs_impl[R.n(7)] : R.p(30) ? csrs_ro0[R.n(16)] : R.p(50) ? (R.n(4) << 10 | 0x300 | R.n(256)) : R.n(4096);
    if (seqs < 16 && c < 4096) a = c;
    D.i_addr = a; dut_eval(&D);
    if (kind >= 0) { u32 ill = kind == 0, ro0 = kind >= 2; if ((D.o_data >> ATTR_ILL & 1) != ill || (!ill && (D.o_data >> ATTR_RO0 & 1) != ro0)) return V("CSR %llx: ill=%llu ro0=%llu, expected ill=%llu ro0=%llu", last, D.o_data >> ATTR_ILL & 1, D.o_data >> ATTR_RO0 & 1, ill, ro0); }
    ev++; see(a); dut_tick(&D); last = a; kind = (a >> 8 & 3) == 3 ? csr_kind(a) : -1;
  }
}
#endif
#ifdef B_DECODE
static const char *NAME = "Decode";
// expectation for one word: 0 fine, 1 illegal, 2 ecall, 3 ebreak
static int verdict(u32 w) {
  Mn m = decode(w);
  if (m == M_ILL) return 1; if (m == M_ECALL) return 2; if (m == M_EBREAK) return 3;
  if (m >= M_CSRRW) { int k = csr_kind(w >> 20); if (k == 0) return 1; if ((w >> 30) == 3 && (m == M_CSRRW || m == M_CSRRWI || (w >> 15 & 31))) return 1; }
  return 0;
}
static int csr_idx(u32 a) { switch (a) { case 0x300: return CSRFile_MSTATUS; case 0x304: return CSRFile_MIE; case 0x305: return CSRFile_MTVEC; case 0x340: return CSRFile_MSCRATCH; case 0x341: return CSRFile_MEPC; case 0x342: return CSRFile_MCAUSE; case 0x344: return CSRFile_MIP; } return -1; }
// documented jump table (internals.md, Mapping Details); -1: not listed
static int map_of(u32 w) {
  u32 f3 = w >> 12 & 7, b30 = w >> 30 & 1;
  switch (w >> 2 & 31) {
  case 0: return 0x08 + f3; case 3: return 0x30; case 4: return 0x40 + f3 + (f3 == 5 ? b30 * 8 : 0); case 5: return 0x50; case 8: return 0x80 + f3;
  case 24: return 0x88 + f3; case 25: return 0x98; case 27: return 0xB0; case 12: return 0xC0 + f3 + b30 * 8; case 13: return 0xD0;
  case 28: return f3 ? 0x24 : -1;
  }
  return -1;
}
static int csrmap[2][8][4]; static bool csrmap_init = false;
static u64 legal = 0, ills = 0, csrn = 0; static u32 vec[4];
// one decode: the word is on the input for one cycle only
static bool one(dut_t &D, u32 w, u32 junk, u32 junk2, int extra) {
  int v = verdict(w); bool csr = (w & 0x7f) == 0x73 && (w >> 12 & 3);
  D.i_do_decode = 1; D.i_insn = w; dut_eval(&D);
  if (D.o_src_a_unreg != (w >> 15 & 31) || D.o_opcode != (w >> 2 & 31)) { V("insn %llx: src_a_unreg=%llu opcode=%llu", w, D.o_src_a_unreg, D.o_opcode); return false; }
#ifdef RVFI
  bool wd = !((w >> 2 & 31) == 24 || (w >> 2 & 31) == 3 || (w >> 2 & 31) == 8);
  if (D.o_rvfi__rs1 != (w >> 15 & 31) || D.o_rvfi__rs2 != (w >> 20 & 31) || D.o_rvfi__rd != (w >> 7 & 31) || D.o_rvfi__funct12 != w >> 20 || D.o_rvfi__funct3 != (w >> 12 & 7) || D.o_rvfi__insn != w || !D.o_rvfi__do_decode || (!v && D.o_rvfi__rd_valid != wd)) { V("insn %llx: rvfi field wrong", w); return false; }
#endif
  dut_tick(&D);
  D.i_do_decode = 0; D.i_insn = junk; dut_eval(&D);
#define FIELDS if (D.o_src_a != (w >> 15 & 31) || D.o_src_b != (w >> 20 & 31) || D.o_dst != (w >> 7 & 31)) { V("insn %llx: src_a=%llu src_b=%llu dst=%llu", w, D.o_src_a, D.o_src_b, D.o_dst); return false; } \
  if (!v && has_imm(w) && D.o_imm != imm_of(w)) { V("insn %llx: imm=%llx expected %llx", w, D.o_imm, imm_of(w)); return false; }
  FIELDS
  bool e1 = D.o_exception >> EXC_V & 1; u32 t1 = D.o_exception >> EXC_T & 0x7fffffff;
  u32 want = v == 1 ? 2 : v == 2 ? 11 : 3;
  if (!v && e1) { V("insn %llx is legal, exception %llx one cycle after decode", w, t1); return false; }
  if (v && !csr && (!e1 || t1 != want)) { V("insn %llx: exception valid=%llu type=%llx one cycle after decode, expected type %llx", w, e1, t1, want); return false; }
  if (csr && (w & 3) == 3 && csr_idx(w >> 20) >= 0 && !v && D.o_csr_encoding != (u32)csr_idx(w >> 20)) { V("insn %llx: csr_encoding=%llu expected %llu", w, D.o_csr_encoding, csr_idx(w >> 20)); return false; }
  if (!v && map_of(w) >= 0 && D.o_requested_op != (u32)map_of(w)) { V("insn %llx: requested_op=%llx one cycle after decode, documented %llx", w, D.o_requested_op, map_of(w)); return false; }
  dut_tick(&D);
  if (csr || extra) {
    D.i_insn = junk2; dut_eval(&D); FIELDS
    bool e2 = D.o_exception >> EXC_V & 1; u32 t2 = D.o_exception >> EXC_T & 0x7fffffff;
    if (!v && e2) { V("insn %llx is legal, exception %llx two cycles after decode", w, t2); return false; }
    if (v && csr && (!e2 || t2 != want)) { V("insn %llx: CSR exception valid=%llu type=%llx two cycles after decode, expected type %llx", w, e2, t2, want); return false; }
    if (csr && !v) { // the final address depends on the kind of access only
      if (!csrmap_init) { memset(csrmap, -1, sizeof csrmap); csrmap_init = true; }
      int &m = csrmap[csr_kind(w >> 20) != 1][w >> 12 & 7][!(w >> 7 & 31) + 2 * !(w >> 15 & 31)];
      if (m < 0) m = D.o_requested_op;
      if ((u32)m != D.o_requested_op) { V("insn %llx: requested_op=%llx two cycles after decode, %llx for another access of the same kind", w, D.o_requested_op, m); return false; }
    }
    dut_tick(&D);
    for (int i = 0; i < extra; i++) { D.i_insn = junk ^ i; dut_eval(&D); FIELDS if (D.o_exception >> EXC_V & 1) { V("insn %llx: exception valid %llu cycles after decode", w, 3 + i); return false; } dut_tick(&D); }
  }
  ev++; vec[v]++; csrn += csr;
  return true;
}
static dut_t D;
static void seq(int len) {
  dut_init(&D); u32 prev = 0;
  for (int c = 0; c < len; c++) {
    u32 w = gen_word(R), k = R.n(10); if (k == 0) w = prev ^ 1u << R.n(32); if (k == 1) w = R.u(); if (k == 2) w = R.n(4096) << 20 | R.n(0x2000) << 7 | 0x73; if (k == 3) w = (R.u() & ~0x7fu) | (w & 0x7f); if (k == 4) { u32 x = R.p(50) ? w >> 15 & 31 : R.n(32); w = (w & ~(0x1f00f80u | 0xf8000u)) | x << 7 | x << 15 | x << 20; }
    if (k == 5 && c) { w = prev; if (R.p(70)) { static const u32 sh[] = {7, 15, 20, 25}; u32 f = sh[R.n(4)]; w = (w & ~(31u << f)) | R.n(32) << f; } }
    if (!one(D, w, R.p(50) ? gen_word(R) : R.u(), R.p(50) ? gen_word(R) : R.u(), R.n(4))) return;
    see((w & 0x7f) | (w >> 12 & 7) << 7 | (u64)((w & 0x7f) == 0x73 ? w >> 20 : w >> 25) << 10); prev = w;
  }
}
// all words w with w % parts == part, interference-free neighbours from a cheap generator
static void sweep(u32 part, u32 parts) {
  dut_init(&D); u32 j = 0x12345;
  for (u64 w = part; w < 1ull << 32; w += parts) { j = j * 1664525u + 1013904223u; if (!one(D, (u32)w, j, j >> 7 | 0x73, 0)) return; if (!(ev & 0xfffff) && now() - T0 > O.maxsec) { to = true; return; } if ((w & 0xfff) == (u64)part) see((w >> 12) & 0xfffff); }
}
#endif

#ifdef B_ROUTER
static const char *NAME = "ExceptionRouter";
static void seq(int len) {
  static dut_t D; dut_init(&D); u32 mc = 0; bool known = false;
  for (int c = 0; c < len && !viol; c++) {
    static const u32 et[] = {2, 3, 11}; static const u32 s[] = {MemSel_AUTO, MemSel_BYTE, MemSel_HWORD, MemSel_WORD}; static const u32 x[] = {ExceptCtl_NONE, ExceptCtl_LATCH_DECODER, ExceptCtl_LATCH_JAL, ExceptCtl_LATCH_STORE_ADR, ExceptCtl_LATCH_LOAD_ADR, ExceptCtl_ENTER_INT, ExceptCtl_LEAVE_INT};
    u32 lo = R.n(4), ms = s[R.n(4)], ctl = x[R.n(7)], st = val(), ip = val(), ie = val(), dv = R.p(40), dt = et[R.n(3)]; if (R.p(8)) ip = st; if (R.p(8)) ie = st; if (R.p(8)) ie = ip; bool on = R.p(50); if (on) st |= 8, ip |= 0x800, ie |= 0x800; if (on && R.p(40)) { u32 k = R.n(3); if (k == 0) st &= ~8u; if (k == 1) ip &= ~0x800u; if (k == 2) ie &= ~0x800u; }
    D.i_src__alu_lo = lo; D.i_src__csr__mstatus = st; D.i_src__csr__mip = ip; D.i_src__csr__mie = ie; D.i_src__ctrl__mem_sel = ms; D.i_src__ctrl__except_ctl = ctl; D.i_src__decode = dt << EXC_T | dv << EXC_V; dut_eval(&D);
    bool pend = st & 8 && ip & 0x800 && ie & 0x800, mis = (ms == MemSel_HWORD && lo & 1) || (ms == MemSel_WORD && lo);
    bool e = false; u32 cause = 0;
    if (ctl == ExceptCtl_LATCH_DECODER) { e = dv || pend; cause = pend ? 0x8000000b : dt; }
    if (ctl == ExceptCtl_LATCH_JAL) { e = lo & 2; cause = 0; }
    if (ctl == ExceptCtl_LATCH_STORE_ADR) { e = mis; cause = 6; }
    if (ctl == ExceptCtl_LATCH_LOAD_ADR) { e = mis; cause = 4; }
    if (D.o_out__exception != e || D.o_src__ctrl__exception != e) return V("cycle %llu exception=%llu expected %llu (except_ctl %llu, alu_lo %llu)", c, D.o_out__exception, e, ctl, lo);
    if (known && D.o_out__mcause != mc) return V("cycle %llu mcause=%llx expected %llx", c, D.o_out__mcause, mc);
    ev++; see(lo | ms << 2 | ctl << 4 | dv << 7 | pend << 8 | (dt & 3) << 9 | (u64)(!!(st & 8) | !!(ip & 0x800) << 1 | !!(ie & 0x800) << 2) << 11); dut_tick(&D);
    known = e; mc = cause;
  }
}
#endif

#ifdef B_CONTROL
static const char *NAME = "Control";
// rom.h: `static const struct uw rom[256]` with one member per microcode field, from the generator's own table.
#include "rom.h"
static u64 taken = 0, rsts = 0;
static void seq(int len) {
  static dut_t D; dut_init(&D); int cur = -1, known = 0;      // cur: address whose microinstruction drives the outputs; -1 undefined
  bool first = true; int rp = R.p(50) ? 0 : 20 + R.n(300), hold = 0; u32 sticky = R.n(8), last = 0;
  for (int c = 0; c < len && !viol; c++) {
    u32 rst = hold > 0 || (rp && R.n(rp) == 0); if (hold) hold--; else if (rst) hold = R.n(4);
    if (R.p(30)) sticky = R.n(8);
    u32 mv = sticky & 1, az = sticky >> 1 & 1, ex = sticky >> 2 & 1, ro = R.n(256), opc = R.n(32);
    if (cur >= 0) { if (R.p(8)) ro = cur; else if (R.p(8)) ro = rom[cur].target; else if (R.p(8)) ro = (cur + 1) & 255; else if (R.p(8)) ro = last; } last = ro; if (R.p(10)) opc = ro >> 3;
    D.i_rst = rst; D.i_mem__valid = mv; D.i_alu__ctrl__zero = az; D.i_exception__exception = ex; D.i_decode__requested_op = ro; D.i_decode__opcode = opc; dut_eval(&D); ev++; rsts += rst;
    int next;
    if (cur >= 0) {
      const uw &u = rom[cur]; const char *bad = 0; u64 got = 0, want = 0;
#define CK(port, f) if (D.port != u.f) bad = #f, got = D.port, want = u.f;
      CK(o_csr__route__target, target) CK(o_pc__action, pc_action) CK(o_gp__ctrl__reg_read, reg_read) CK(o_gp__ctrl__reg_write, reg_write) CK(o_csr__ctrl__op, csr_op)
      CK(o_gp__route__reg_r_sel, reg_r_sel) CK(o_gp__route__reg_w_sel, reg_w_sel) CK(o_csr__route__csr_sel, csr_sel) CK(o_alu__route__a_src, a_src) CK(o_alu__route__b_src, b_src)
      CK(o_alu__route__latch_a, latch_a) CK(o_alu__route__latch_b, latch_b) CK(o_alu__ctrl__op, alu_op) CK(o_alu__ctrl__imod, alu_i_mod) CK(o_alu__ctrl__omod, alu_o_mod) CK(o_mem__req, mem_req)
      CK(o_mem__sel, mem_sel) CK(o_exception__mem_sel, mem_sel) CK(o_mem__latch_adr, latch_adr) CK(o_mem__latch_data, latch_data) CK(o_mem__write, write_mem) CK(o_mem__insn_fetch, insn_fetch)
      CK(o_mem__extend, mem_extend) CK(o_csr__ctrl__exception, except_ctl) CK(o_exception__except_ctl, except_ctl)
      if (bad) { char b[80]; snprintf(b, sizeof b, "microinstruction %%llu cycle %%llu field %s = %%llu expected %%llu", bad); return V(b, cur, c, got, want); }
      u32 t = (u.cond_test == CondTest_EXCEPTION ? ex : u.cond_test == CondTest_CMP_ALU_O_ZERO ? az : u.cond_test == CondTest_MEM_VALID ? mv : 1) ^ u.invert_test;
      next = u.jmp_type == JmpType_MAP ? (t ? u.target : ro) : u.jmp_type == JmpType_DIRECT ? (t ? u.target : (cur + 1) & 255) : u.jmp_type == JmpType_DIRECT_ZERO ? (t ? u.target : 0) : (cur + 1) & 255;
      see(cur | t << 8 | (u64)sticky << 9); taken += t;
    } else next = 2;                    // power-on and the cycle after a reset: address 2 is read next
    dut_tick(&D);
    // the edge at which reset is asserted: upc is 2, and what the ROM shows next cycle is undefined for one cycle
    if (rst) cur = -1; else cur = next;
  }
}
#endif

int main(int argc, char **argv) {
  std::vector<char *> av; u32 part = 0, parts = 0; for (int i = 0; i < argc; i++) { if (!strncmp(argv[i], "part=", 5)) part = atoi(argv[i] + 5); else if (!strncmp(argv[i], "parts=", 6)) parts = atoi(argv[i] + 6); else av.push_back(argv[i]); }
  if (int x = O.parse(av.size(), av.data())) return x;
  T0 = now(); blk = NAME; dict_load(dut_dict, dut_ndict);
#ifdef B_DECODE
  if (parts) sweep(part, parts); else
#endif
  for (; (long)seqs < O.episodes && !viol; seqs++) { R = Rng(mix64(O.seed, O.only_set ? O.only : seqs)); mood(); seq(O.len); if (O.only_set) break; if (!(seqs & 15) && now() - T0 > O.maxsec) { to = true; break; } }
  printf("S {\"evals\":%llu,\"related\":%llu,\"sequences\":%llu,\"distinct\":%zu,\"violations\":%d,\"timeout\":%s", (unsigned long long)ev, (unsigned long long)related, (unsigned long long)seqs, cov.size(), viol, to ? "true" : "false");
#ifdef B_DECODE
  printf(",\"legal\":%u,\"illegal\":%u,\"ecall\":%u,\"ebreak\":%u,\"csr_words\":%llu", vec[0], vec[1], vec[2], vec[3], (unsigned long long)csrn);
#endif
#ifdef B_CONTROL
  printf(",\"jumps_taken\":%llu,\"resets\":%llu", (unsigned long long)taken, (unsigned long long)rsts);
#endif
  printf("}\n"); return viol ? 1 : 0;
}
