// Reference model: RV32I + Zicsr, M-mode only, as documented for Sentinel.
// Written from the RISC-V unprivileged/privileged specifications and the CSR
// list in doc/development/internals.md; shares no code with the design.
#pragma once
#include <cstdint>
#include <cstring>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;

enum Mn { M_ILL, M_LUI, M_AUIPC, M_JAL, M_JALR,
  M_BEQ, M_BNE, M_BLT, M_BGE, M_BLTU, M_BGEU,
  M_LB, M_LH, M_LW, M_LBU, M_LHU, M_SB, M_SH, M_SW,
  M_ADDI, M_SLTI, M_SLTIU, M_XORI, M_ORI, M_ANDI, M_SLLI, M_SRLI, M_SRAI,
  M_ADD, M_SUB, M_SLL, M_SLT, M_SLTU, M_XOR, M_SRL, M_SRA, M_OR, M_AND,
  M_FENCE, M_ECALL, M_EBREAK, M_MRET, M_WFI,
  M_CSRRW, M_CSRRS, M_CSRRC, M_CSRRWI, M_CSRRSI, M_CSRRCI, M_N };
static const char *mn_name[] = {"illegal","lui","auipc","jal","jalr","beq","bne","blt","bge","bltu","bgeu",
 "lb","lh","lw","lbu","lhu","sb","sh","sw","addi","slti","sltiu","xori","ori","andi","slli","srli","srai",
 "add","sub","sll","slt","sltu","xor","srl","sra","or","and","fence","ecall","ebreak","mret","wfi",
 "csrrw","csrrs","csrrc","csrrwi","csrrsi","csrrci"};

static inline Mn decode(u32 w) {
  u32 f3 = (w >> 12) & 7, f7 = w >> 25;
  switch (w & 0x7f) {
  case 0x37: return M_LUI;
  case 0x17: return M_AUIPC;
  case 0x6f: return M_JAL;
  case 0x67: return f3 == 0 ? M_JALR : M_ILL;
  case 0x63: { static const Mn t[8] = {M_BEQ,M_BNE,M_ILL,M_ILL,M_BLT,M_BGE,M_BLTU,M_BGEU}; return t[f3]; }
  case 0x03: { static const Mn t[8] = {M_LB,M_LH,M_LW,M_ILL,M_LBU,M_LHU,M_ILL,M_ILL}; return t[f3]; }
  case 0x23: { static const Mn t[8] = {M_SB,M_SH,M_SW,M_ILL,M_ILL,M_ILL,M_ILL,M_ILL}; return t[f3]; }
  case 0x13: switch (f3) { case 0: return M_ADDI; case 2: return M_SLTI; case 3: return M_SLTIU; case 4: return M_XORI;
      case 6: return M_ORI; case 7: return M_ANDI; case 1: return f7 == 0 ? M_SLLI : M_ILL;
      case 5: return f7 == 0 ? M_SRLI : f7 == 0x20 ? M_SRAI : M_ILL; } return M_ILL;
  case 0x33:
    if (f7 == 0) { static const Mn t[8] = {M_ADD,M_SLL,M_SLT,M_SLTU,M_XOR,M_SRL,M_OR,M_AND}; return t[f3]; }
    if (f7 == 0x20) return f3 == 0 ? M_SUB : f3 == 5 ? M_SRA : M_ILL;
    return M_ILL;
  case 0x0f: return f3 == 0 ? M_FENCE : M_ILL;   // no Zifencei
  case 0x73:
    if (w == 0x00000073) return M_ECALL;
    if (w == 0x00100073) return M_EBREAK;
    if (w == 0x30200073) return M_MRET;
    if (w == 0x10500073) return M_WFI;
    { static const Mn t[8] = {M_ILL,M_CSRRW,M_CSRRS,M_CSRRC,M_ILL,M_CSRRWI,M_CSRRSI,M_CSRRCI}; return t[f3]; }
  }
  return M_ILL;
}

enum Csr { C_MSTATUS = 0x300, C_MIE = 0x304, C_MTVEC = 0x305, C_MSCRATCH = 0x340, C_MEPC = 0x341, C_MCAUSE = 0x342, C_MIP = 0x344 };
// 0: does not exist  1: implemented  2: read-only zero, writes ignored  3: read-only zero, writes trap
static inline int csr_kind(u32 a) {
  switch (a) {
  case C_MSTATUS: case C_MIE: case C_MTVEC: case C_MSCRATCH: case C_MEPC: case C_MCAUSE: case C_MIP: return 1;
  case 0xF11: case 0xF12: case 0xF13: case 0xF14: case 0xF15: return 3;
  case 0x301: case 0x310: case 0x320: case 0x343: case 0xB00: case 0xB02: case 0xB80: case 0xB82: return 2;
  }
  if (a >= 0xB03 && a <= 0xB1F) return 2;
  if (a >= 0xB83 && a <= 0xB9F) return 2;
  if (a >= 0x323 && a <= 0x33F) return 2;
  return 0;
}

struct Iss {
  u32 x[32], pc, mscratch, mepc, mcause, mtvec; bool mie, mpie, meie;
};

struct Eff {               // what one instruction is expected to do
  Mn mn; u32 w, pc;
  bool trap, intr; u32 cause;
  bool mem, we; u32 addr; u32 size; u8 sel; u32 wdata;   // wdata positioned in its lanes
  int rd; u32 rdval; bool rd_written;
  u32 next;
  u32 csr; bool csr_read, csr_write, csr_ok; u32 csr_old, csr_new;
  u32 rs1v, rs2v;
};

static inline i32 sx(u32 v, int b) { return (i32)(v << (32 - b)) >> (32 - b); }
static inline u32 imm_i(u32 w) { return sx(w >> 20, 12); }
static inline u32 imm_s(u32 w) { return sx(((w >> 25) << 5) | ((w >> 7) & 31), 12); }
static inline u32 imm_b(u32 w) { return sx(((w >> 31) << 12) | (((w >> 7) & 1) << 11) | (((w >> 25) & 63) << 5) | (((w >> 8) & 15) << 1), 13); }
static inline u32 imm_j(u32 w) { return sx(((w >> 31) << 20) | (((w >> 12) & 255) << 12) | (((w >> 20) & 1) << 11) | (((w >> 21) & 1023) << 1), 21); }

static inline u32 csr_get(const Iss &s, u32 a, bool irq) {
  switch (a) {
  case C_MSTATUS: return 0x1800 | (s.mpie << 7) | (s.mie << 3);
  case C_MIE: return s.meie << 11;
  case C_MIP: return (u32)irq << 11;
  case C_MTVEC: return s.mtvec; case C_MSCRATCH: return s.mscratch;
  case C_MEPC: return s.mepc; case C_MCAUSE: return s.mcause;
  }
  return 0;
}
static inline void csr_set(Iss &s, u32 a, u32 v) {
  switch (a) {
  case C_MSTATUS: s.mie = (v >> 3) & 1; s.mpie = (v >> 7) & 1; break;
  case C_MIE: s.meie = (v >> 11) & 1; break;
  case C_MTVEC: s.mtvec = v & ~3u; break;
  case C_MSCRATCH: s.mscratch = v; break;
  case C_MEPC: s.mepc = v & ~3u; break;
  case C_MCAUSE: s.mcause = v; break;
  }
}

static inline void take_trap(Iss &s, u32 pc, u32 cause) {
  s.mepc = pc; s.mcause = cause; s.mpie = s.mie; s.mie = false; s.pc = s.mtvec;
}
static inline bool irq_enabled(const Iss &s) { return s.mie && s.meie; }

// Plan instruction w against state s (irq only matters for reads of mip).
static inline Eff plan(const Iss &s, u32 w, bool irq) {
  Eff e; memset(&e, 0, sizeof e);
  Mn m = decode(w);
  e.mn = m; e.w = w; e.pc = s.pc; e.rd = -1; e.next = s.pc + 4;
  u32 rd = (w >> 7) & 31, r1 = (w >> 15) & 31, r2 = (w >> 20) & 31;
  u32 a = s.x[r1], b = s.x[r2], ii = imm_i(w);
  e.rs1v = a; e.rs2v = b;
  auto trap = [&](u32 c) { e.trap = true; e.cause = c; e.rd = -1; e.mem = false; e.next = s.mtvec; };
  auto wr = [&](u32 v) { e.rd = rd; e.rdval = v; };
  auto jump = [&](u32 t, bool link) { if (t & 2) trap(0); else { if (link) wr(s.pc + 4); e.next = t; } };
  switch (m) {
  case M_LUI: wr(w & 0xfffff000); break;
  case M_AUIPC: wr(s.pc + (w & 0xfffff000)); break;
  case M_JAL: jump(s.pc + imm_j(w), true); break;
  case M_JALR: jump((a + ii) & ~1u, true); break;
  case M_BEQ: if (a == b) jump(s.pc + imm_b(w), false); break;
  case M_BNE: if (a != b) jump(s.pc + imm_b(w), false); break;
  case M_BLT: if ((i32)a < (i32)b) jump(s.pc + imm_b(w), false); break;
  case M_BGE: if ((i32)a >= (i32)b) jump(s.pc + imm_b(w), false); break;
  case M_BLTU: if (a < b) jump(s.pc + imm_b(w), false); break;
  case M_BGEU: if (a >= b) jump(s.pc + imm_b(w), false); break;
  case M_LB: case M_LBU: e.mem = true; e.size = 1; e.addr = a + ii; e.rd = rd; break;
  case M_LH: case M_LHU: e.mem = true; e.size = 2; e.addr = a + ii; e.rd = rd; break;
  case M_LW: e.mem = true; e.size = 4; e.addr = a + ii; e.rd = rd; break;
  case M_SB: e.mem = e.we = true; e.size = 1; e.addr = a + imm_s(w); break;
  case M_SH: e.mem = e.we = true; e.size = 2; e.addr = a + imm_s(w); break;
  case M_SW: e.mem = e.we = true; e.size = 4; e.addr = a + imm_s(w); break;
  case M_ADDI: wr(a + ii); break;
  case M_SLTI: wr((i32)a < (i32)ii); break;
  case M_SLTIU: wr(a < ii); break;
  case M_XORI: wr(a ^ ii); break;
  case M_ORI: wr(a | ii); break;
  case M_ANDI: wr(a & ii); break;
  case M_SLLI: wr(a << r2); break;
  case M_SRLI: wr(a >> r2); break;
  case M_SRAI: wr((u32)((i32)a >> r2)); break;
  case M_ADD: wr(a + b); break;
  case M_SUB: wr(a - b); break;
  case M_SLL: wr(a << (b & 31)); break;
  case M_SLT: wr((i32)a < (i32)b); break;
  case M_SLTU: wr(a < b); break;
  case M_XOR: wr(a ^ b); break;
  case M_SRL: wr(a >> (b & 31)); break;
  case M_SRA: wr((u32)((i32)a >> (b & 31))); break;
  case M_OR: wr(a | b); break;
  case M_AND: wr(a & b); break;
  case M_FENCE: case M_WFI: break;
  case M_ECALL: trap(11); break;
  case M_EBREAK: trap(3); break;
  case M_MRET: e.next = s.mepc; break;
  case M_CSRRW: case M_CSRRS: case M_CSRRC: case M_CSRRWI: case M_CSRRSI: case M_CSRRCI: {
    u32 c = w >> 20; e.csr = c;
    u32 src = m >= M_CSRRWI ? r1 : a;
    bool isrw = m == M_CSRRW || m == M_CSRRWI;
    bool write = isrw || r1 != 0;
    int k = csr_kind(c);
    if (k == 0 || (k == 3 && write)) { trap(2); break; }
    u32 old = csr_get(s, c, irq);
    e.csr_ok = true; e.csr_old = old; e.csr_read = true;
    e.csr_write = write && k == 1;
    e.csr_new = isrw ? src : (m == M_CSRRS || m == M_CSRRSI) ? (old | src) : (old & ~src);
    wr(old);
    break; }
  default: trap(2);
  }
  if (e.mem) {
    u32 o = e.addr & 3;
    if (e.addr & (e.size - 1)) trap(e.we ? 6 : 4);
    else {
      e.sel = ((1u << e.size) - 1) << o;
      if (e.we) e.wdata = (e.size == 1 ? (b & 0xff) : e.size == 2 ? (b & 0xffff) : b) << (8 * o);
    }
  }
  return e;
}
static inline u32 load_value(const Eff &e, u32 dat_r) {
  u32 v = dat_r >> (8 * (e.addr & 3));
  switch (e.mn) {
  case M_LB: return sx(v & 0xff, 8); case M_LBU: return v & 0xff;
  case M_LH: return sx(v & 0xffff, 16); case M_LHU: return v & 0xffff;
  default: return dat_r;
  }
}
static inline void commit(Iss &s, const Eff &e, u32 dat_r) {
  if (e.trap) { take_trap(s, s.pc, e.cause); return; }
  if (e.csr_write) csr_set(s, e.csr, e.csr_new);
  if (e.mn == M_MRET) { s.mie = s.mpie; s.mpie = true; }
  if (e.rd > 0) s.x[e.rd] = (e.mem && !e.we) ? load_value(e, dat_r) : e.rdval;
  s.pc = e.next;
}
