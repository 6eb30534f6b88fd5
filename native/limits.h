// Documented cycle bounds (doc/development/internals.md, "Instruction Cycle
// Counts").  T = clock cycles from the acknowledge of the instruction's own
// fetch to the first cycle of the next fetch, not counting extra wait states
// of its own data transfer.  A documented throughput of N CPI (with the
// minimum two-cycle fetch) is T = N - 1.
static int insn_limit(const Eff &e, bool intr) {
  u32 op = e.w & 0x7f; bool csr = op == 0x73 && ((e.w >> 12) & 3);
  if (intr) return 6 + csr;                   // detected right after decode, 5 clocks to enter the handler
  if (e.trap) {
    if (e.cause == 2 || e.cause == 11 || e.cause == 3) return 6 + csr;
    return 6 + 5;                             // misaligned: within the 6-cycle minimum latency, then 5 clocks
  }
  u32 n = 0;
  switch (e.mn) {
  case M_SLLI: case M_SRLI: case M_SRAI: n = (e.w >> 20) & 31; return n ? 6 + 2 * n : 8;
  case M_SLL: case M_SRL: case M_SRA: n = e.rs2v & 31; return n ? 6 + 2 * n : 9;
  case M_AUIPC: return 6;                     // not listed; never slower than the next documented class
  case M_JAL: case M_JALR: return 6;
  case M_BEQ: case M_BNE: case M_BLT: case M_BGE: case M_BLTU: case M_BGEU:
    return e.next == e.pc + 4 && imm_b(e.w) != 4 ? 6 : 7;   // 7 CPI not taken, 8 CPI taken
  case M_LB: case M_LH: case M_LW: case M_LBU: case M_LHU: return 8;
  case M_SB: case M_SH: case M_SW: return 9;
  case M_MRET: return 7;
  case M_CSRRW: case M_CSRRS: case M_CSRRC: case M_CSRRWI: case M_CSRRSI: case M_CSRRCI:
    return csr_kind(e.csr) == 1 ? 9 : 5;      // at most csrrc's 10 CPI; read-only-zero registers 6 CPI
  default: return 3;
  }
}
