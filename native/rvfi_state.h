// RVFI monitor: included inside struct Episode when HAVE_RVFI is defined.
struct RE { u32 w, pc, next; bool trap, intr, mem, we; u32 addr; u8 sel; u32 wdata, rdata; int rd; u32 rdval; bool skip_rd;
  u32 rs1v, rs2v; bool skip1, skip2; u32 csr; bool csr_ok, csr_wr, skip_csr; u32 csr_old, csr_new; u32 csrs[8]; bool skip_c[8]; u64 start; };
std::deque<RE> rq; u64 r_order = 0; bool r_prev_trap = false; bool r_first = true;
int r_resets = 0; bool r_irq = false; u64 r_irq_since = 0;
u32 r_lastw[6]; u8 r_wr = 0; bool r_havew = false;   // channel wdata of the previous report; channels written since reset
void rvfi_reset() { r_resets++; rq.clear(); r_order = 0; r_prev_trap = false; r_first = true; r_irq_since = cyc + 1; r_wr = 0; r_havew = false; }
void rvfi_push(bool intr) {
  if (rq.size()) { viol(P_RVFI, "instruction %08x at %08x was never reported on RVFI", rq.front().w, rq.front().pc); return; }
  RE r; memset(&r, 0, sizeof r);
  u32 r1 = (e.w >> 15) & 31, r2 = (e.w >> 20) & 31;
  r.start = ack_cyc; r.w = e.w; r.pc = iss.pc; r.trap = e.trap || intr; r.rs1v = iss.x[r1]; r.rs2v = iss.x[r2]; r.skip1 = altk[r1]; r.skip2 = altk[r2];
  r.intr = r_prev_trap; r_prev_trap = r.trap;
  r.next = intr ? iss.mtvec : e.next;
  if (!r.trap) {
    r.mem = e.mem; r.we = e.we; r.addr = e.addr & ~3u; r.sel = e.sel; r.wdata = e.wdata; r.rdata = load_dat;
    r.rd = e.rd > 0 ? e.rd : 0; r.rdval = e.rd > 0 ? (e.mem ? load_value(e, load_dat) : e.rdval) : 0;
    if (e.mem && e.we && altk[r2]) r.skip_rd = true;
    if (e.csr_read && ((e.csr == C_MIP && mixed()) || (e.csr == C_MCAUSE && mcause_alt) || (e.csr == C_MSTATUS && mpie_unk))) r.skip_rd = true;
    r.csr = e.csr; r.csr_ok = e.csr_ok; r.csr_wr = false; r.csr_old = e.csr_old; r.csr_new = e.csr_new; r.skip_csr = r.skip_rd || r.skip1;
    // a write as RVFI counts it: also to read-only-zero registers
    if (e.csr_ok) { bool isrw = e.mn == M_CSRRW || e.mn == M_CSRRWI; r.csr_wr = isrw || r1 != 0; }
  }
  r.csrs[0] = iss.mscratch; r.csrs[1] = iss.mtvec; r.csrs[2] = iss.mepc; r.csrs[3] = iss.mcause; r.csrs[4] = csr_get(iss, C_MIE, false); r.csrs[5] = csr_get(iss, C_MSTATUS, false);
  // the trap/return state of the status register is reported as of the end of the instruction
  r.skip_c[5] = r.trap || e.mn == M_MRET || mpie_unk; r.skip_c[3] = mcause_alt;
  // registers and memory-backed CSRs survive a mid-run reset; the model knows them again once software has initialised them
  if (r_resets > 1 && cyc > 4 && since_reset < 90) { r.skip1 = r.skip2 = r.skip_csr = true; for (int i = 0; i < 6; i++) r.skip_c[i] = true; }
  rq.push_back(r);
}
void rvfi_cycle() {
  if ((bool)S.i_irq != r_irq) { r_irq = S.i_irq; r_irq_since = cyc; }
  if (!S.o_rvfi__valid) return;
  if (rq.empty()) { viol(P_RVFI, "RVFI reports insn %08x pc %08x although no instruction completed", S.o_rvfi__insn, S.o_rvfi__pc_rdata); return; }
  RE r = rq.front(); rq.pop_front(); rvfi_count++;
  u32 r1 = (r.w >> 15) & 31, r2 = (r.w >> 20) & 31;
#define RCHK(c, name, got, exp) do { if (!dead && !(c)) viol(P_RVFI, "RVFI " name " is %08x, expected %08x (insn %08x, pc %08x)", (u32)(got), (u32)(exp), r.w, r.pc); } while (0)
  RCHK(S.o_rvfi__order == r_order, "order", S.o_rvfi__order, r_order); r_order++;
  RCHK(S.o_rvfi__insn == r.w, "insn", S.o_rvfi__insn, r.w);
  RCHK(S.o_rvfi__pc_rdata == r.pc, "pc_rdata", S.o_rvfi__pc_rdata, r.pc);
  RCHK(S.o_rvfi__pc_wdata == r.next, "pc_wdata", S.o_rvfi__pc_wdata, r.next);
  RCHK(S.o_rvfi__trap == r.trap, "trap", S.o_rvfi__trap, r.trap);
  RCHK(S.o_rvfi__intr == r.intr, "intr", S.o_rvfi__intr, r.intr);
  RCHK(S.o_rvfi__halt == 0, "halt", S.o_rvfi__halt, 0);
  RCHK(S.o_rvfi__mode == 3, "mode", S.o_rvfi__mode, 3);
  RCHK(S.o_rvfi__ixl == 1, "ixl", S.o_rvfi__ixl, 1);
  u32 a1 = S.o_rvfi__rs1_addr, a2 = S.o_rvfi__rs2_addr;
  RCHK(a1 == r1, "rs1_addr", a1, r1);
  RCHK(a2 == r2, "rs2_addr", a2, r2);
  if (!r.skip1) RCHK(S.o_rvfi__rs1_rdata == r.rs1v, "rs1_rdata", S.o_rvfi__rs1_rdata, r.rs1v);
  if (!r.skip2) RCHK(S.o_rvfi__rs2_rdata == r.rs2v, "rs2_rdata", S.o_rvfi__rs2_rdata, r.rs2v);
  if (S.o_rvfi__rd_addr == 0) RCHK(S.o_rvfi__rd_wdata == 0, "rd_wdata for x0", S.o_rvfi__rd_wdata, 0);
  if (!r.trap) {
    RCHK((int)S.o_rvfi__rd_addr == r.rd, "rd_addr", S.o_rvfi__rd_addr, r.rd);
    if (!r.skip_rd) RCHK(S.o_rvfi__rd_wdata == r.rdval, "rd_wdata", S.o_rvfi__rd_wdata, r.rdval);
  } else
    RCHK(S.o_rvfi__rd_addr == 0, "rd_addr of a trapping instruction", S.o_rvfi__rd_addr, 0);
  u32 lanes = 0; for (int i = 0; i < 4; i++) if (r.sel >> i & 1) lanes |= 0xffu << (8 * i);
  u32 xr = r.mem && !r.we ? r.sel : 0, xw = r.mem && r.we ? r.sel : 0;
  RCHK(S.o_rvfi__mem_rmask == xr, "mem_rmask", S.o_rvfi__mem_rmask, xr);
  RCHK(S.o_rvfi__mem_wmask == xw, "mem_wmask", S.o_rvfi__mem_wmask, xw);
  if (r.mem) {
    RCHK(S.o_rvfi__mem_addr == r.addr, "mem_addr", S.o_rvfi__mem_addr, r.addr);
    if (!r.we) RCHK(((S.o_rvfi__mem_rdata ^ r.rdata) & lanes) == 0, "mem_rdata", S.o_rvfi__mem_rdata, r.rdata);
    else if (!r.skip_rd) RCHK(((S.o_rvfi__mem_wdata ^ r.wdata) & lanes) == 0, "mem_wdata", S.o_rvfi__mem_wdata, r.wdata);
  }
  if (!r.skip_c[0]) RCHK(S.o_rvfi__csr__mscratch__rdata == r.csrs[0], "mscratch before the instruction", S.o_rvfi__csr__mscratch__rdata, r.csrs[0]);
  if (!r.skip_c[1]) RCHK(S.o_rvfi__csr__mtvec__rdata == r.csrs[1], "mtvec before the instruction", S.o_rvfi__csr__mtvec__rdata, r.csrs[1]);
  if (!r.skip_c[2]) RCHK(S.o_rvfi__csr__mepc__rdata == r.csrs[2], "mepc before the instruction", S.o_rvfi__csr__mepc__rdata, r.csrs[2]);
  if (!r.skip_c[3]) RCHK(S.o_rvfi__csr__mcause__rdata == r.csrs[3], "mcause before the instruction", S.o_rvfi__csr__mcause__rdata, r.csrs[3]);
  if (!r.skip_c[4]) RCHK(S.o_rvfi__csr__mie__rdata == r.csrs[4], "mie before the instruction", S.o_rvfi__csr__mie__rdata, r.csrs[4]);
  if (!r.skip_c[5]) RCHK(S.o_rvfi__csr__mstatus__rdata == r.csrs[5], "mstatus before the instruction", S.o_rvfi__csr__mstatus__rdata, r.csrs[5]);
  // mip: nothing but MEIP; MEIP shows a line that has been steady since well before the instruction began
  RCHK((S.o_rvfi__csr__mip__rdata & ~0x800u) == 0, "mip before the instruction", S.o_rvfi__csr__mip__rdata, S.o_rvfi__csr__mip__rdata & 0x800u);
  if (r_irq_since + 8 < r.start) { rvfi_mip++; RCHK(S.o_rvfi__csr__mip__rdata == (r_irq ? 0x800u : 0u), "mip (steady interrupt line)", S.o_rvfi__csr__mip__rdata, r_irq ? 0x800u : 0u); }
  { // what a report says is in a CSR after the instruction is what the next instruction finds there
    static const u32 impl[] = {~0u, ~3u, ~3u, ~0u, 0x800, 0x88};   // wdata is the value written, before fixed bits are applied
    for (int i = 0; i < 5 && r_havew; i++) if (r_wr >> i & 1 && !(i == 3 && mcause_alt) && !(i == 5 && mpie_unk) && !r.skip_c[i] && ((r_lastw[i] ^ r.csrs[i]) & impl[i]))
      if (!dead) viol(P_RVFI, "RVFI channel %x (mscratch, mtvec, mepc, mcause, mie, mstatus): wdata of the previous report is %08x, but the next instruction finds %08x (next insn %08x)", i, r_lastw[i], r.csrs[i], r.w);
    r_lastw[0] = S.o_rvfi__csr__mscratch__wdata; r_lastw[1] = S.o_rvfi__csr__mtvec__wdata; r_lastw[2] = S.o_rvfi__csr__mepc__wdata;
    r_lastw[3] = S.o_rvfi__csr__mcause__wdata; r_lastw[4] = S.o_rvfi__csr__mie__wdata; r_lastw[5] = S.o_rvfi__csr__mstatus__wdata; r_havew = true;
    if (r.csr_ok && r.csr_wr) { static const u32 cn[] = {C_MSCRATCH, C_MTVEC, C_MEPC, C_MCAUSE, C_MIE, C_MSTATUS}; for (int i = 0; i < 6; i++) if (r.csr == cn[i]) r_wr |= 1 << i; }
  }
#define ZCH(name) RCHK(S.o_rvfi__csr__##name##__rdata == 0, "read-only zero " #name " before the instruction", S.o_rvfi__csr__##name##__rdata, 0);
  ZCH(misa) ZCH(mvendorid) ZCH(marchid) ZCH(mimpid) ZCH(mhartid) ZCH(mconfigptr) ZCH(mstatush) ZCH(mcountinhibit) ZCH(mtval) ZCH(mcycle) ZCH(minstret) ZCH(mhpmcounter3) ZCH(mhpmevent3)
  if (r.csr_ok) {
    u64 rd = 0, wd = 0, rm = 0, wm = 0; bool have_ch = true; int sh = 0;
    switch (r.csr) {
#define CH(n, name) case n: rd = S.o_rvfi__csr__##name##__rdata; wd = S.o_rvfi__csr__##name##__wdata; rm = S.o_rvfi__csr__##name##__rmask; wm = S.o_rvfi__csr__##name##__wmask; break;
#define CHH(n, name) case n: sh = 32; rd = S.o_rvfi__csr__##name##__rdata; wd = S.o_rvfi__csr__##name##__wdata; rm = S.o_rvfi__csr__##name##__rmask; wm = S.o_rvfi__csr__##name##__wmask; break;
    CH(C_MSCRATCH, mscratch) CH(C_MCAUSE, mcause) CH(C_MIP, mip) CH(C_MIE, mie) CH(C_MSTATUS, mstatus) CH(C_MTVEC, mtvec) CH(C_MEPC, mepc)
    CH(0x301, misa) CH(0xF11, mvendorid) CH(0xF12, marchid) CH(0xF13, mimpid) CH(0xF14, mhartid) CH(0xF15, mconfigptr) CH(0x310, mstatush)
    CH(0x320, mcountinhibit) CH(0x343, mtval) CH(0xB00, mcycle) CH(0xB02, minstret) CH(0xB03, mhpmcounter3) CHH(0xB80, mcycle) CHH(0xB82, minstret)
    CHH(0xB83, mhpmcounter3) CH(0x323, mhpmevent3)
    default: have_ch = false;
    }
    if (have_ch && !r.skip_csr) {
      rvfi_csr++;
      if (r.csr == 0xB00 || r.csr == 0xB02 || r.csr == 0xB03) RCHK((u32)(wm >> 32) == 0, "csr wmask of the half that is not addressed", wm >> 32, 0);
      if (sh) RCHK((u32)wm == 0, "csr wmask of the half that is not addressed", wm, 0);
      rd >>= sh; wd >>= sh; rm >>= sh; wm >>= sh;
      // mip.MEIP follows an asynchronous line (see tests/formal/checks.cfg): that bit is not compared
      u32 xm = r.csr == C_MIP ? 0x800 : 0;
      RCHK((u32)rm == ~0u, "csr rmask", rm, ~0u);
      RCHK((u32)wm == ~0u, "csr wmask", wm, ~0u);
      RCHK((((u32)rd ^ r.csr_old) & ~xm) == 0, "csr rdata", rd, r.csr_old);
      if (r.csr_wr) RCHK((((u32)wd ^ r.csr_new) & ~xm) == 0, "csr wdata", wd, r.csr_new);
    }
  }
}
