// C20: accessors of the instruction and CSR views against the RISC-V encodings.
#include "dut.h"
#include "structs.h"
#include "gen.h"
static int viol = 0; static u64 checks = 0;
#define CK(name, got, exp) do { checks++; u32 g_ = (u32)(got), e_ = (u32)(exp); if (g_ != e_ && viol++ < 10) printf("V {\"msg\":\"%s of %08x is %x, expected %x (x=%08x)\"}\n", name, w, g_, e_, x); } while (0)
static u32 bits(u32 w, int hi, int lo) { return w >> lo & (u32)((1ull << (hi - lo + 1)) - 1); }
static u32 sx(u32 v, int b) { return (u32)((int32_t)(v << (32 - b)) >> (32 - b)); }
int main(int argc, char **argv) {
  u64 seed = 0, from = 0, count = 1000000; bool sweep = true;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("seed=", 0) == 0) seed = strtoull(a.c_str() + 5, 0, 0), sweep = false; else if (a.rfind("from=", 0) == 0) from = strtoull(a.c_str() + 5, 0, 0); else if (a.rfind("count=", 0) == 0) count = strtoull(a.c_str() + 6, 0, 0); }
  Rng r(seed); dict_load(dut_dict, dut_ndict); static dut_t S; dut_init(&S); std::vector<u8> seen(1 << 17, 0); u64 distinct = 0;
  u32 prev = 0; bool have = false;
  for (u64 k = 0; k < count && viol < 10; k++) {
    u32 w, x = r.u();
    if (sweep) w = from + k;
    else switch (k < 4096 ? k % 4 : r.n(8)) {
      case 0: w = 1u << r.n(32); break; case 1: w = ~(1u << r.n(32)); break; case 2: w = 1u << r.n(32) | 1u << r.n(32); break;
      case 3: w = dict_val(r); break; case 4: case 5: w = gen_word(r); break; default: w = r.u(); }
    S.i_w = w; S.i_x = x;
#if defined(INSN)
#if LATENCY
    dut_eval(&S); dut_tick(&S); { u32 t = r.u(); S.i_w = t; }
#endif
    dut_eval(&S);
    CK("opcode", S.o_i_opcode, bits(w, 6, 2)); CK("rd", S.o_i_rd, bits(w, 11, 7)); CK("funct3", S.o_i_funct3, bits(w, 14, 12)); CK("rs1", S.o_i_rs1, bits(w, 19, 15));
    CK("rs2", S.o_i_rs2, bits(w, 24, 20)); CK("funct7", S.o_i_funct7, bits(w, 31, 25)); CK("funct12", S.o_i_funct12, bits(w, 31, 20)); CK("sign", S.o_i_sign, w >> 31); CK("raw", S.o_i_raw, w);
    CK("imm.sign", S.o_imm_sign, w >> 31); CK("imm.raw", S.o_imm_raw, w);
    CK("imm.I", S.o_imm_I, sx(bits(w, 31, 20), 12)); CK("imm.S", S.o_imm_S, sx(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12));
    CK("imm.B", S.o_imm_B, sx(bits(w, 31, 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1, 13)); CK("imm.U", S.o_imm_U, w & 0xfffff000);
    CK("imm.J", S.o_imm_J, sx(bits(w, 31, 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1, 21));
    CK("csr.addr", S.o_csr_addr, w >> 20); CK("csr.quadrant", S.o_csr_quadrant, bits(w, 29, 28)); CK("csr.access", S.o_csr_access, bits(w, 31, 30));
#else
    dut_eval(&S);
#define F(n, lsb, wd) { u32 m = (u32)((1ull << wd) - 1) << lsb; CK("read " #n, S.o_r_##n, (w & m) >> lsb); CK("write " #n, S.o_w_##n, (w & ~m) | (x & m)); }
    FIELDS
#undef F
#endif
    u32 c = (w >> 2 & 31) | (w >> 12 & 7) << 5 | (w >> 28) << 8 | (w >> 20 & 15) << 12; if (!seen[c]) seen[c] = 1, distinct++;
    (void)prev; (void)have;
  }
  printf("S {\"words\":%llu,\"checks\":%llu,\"distinct\":%llu,\"violations\":%d}\n", (unsigned long long)count, (unsigned long long)checks, (unsigned long long)distinct, viol);
  return viol ? 1 : 0;
}
