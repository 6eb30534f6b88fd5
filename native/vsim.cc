// C17: the generated Verilog (through Yosys/CXXRTL) against the netlist
// compiled from the Amaranth design, cycle by cycle, all outputs.
// ports.h (generated) defines DUT class, SET_INPUTS, and CMP_OUTPUTS.
#include "dut.h"
#include <cxxrtl/cxxrtl.h>
#include DESIGN
#include "gen.h"
template <size_t N> static u64 val(const cxxrtl::value<N> &v) { u64 r = 0; for (size_t i = 0; i < v.chunks && i < 2; i++) r |= (u64)v.data[i] << (32 * i); return r; }
template <size_t N> static u64 val(const cxxrtl::wire<N> &v) { return val(v.curr); }
template <size_t N> static void put(cxxrtl::value<N> &v, u64 x) { for (size_t i = 0; i < v.chunks; i++) v.data[i] = (u32)(x >> (32 * i)); }
template <size_t N> static void put(cxxrtl::wire<N> &v, u64 x) { put(v.next, x); }
#include "ports.h"
int main(int argc, char **argv) {
  Opts o; if (int x = o.parse(argc, argv)) return x;
  dict_load(dut_dict, dut_ndict);
  double t0 = now(); u64 cycles = 0, resets = 0, acks = 0, wr = 0, eps = 0, irqs = 0; int viol = 0; bool to = false; std::set<u64> cov, vec;
  for (long i = 0; i < o.episodes; i++) {
    u64 idx = o.only_set ? o.only : i; Rng r(mix64(o.seed, idx));
    static dut_t S; dut_init(&S); V *T = new V();
    int iq = r.n(100), wp = r.n(90), rp = r.p(40) ? 0 : 30 + r.n(3000), L = o.len / 4 + r.n(o.len), hold = 0; bool was = false; Mood q; q.init(r); u64 k = 0;
    for (int c = 0; c < L; c++) {
      u32 rst = rp && r.n(rp) == 0; if (hold) { hold--; rst = 1; } else if (rst && r.p(20)) hold = r.n(4);
      if (r.n(50) == 0) iq = r.p(30) ? 0 : r.p(30) ? 100 : r.n(100);
      u32 irq = r.p(iq), ack = was && !r.p(wp), d = seq_word(r, q, k);
      S.i_rst = rst; S.i_irq = irq; S.i_bus__ack = ack; S.i_bus__dat_r = d;
      dut_eval(&S);
      put(T->p_clk, 0); put(T->p_rst, rst); put(T->p_irq, irq); put(T->p_bus____ack, ack); put(T->p_bus____dat__r, d);
      T->step();
      const char *what = 0; u64 x = 0, y = 0;
#define CMP(c, n) if (!what && (u64)S.o_##c != val(T->n)) what = #c, x = (u64)S.o_##c, y = val(T->n);
      CMP_OUTPUTS
      cycles++; resets += rst; irqs += irq;
      if (what) { viol++; printf("V {\"msg\":\"generated Verilog differs: output %s at cycle %d is %llx, the Amaranth core has %llx\",\"episode\":%llu}\n", what, c, (unsigned long long)y, (unsigned long long)x, (unsigned long long)idx); break; }
      bool cyc = S.o_bus__cyc && S.o_bus__stb;
      if (cyc && ack) { acks++; k++; if (S.o_bus__we) wr++; else if (S.o_bus__sel == 15) cov.insert((d & 0x7f) | ((d >> 12) & 7) << 7 | (irq << 10) | ((d & 0x7f) == 0x73 ? (u64)(d >> 20) << 16 : 0)); }
      was = cyc && !ack && !rst;
      dut_tick(&S);
      put(T->p_clk, 1); T->step();
    }
    delete T; eps++;
    if (o.only_set || viol >= o.stop) break;
    if (now() - t0 > o.maxsec) { to = true; break; }
  }
  printf("S {\"cycles\":%llu,\"episodes\":%llu,\"resets\":%llu,\"irq_cycles\":%llu,\"acks\":%llu,\"writes\":%llu,\"distinct\":%zu,\"violations\":%d,\"timeout\":%s}\n",
    (unsigned long long)cycles, (unsigned long long)eps, (unsigned long long)resets, (unsigned long long)irqs, (unsigned long long)acks, (unsigned long long)wr, cov.size(), viol, to ? "true" : "false");
  return viol ? 1 : 0;
}
