// C14: configurations that must be indistinguishable at the bus.  Instance A is
// the plain core; B and C carry the formal instrumentation.
#include "a.h"
#include "b.h"
#include "c.h"
#include "gen.h"
int main(int argc, char **argv) {
  Opts o; if (int x = o.parse(argc, argv)) return x;
  dict_load(pa_dict, pa_ndict); dict_load(pb_dict, pb_ndict); dict_load(pc_dict, pc_ndict);
  double t0 = now(); u64 cycles = 0, resets = 0, acks = 0, irqs = 0, wr = 0, eps = 0; int viol = 0; bool to = false; std::set<u64> cov, vec;
  for (long i = 0; i < o.episodes; i++) {
    u64 idx = o.only_set ? o.only : i; Rng r(mix64(o.seed, idx));
    // mode 0: documented handshake; 1: arbitrary acknowledge; 2: arbitrary everything, dense resets
    int mode = o.mode >= 0 ? o.mode : (r.p(60) ? 0 : 1 + r.n(2));
    static pa_t A; static pb_t B; static pc_t C; pa_init(&A); pb_init(&B); pc_init(&C);
    int rp = mode == 2 ? 3 + r.n(60) : r.p(50) ? 0 : 50 + r.n(3000), iq = r.n(100), wp = r.n(95), L = o.len / 4 + r.n(o.len), hold = 0, in = 0, stall = 0; bool was = false; Mood q; q.init(r); u64 k = 0;
    for (int c = 0; c < L; c++) {
      u32 rst = rp && r.n(rp) == 0; if (hold) { hold--; rst = 1; } else if (rst && r.p(20)) hold = r.n(4);
      if (hold == 0 && in-- <= 0) { in = r.n(40); iq = r.p(30) ? 0 : r.p(30) ? 100 : r.n(100); }
      u32 irq = r.p(iq), ack = mode == 0 ? (was && !stall && !r.p(wp)) : r.p(mode == 1 ? 60 : 50), d = seq_word(r, q, k);
      if (stall) stall--; else if (o.huge && r.n(3000) == 0) stall = huge_len(r); else if (r.n(100000) == 0) stall = dict_len(r, 5000);
#define IN(X) X.i_rst = rst; X.i_irq = irq; X.i_bus__ack = ack; X.i_bus__dat_r = d;
      IN(A) IN(B) IN(C)
      pa_eval(&A); pb_eval(&B); pc_eval(&C);
      const char *who = 0, *what = 0; u64 x = 0, y = 0;
#define CMP(f) if (A.o_bus__##f != B.o_bus__##f) who = "Top(formal=True)", what = #f, x = A.o_bus__##f, y = B.o_bus__##f; else if (A.o_bus__##f != C.o_bus__##f) who = "FormalTop", what = #f, x = A.o_bus__##f, y = C.o_bus__##f;
      CMP(dat_w) CMP(sel) CMP(adr) CMP(we) CMP(stb) CMP(cyc)
      cycles++; resets += rst; irqs += irq;
      if (who) { viol++; printf("V {\"msg\":\"%s differs from Top: cycle %d %s plain=%llx instrumented=%llx (mode %d)\",\"episode\":%llu}\n", who, c, what, (unsigned long long)x, (unsigned long long)y, mode, (unsigned long long)idx); break; }
      bool cyc = A.o_bus__cyc && A.o_bus__stb;
      if (cyc && ack) { acks++; k++; if (A.o_bus__we) wr++; else if (A.o_bus__sel == 15) cov.insert((d & 0x7f) | ((d >> 12) & 7) << 7 | (irq << 10) | (mode << 11) | ((d & 0x7f) == 0x73 ? (u64)(d >> 20) << 16 : 0)); }
      was = cyc && !ack && !rst;
      pa_tick(&A); pb_tick(&B); pc_tick(&C);
      if (cov.size() < 2000000 && vec.size() < 1000000) vec.insert(mix64((u64)A.o_bus__adr << 20 | A.o_bus__sel << 4 | A.o_bus__we << 2 | A.o_bus__cyc, A.o_bus__dat_w));
    }
    eps++;
    if (o.only_set || viol >= o.stop) break;
    if (now() - t0 > o.maxsec) { to = true; break; }
  }
  printf("S {\"cycles\":%llu,\"episodes\":%llu,\"resets\":%llu,\"irq_cycles\":%llu,\"acks\":%llu,\"writes\":%llu,\"distinct\":%zu,\"vectors\":%zu,\"violations\":%d,\"timeout\":%s}\n",
    (unsigned long long)cycles, (unsigned long long)eps, (unsigned long long)resets, (unsigned long long)irqs, (unsigned long long)acks, (unsigned long long)wr, cov.size(), vec.size(), viol, to ? "true" : "false");
  return viol ? 1 : 0;
}
