// C15: gated instances against a plain one.  A steps only on enabled cycles;
// B = EnableInserter(Top), C = EnableInserter(ResetInserter(Top)),
// D = ResetInserter(EnableInserter(Top)).
#include "a.h"
#include "b.h"
#include "c.h"
#include "d.h"
#include "gen.h"
int main(int argc, char **argv) {
  Opts o; if (int x = o.parse(argc, argv)) return x;
  dict_load(pa_dict, pa_ndict); dict_load(pb_dict, pb_ndict); dict_load(pc_dict, pc_ndict); dict_load(pd_dict, pd_ndict);
  double t0 = now(); u64 cycles = 0, encyc = 0, resets = 0, acks = 0, wr = 0, eps = 0, toggles = 0; int viol = 0; bool to = false; std::set<u64> cov;
  for (long i = 0; i < o.episodes; i++) {
    u64 idx = o.only_set ? o.only : i; Rng r(mix64(o.seed, idx));
    static pa_t A; static pb_t B; static pc_t C; static pd_t D; pa_init(&A); pb_init(&B); pc_init(&C); pd_init(&D);
    int kind = r.n(6), ep = 5 + r.n(90), run = 0, len = o.len / 4 + r.n(o.len), iq = r.n(100), wp = r.n(90), rp = r.p(40) ? 0 : 30 + r.n(2000), period = 2 + r.n(7); bool en = true, was = false; u64 ph = 0;
    bool coldoff = r.p(30); int off = 0, stall = 0; Mood q; q.init(r); u64 k = 0;
    for (int c = 0; c < len; c++) {
      bool prev = en;
      switch (kind) {
        case 0: en = r.p(ep); break;
        case 1: if (run-- <= 0) { en = !en; run = r.n(en ? 30 : 12); } break;
        case 2: en = c % period == 0; break;
        case 3: en = c % period != 0; break;
        case 4: if (run-- <= 0) { en = !en; run = en ? r.n(200) : 0; } break;   // single-cycle gaps anywhere
        default: if (run-- <= 0) { en = !en; run = en ? r.n(3) : r.n(400); } break;
      }
      if (coldoff && c < 5) en = false;
      if (off) off--, en = false; else if (r.n(100000) == 0) off = dict_len(r, 5000);
      if (stall && en) stall--; else if (!stall && o.huge && r.n(3000) == 0) stall = huge_len(r); else if (r.n(100000) == 0) stall = dict_len(r, 5000);
      toggles += prev != en;
      u32 irq = r.p(iq), ack, d = seq_word(r, q, k), rst = 0;
      if (en) { ack = was && !stall && !r.p(wp); rst = rp && r.n(rp) == 0; } else { ack = r.p(50); }
      u32 noise = en ? rst : r.p(30);
      A.i_rst = rst; A.i_irq = irq; A.i_bus__ack = ack; A.i_bus__dat_r = d;
      B.i_irq = irq; B.i_bus__ack = ack; B.i_bus__dat_r = d; B.i_en = en; B.i_rst = en ? rst : 0;
      C.i_irq = irq; C.i_bus__ack = ack; C.i_bus__dat_r = d; C.i_en = en; C.i_srst = noise; C.i_rst = 0;
      D.i_irq = irq; D.i_bus__ack = ack; D.i_bus__dat_r = d; D.i_en = en; D.i_srst = rst; D.i_rst = 0;
      pb_eval(&B); pc_eval(&C); pd_eval(&D); cycles++;
      if (en) {
        pa_eval(&A); encyc++; resets += rst;
        const char *who = 0, *what = 0; u64 x = 0, y = 0;
#define CMP1(Z, n, f) else if (A.o_bus__##f != Z.o_bus__##f) who = n, what = #f, x = A.o_bus__##f, y = Z.o_bus__##f;
#define CMP(f) if (who) ; CMP1(B, "EnableInserter", f) CMP1(C, "EnableInserter(ResetInserter)", f) CMP1(D, "ResetInserter(EnableInserter)", f)
        CMP(cyc) CMP(stb) CMP(we) CMP(adr) CMP(sel) CMP(dat_w)
        if (who) { viol++; printf("V {\"msg\":\"%s differs from the ungated core: enabled cycle %llu (cycle %d, enable pattern %d) %s ungated=%llx gated=%llx\",\"episode\":%llu}\n", who, (unsigned long long)ph, c, kind, what, (unsigned long long)x, (unsigned long long)y, (unsigned long long)idx); break; }
        bool cyc = A.o_bus__cyc && A.o_bus__stb;
        if (cyc && ack) { acks++; k++; if (A.o_bus__we) wr++; else if (A.o_bus__sel == 15) cov.insert((d & 0x7f) | ((d >> 12) & 7) << 7 | (irq << 10) | (kind << 11) | ((d & 0x7f) == 0x73 ? (u64)(d >> 20) << 16 : 0)); }
        was = cyc && !ack && !rst; ph++;
        pa_tick(&A);
      }
      pb_tick(&B); pc_tick(&C); pd_tick(&D);
    }
    eps++;
    if (o.only_set || viol >= o.stop) break;
    if (now() - t0 > o.maxsec) { to = true; break; }
  }
  printf("S {\"cycles\":%llu,\"enabled\":%llu,\"toggles\":%llu,\"episodes\":%llu,\"resets\":%llu,\"acks\":%llu,\"writes\":%llu,\"distinct\":%zu,\"violations\":%d,\"timeout\":%s}\n",
    (unsigned long long)cycles, (unsigned long long)encyc, (unsigned long long)toggles, (unsigned long long)eps, (unsigned long long)resets, (unsigned long long)acks, (unsigned long long)wr, cov.size(), viol, to ? "true" : "false");
  return viol ? 1 : 0;
}
