// C21: every core of a multi-core design against its own lone core, each with
// its own bus, interrupt line and reset.
#include "gen.h"
#include "multi.h"
int main(int argc, char **argv) {
  Opts o; if (int x = o.parse(argc, argv)) return x;
  dicts();
  double t0 = now(); u64 cycles = 0, resets = 0, acks = 0, irqs = 0, eps = 0, apart = 0; int viol = 0; bool to = false; std::set<u64> cov;
  for (long i = 0; i < o.episodes && !to; i++) {
    u64 idx = o.only_set ? o.only : i; Rng r(mix64(o.seed, idx));
    all_init();
    struct Src { int rp, iq, wp, hold, in, mode; u32 irq; bool was; Mood m; u64 n; } s[NC];
    bool same = r.p(10);   // all cores under identical inputs
    for (int k = 0; k < NC; k++) s[k] = {r.p(50) ? 0 : 30 + (int)r.n(2000), (int)r.n(100), (int)r.n(95), 0, 0, r.p(75) ? 0 : 1, 0, false, Mood(), 0}, s[k].m.init(r);
    int L = o.len / 4 + r.n(o.len); bool bad = false;
    for (int c = 0; c < L && !bad; c++) {
      u32 prst[NC], pirq[NC], pack[NC], pd[NC];
      for (int k = 0; k < NC; k++) {
        Src &q = s[k];
        u32 rst = q.rp && r.n(q.rp) == 0; if (q.hold) { q.hold--; rst = 1; } else if (rst && r.p(20)) q.hold = r.n(4);
        if (q.in-- <= 0) { q.in = r.n(40); q.iq = r.p(30) ? 0 : r.p(30) ? 100 : r.n(100); }
        prst[k] = rst; pirq[k] = r.p(q.iq); pack[k] = q.mode == 0 ? (q.was && !r.p(q.wp)) : r.p(50); pd[k] = seq_word(r, q.m, q.n);
        if (same && k) prst[k] = prst[0], pirq[k] = pirq[0], pack[k] = pack[0], pd[k] = pd[0];
        drive(k, prst[k], pirq[k], pack[k], pd[k]);
      }
      all_eval();
      u64 a0 = 0; bool diff = false;
      for (int k = 0; k < NC; k++) {
        Diff d = compare(k); cycles++; resets += prst[k]; irqs += pirq[k];
        if (d.what) {
          viol++; bad = true;
          printf("V {\"msg\":\"core differs from a lone one: core %d %s, cycle %d, %s in company=%llx alone=%llx\",\"episode\":%llu}\n", k, kindname[k], c, d.what, (unsigned long long)d.x, (unsigned long long)d.y, (unsigned long long)idx);
          break;
        }
        Bus b = bus(k); bool cyc = b.cyc && b.stb;
        if (k == 0) a0 = b.adr; else diff |= b.adr != a0;
        if (cyc && pack[k]) { acks++; s[k].n++; if (!b.we && b.sel == 15) { u32 w = pd[k]; cov.insert((w & 0x7f) | ((w >> 12) & 7) << 7 | (pirq[k] << 10) | ((w & 0x7f) == 0x73 ? (u64)(w >> 20) << 16 : 0) | (u64)kindname[k][0] << 40 | (u64)kindname[k][4] << 48); } }
        s[k].was = cyc && !pack[k] && !prst[k];
      }
      apart += diff;
      all_tick();
    }
    eps++;
    if (o.only_set || viol >= o.stop) break;
    if (now() - t0 > o.maxsec) { to = true; break; }
  }
  printf("S {\"compared\":%llu,\"episodes\":%llu,\"resets\":%llu,\"irq_cycles\":%llu,\"acks\":%llu,\"cycles_cores_at_different_addresses\":%llu,\"distinct\":%zu,\"violations\":%d,\"timeout\":%s}\n",
    (unsigned long long)cycles, (unsigned long long)eps, (unsigned long long)resets, (unsigned long long)irqs, (unsigned long long)acks, (unsigned long long)apart, cov.size(), viol, to ? "true" : "false");
  return viol ? 1 : 0;
}
