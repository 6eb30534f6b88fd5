// C10: the same read data under different bus timing and noise must give the
// same sequence of transfers.  No reference model is involved.
#include "dut.h"
#include "gen.h"
struct Tx { u32 adr, data; u8 we, sel; };
struct Prof { int kind; bool noise, irqnoise; };
// Episode environment, shared by all instances: data of the k-th transfer.
struct Env {
  u64 id; Mood q; int mode;   // mode 0: irq low, 1: irq high, 2: irq toggles at completed writes, 3: masked by mstatus + irq noise, 4: masked by mie + irq noise, 5: mode 2 with long programs
  u32 data(u64 k) const {
    Rng r(mix64(id, k)); u32 w;
    for (int again = 0;; again++) {
      w = again ? gen_word(r) : seq_word(r, q, k);
      if (mode == 3 || mode == 4) {
        if ((w & 0x7f) == 0x73) {
          u32 c = w >> 20, f = (w >> 12) & 7;
          if (f & 3) { if (c == 0x344) continue; if (mode == 3 && c == 0x300) continue; if (mode == 4 && c == 0x304) continue; }
          if (mode == 3 && w == 0x30200073) continue;
        }
      }
      return w;
    }
  }
  bool irq(u64 writes) const { return mode == 1 ? true : mode == 2 ? (mix64(id, 7777 + writes) & 3) != 0 : false; }
};
static u64 hist[64], cycles, noisebits;
struct Inst {
  dut_t S; Prof pf; Rng r; u64 k = 0, writes = 0; std::vector<Tx> log; int phase = 0, waitn = 0; u64 quiet = 0; bool dead = false; int burst = 0, bp = 0;
  void init(const Env &e, Prof p, u64 sd) { dut_init(&S); pf = p; r = Rng(sd); dut_eval(&S); }
  int pick() {
    switch (pf.kind) {
      case 0: return 1;
      case 1: return 1 + r.n(3);
      case 2: return 1 + r.n(12);
      case 3: return r.p(85) ? 1 : 1 + r.n(40);
      case 4: return r.p(2) ? 200 + r.n(120) : 1 + r.n(2);
      case 5: return 2;
      case 8: return r.n(150) == 0 ? huge_len(r) : 1 + r.n(3);
      case 7: return r.n(2000) == 0 ? dict_len(r, 80000) : 1 + r.n(2);
      default: if (burst-- <= 0) { burst = r.n(20); bp = 1 + r.n(6); } return bp;
    }
  }
  void step(const Env &e) {
    // inputs of this cycle
    u32 d = pf.noise ? (r.p(50) ? r.u() : gen_word(r)) : 0; bool ack = false;
    S.i_rst = 0;
    S.i_irq = (pf.irqnoise && (e.mode == 3 || e.mode == 4)) ? r.p(50) : e.irq(writes);
    S.i_bus__ack = 0; S.i_bus__dat_r = d;
    dut_eval(&S);
    if (S.o_bus__cyc && S.o_bus__stb) {
      if (phase == 0) { phase = 1; waitn = pick(); if (waitn < 63) hist[waitn]++; else hist[63]++; }
      else { waitn--; if (waitn == 0) ack = true; }
      quiet = 0;
    } else { phase = 0; if (++quiet > 3000) dead = true; }
    if (ack) {
      Tx t; t.we = S.o_bus__we; t.sel = S.o_bus__sel; t.adr = S.o_bus__adr; t.data = t.we ? S.o_bus__dat_w & lanes(t.sel) : 0;
      if (!t.we) { u32 w = e.data(k), m = lanes(t.sel); d = pf.noise ? (w & m) | (d & ~m) : w; }
      log.push_back(t); k++; phase = 0;
      S.i_bus__ack = 1; S.i_bus__dat_r = d;
      dut_eval(&S);
      dut_tick(&S);
      if (t.we) writes++;
    } else dut_tick(&S);
    cycles++;
  }
};
int main(int argc, char **argv) {
  Opts o; if (int x = o.parse(argc, argv)) return x;
  dict_load(dut_dict, dut_ndict);
  double t0 = now(); u64 txs = 0, ntot = 0, eps = 0; int viol = 0; bool to = false; std::set<u64> cov; u64 ops[8] = {0};
  u64 noisetoggles = 0, stores = 0, byteacc = 0, hung = 0;
  for (long i = 0; i < o.episodes; i++) {
    u64 idx = o.only_set ? o.only : i; u64 id = mix64(o.seed, idx); Rng r(id ^ 0x55);
    Env e; e.id = id; e.mode = o.mode >= 0 ? o.mode : r.n(5); e.q.init(r); if (e.mode >= 3) e.q.on = 0;
    const int NI = 4; static Inst *I[4]; Prof P[NI] = {{0, false, false}, {(int)(1 + r.n(6)), true, true}, {(int)(1 + r.n(7)), r.p(50), true}, {0, true, true}}; if (o.huge) P[1].kind = 8;
    for (int j = 0; j < NI; j++) { I[j] = new Inst(); I[j]->init(e, P[j], mix64(id, 99 + j)); I[j]->log.reserve(o.len); }
    int L = o.len / 8 + r.n(o.len);
    for (int j = 0; j < NI; j++) while ((int)I[j]->log.size() < L && !I[j]->dead) I[j]->step(e);
    auto &A = I[0]->log;
    for (int j = 1; j < NI; j++) {
      auto &B = I[j]->log; size_t n = A.size() < B.size() ? A.size() : B.size(), q = 0;
      while (q < n && A[q].adr == B[q].adr && A[q].we == B[q].we && A[q].sel == B[q].sel && A[q].data == B[q].data) q++;
      if (q < n || A.size() != B.size()) {
        viol++; size_t f = q; std::string prev;
        for (int z = (int)q - 4; z < (int)q; z++) if (z >= 0) { char b[64]; snprintf(b, 64, "%s%c@%x:%08x", prev.empty() ? "" : " ", A[z].we ? 'w' : 'r', A[z].adr * 4, A[z].we ? A[z].data : e.data(z)); prev += b; }
        char a1[96] = "nothing for 3000 cycles", b1[96] = "nothing for 3000 cycles";
        if (f < A.size()) snprintf(a1, 96, "%s adr=%08x sel=%x data=%08x", A[f].we ? "write" : "read", A[f].adr * 4, A[f].sel, A[f].data);
        if (f < B.size()) snprintf(b1, 96, "%s adr=%08x sel=%x data=%08x", B[f].we ? "write" : "read", B[f].adr * 4, B[f].sel, B[f].data);
        printf("V {\"msg\":\"timing-dependent transfer: transfer %zu is '%s' with one-wait quiet bus, '%s' with wait profile %d noise %d (mode %d); before: %s\",\"episode\":%llu}\n", q, a1, b1, P[j].kind, P[j].noise, e.mode, prev.c_str(), (unsigned long long)idx);
        break;
      }
      txs += n;
    }
    if (I[0]->dead) hung++;
    for (size_t q = 0; q < A.size(); q++) {
      if (A[q].we) { stores++; } else { u32 w = e.data(q); if (A[q].sel == 15) cov.insert(((u64)(w & 0x7f) | (u64)((w >> 12) & 7) << 7 | (u64)e.mode << 10 | (u64)P[1].kind << 13) | ((w & 0x7f) == 0x73 ? (u64)(w >> 20) << 20 : 0)); }
      if (A[q].sel != 15) byteacc++;
    }
    ntot += A.size(); eps++;
    for (int j = 0; j < NI; j++) delete I[j];
    if (o.only_set || viol >= o.stop) break;
    if (now() - t0 > o.maxsec) { to = true; break; }
  }
  printf("S {\"compared\":%llu,\"transfers\":%llu,\"episodes\":%llu,\"cycles\":%llu,\"stores\":%llu,\"narrow\":%llu,\"distinct\":%zu,\"quiesced\":%llu,\"violations\":%d,\"timeout\":%s,\"w1\":%llu,\"w2_5\":%llu,\"w6plus\":%llu,\"w63plus\":%llu}\n",
    (unsigned long long)txs, (unsigned long long)ntot, (unsigned long long)eps, (unsigned long long)cycles, (unsigned long long)stores, (unsigned long long)byteacc, cov.size(), (unsigned long long)hung, viol, to ? "true" : "false",
    (unsigned long long)hist[1], (unsigned long long)(hist[2] + hist[3] + hist[4] + hist[5]), (unsigned long long)[&] { u64 s = 0; for (int i = 6; i < 64; i++) s += hist[i]; return s; }(), (unsigned long long)hist[63]);
  return viol ? 1 : 0;
}
