// C22: the example SoC's memory, GPIO, timer and UART driven on their own, and
// the whole SoC through its pins.  dut.h: the component; par.h: its parameters.
#include "par.h"
#include "dut.h"
#include "gen.h"
static Rng R(1); static Opts O; static u64 ev = 0, seqs = 0; static int viol = 0; static std::set<u64> cov; static bool to = false; static double T0;
static u64 lost = 0, n1 = 0, n2 = 0, n3 = 0, n4 = 0; static const char *l1 = "x1", *l2 = "x2", *l3 = "x3", *l4 = "x4";
static void V(const char *fmt, u64 a = 0, u64 b = 0, u64 c = 0, u64 d = 0) {
  char m[300]; snprintf(m, sizeof m, fmt, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
  printf("V {\"msg\":\"%s: %s\",\"episode\":%llu}\n", SOCN, m, (unsigned long long)seqs); viol++;
}
static void see(u64 k) { if (cov.size() < 2000000) cov.insert(k); }
static dut_t D;

#if defined(B_MEM) || defined(B_LEDS) || defined(B_TIMER) || defined(B_SERIAL)
// A rule-following initiator: a request is held until ACK; between requests CYC or STB (or both) are low and the rest is noise.
struct Master {
  bool on = false; u32 adr, dat, sel, we; int gap = 0, waited = 0, style = 0;
  bool done = false; u32 got = 0;      // set in the cycle of ACK
  void request(u32 a, u32 d, u32 s, u32 w) { on = true; adr = a; dat = d; sel = s; we = w; waited = 0; }
  void drive(u32 amask, u32 dmask, u32 smask) {
    u32 k = R.n(4);
    D.i_bus__cyc = on || k == 1; D.i_bus__stb = on || k == 2;
    D.i_bus__adr = (on ? adr : R.u()) & amask; D.i_bus__dat_w = (on ? dat : R.u()) & dmask; D.i_bus__sel = (on ? sel : R.u()) & smask; D.i_bus__we = on ? we : R.n(2);
  }
  bool judge() {                       // after eval; false: violation
    done = false;
    if (!on) { if (D.o_bus__ack) { V("ACK without a request"); return false; } return true; }
    if (D.o_bus__ack) { done = true; got = D.o_bus__dat_r; on = false; return true; }
    if (++waited > 64) { V("no ACK within 64 cycles, adr=%llx we=%llu", adr, we); return false; }
    return true;
  }
};
#endif

#ifdef B_MEM
static void seq(int len) {
  l1 = "writes", l2 = "reads", l3 = "resets", l4 = "back_to_back";
  dut_init(&D); static u32 m[DEPTH], k[DEPTH];   // content and which bits of it are known
  for (u32 i = 0; i < DEPTH; i++) m[i] = i < NINIT ? INIT[i] : 0, k[i] = ~0u;
  Master M; int gap = 0, rp = R.p(60) ? 0 : 30 + R.n(400), gp = R.n(100); u32 span = R.p(50) ? 1 + R.n(6) : DEPTH, base = R.p(50) ? 0 : R.n(DEPTH), rst = 0; if (span > DEPTH) span = DEPTH;
  bool first = true;
  for (int c = 0; c < len && !viol; c++) {
    rst = rp && R.n(rp) == 0;
    if (!M.on && gap-- <= 0) { u32 s = R.p(40) ? 15 : R.n(16); M.request((base + R.n(span)) % DEPTH, R.u(), s, R.p(50)); first = true; }
    D.i_rst = rst; M.drive(0x7fffff, ~0u, 15); dut_eval(&D); if (!M.judge()) return;
    u32 lm = 0; for (int b = 0; b < 4; b++) if (M.sel >> b & 1) lm |= 0xffu << 8 * b;
    if (M.done) {
      ev++; u32 a = M.adr; see((u64)a << 8 | M.sel << 4 | M.we << 3 | (gap < 3 ? 0 : 1));
      if (M.we) { n1++; m[a] = (m[a] & ~lm) | (M.dat & lm); k[a] |= lm; }
      else { n2++; if ((M.got ^ m[a]) & lm & k[a]) return V("read of word %llx lanes %llx returned %llx, last written %llx", a, M.sel, M.got, m[a]); }
      gap = R.p(gp) ? 0 : R.n(6); if (!gap) n4++;
    } else if (rst && M.on) { if (M.we) k[M.adr] &= ~lm; }   // cut off: those lanes may or may not have been written
    if (rst) { n3++; M.on = false; gap = 1 + R.n(3); }
    dut_tick(&D);
  }
  if (M.on && M.we) for (int b = 0; b < 4; b++) if (M.sel >> b & 1) k[M.adr] &= ~(0xffu << 8 * b);
  M.on = false; D.i_rst = 1; D.i_bus__cyc = D.i_bus__stb = 0; dut_eval(&D); dut_tick(&D);
  for (u32 a = 0; a < DEPTH && !viol; a++) {   // nothing else changed
    D.i_rst = 0; M.request(a, R.u(), 15, 0);
    for (int t = 0; t < 70 && M.on; t++) { M.drive(0x7fffff, ~0u, 15); dut_eval(&D); if (!M.judge()) return; dut_tick(&D); }
    ev++; if ((M.got ^ m[a]) & k[a]) return V("word %llx holds %llx at the end, last written %llx", a, M.got, m[a]);
    M.on = false; M.drive(0x7fffff, ~0u, 15); dut_eval(&D); dut_tick(&D);
  }
}
#endif

#ifdef B_LEDS
static void pins(u32 v) { D.i_gpio__0__i = v & 1; D.i_gpio__1__i = v >> 1 & 1; D.i_gpio__2__i = v >> 2 & 1; D.i_gpio__3__i = v >> 3 & 1; D.i_gpio__4__i = v >> 4 & 1; D.i_gpio__5__i = v >> 5 & 1; D.i_gpio__6__i = v >> 6 & 1; D.i_gpio__7__i = v >> 7 & 1; }
static u32 outs() { return D.o_gpio__0__o | D.o_gpio__1__o << 1 | D.o_gpio__2__o << 2 | D.o_gpio__3__o << 3 | D.o_gpio__4__o << 4 | D.o_gpio__5__o << 5 | D.o_gpio__6__o << 6 | D.o_gpio__7__o << 7; }
static u32 oes() { return D.o_gpio__0__oe | D.o_gpio__1__oe << 1 | D.o_gpio__2__oe << 2 | D.o_gpio__3__oe << 3 | D.o_gpio__4__oe << 4 | D.o_gpio__5__oe << 5 | D.o_gpio__6__oe << 6 | D.o_gpio__7__oe << 7; }
static void seq(int len) {
  l1 = "writes", l2 = "pin_reads", l3 = "resets", l4 = "level_checks";
  dut_init(&D); u32 r[3] = {0, 0, 0}; Master M; int gap = 0, rp = R.p(60) ? 0 : 40 + R.n(400), gp = R.n(100), pp = R.n(100); u32 pin = R.u() & 255, ones = 0, zeros = 0; bool cut = false;
  for (int c = 0; c < len && !viol; c++) {
    u32 rst = rp && R.n(rp) == 0;
    if (R.p(pp)) pin = R.p(50) ? R.u() & 255 : pin ^ 1u << R.n(8);
    if (!M.on && gap-- <= 0) { u32 we = R.p(60); u32 a = we ? R.n(3) : 1; if (R.p(8)) a = R.n(3); M.request(a, R.u() & 255, R.p(85), we); ones = zeros = 0; }
    D.i_rst = rst; pins(pin); M.drive(0x1ffffff, 255, 1); bool was = M.on; dut_eval(&D); if (!M.judge()) return;
    if (was) ones |= pin, zeros |= ~pin;
    u32 now_[3] = {(u32)D.o_leds, outs(), oes()};
    for (u32 i = 0; i < 3; i++) { ev++; n4++;
      if (now_[i] != r[i] && !(was && M.we && M.sel && M.adr == i && now_[i] == M.dat)) return V("register %llu shows %llx, expected %llx (cycle %llu)", i, now_[i], r[i], c); }
    if (M.done) {
      ev++; see(M.adr | M.we << 2 | M.sel << 3 | M.dat << 4 | (u64)(gap < 2) << 12);
      if (M.we) { n1++; if (M.sel) r[M.adr] = M.dat; }
      else if (M.adr == 1 && M.sel) { n2++; if ((M.got & ~ones & 255) || (~M.got & ~zeros & 255)) return V("pin read returned %llx, pins were ones=%llx zeros=%llx during the transfer", M.got, ones & 255, zeros & 255); }
      gap = R.p(gp) ? 0 : R.n(6);
    }
    if (rst) { n3++; M.on = false; gap = 1 + R.n(3); r[0] = r[1] = r[2] = 0; }
    dut_tick(&D);
  }
}
#endif

#ifdef B_TIMER
static void seq(int len) {
  l1 = "ticks", l2 = "reads_pending", l3 = "reads_idle", l4 = "reads_across_a_tick";
  dut_init(&D); Master M; u64 ph = 0; bool irq = false, started = false; int gap = R.n(300), mode = R.n(4); u64 began = 0; bool b_irq = false, swallow = false, told = false; u32 rp = R.p(70) ? 0 : 20000 + R.n(80000);
  for (int c = 0; c < len && !viol; c++) {
    u32 rst = rp && R.n(rp) == 0;
    if (!M.on && gap-- <= 0) { M.request(R.u() & 0x3fffffff, R.u() & 255, R.p(88), R.p(10)); began = ph; b_irq = irq; }
    D.i_rst = rst; M.drive(0x3fffffff, 255, 1); dut_eval(&D); if (!M.judge()) return;
    bool was = M.on || M.done, rd = was && M.sel && !M.we;
    if (swallow && irq && !D.o_irq) {   // known_findings.txt: the read that just returned 0 has cleared the tick of its second cycle
      if (!told) printf("V {\"key\":\"WBTimer-read-swallows-tick\",\"msg\":\"%s: a tick in the second cycle of a read that returned 0 is cleared\",\"episode\":%llu}\n", SOCN, (unsigned long long)seqs);
      told = true; irq = false; lost++;
    }
    swallow = false;
    if (D.o_irq != irq) {
      // an interrupt under a read may already have been cleared; the value returned then says whether it was reported
      if (!(rd && !D.o_irq)) return V("irq=%llu expected %llu, %llu cycles after a tick", D.o_irq, irq, ph & 16383);
    }
    ev++;
    if (M.done) {
      if (rd) {
        u32 v = M.got & 1; if (M.got & ~1u) return V("read returned %llx", M.got);
        bool across = (began >> 14) != (ph >> 14); see((ph & 16383) | v << 14 | (u64)across << 15); n4 += across;
        if (!across && v != irq) return V("read returned %llu with irq=%llu, %llu cycles after a tick", v, irq, ph & 16383);
        if (v) { n2++; irq = false; }   // cleared from the next cycle on (unless a new tick is due then)
        else { n3++; swallow = irq && !(ph & 16383); }
      }
      u32 k = mode == 3 ? 0 : R.n(3); u64 left = 16384 - (ph & 16383);
      gap = k == 0 ? R.n(60) : k == 1 && left > 8 ? left - 6 + R.n(8) : mode == 1 ? R.n(100) : R.n(40000);
    }
    ph++;
    if (!(ph & 16383)) { irq = !irq; n1++; }   // bit 14 of the counter: cleared, it is set; left set, it falls
    if (rst) { ph = 0; irq = false; M.on = false; gap = 1 + R.n(50); }
    dut_tick(&D);
  }
}
#endif

// Line side of a serial link: a sender with its own bit period, a receiver that times every bit.
struct Sender {
  std::vector<u32> bits; u64 t0 = 0; u32 per = 1; bool busy = false; size_t n = 0;       // per in 1/256 cycles
  void send(u64 t, u32 byte, int nb, u32 p) { bits.clear(); bits.push_back(0); for (int i = 0; i < nb; i++) bits.push_back(byte >> i & 1); bits.push_back(1); t0 = t; per = p; busy = true; }
  u32 line(u64 t) { if (!busy) return 1; u64 k = (t - t0) * 256 / per; if (k >= bits.size()) { busy = false; return 1; } return bits[k]; }
};
struct Catcher {    // samples in the middle; every level change must be a whole number of bits after the start
  bool in = false; u64 t0 = 0; u32 last = 1, v = 0; int nb, div; bool have = false; u32 out = 0;
  bool step(u64 t, u32 line) {
    have = false;
    if (!in) { if (!line) { in = true; t0 = t; v = 0; } last = line; return true; }
    u64 d = t - t0; if (line != last && d % div) { V("transmitter changes %llu cycles into a frame of %llu-cycle bits", d, div); return false; }
    last = line;
    u64 b = d / div; if (d % div == (u64)div / 2) {
      if (b >= 1 && b <= (u64)nb) v |= line << (b - 1);
      if (b == (u64)nb + 1) { if (!line) { V("stop bit is low"); return false; } }
    }
    if (d == (u64)div * (nb + 2) - 1) { in = false; have = true; out = v; }
    return true;
  }
};

#ifdef B_UART
static void seq(int len) {
  l1 = "sent", l2 = "received", l3 = "framing_errors", l4 = "overruns";
  dut_init(&D); Sender tx; Catcher rx; rx.nb = BITS; rx.div = DIV; u64 t = 0; std::vector<u32> want; size_t wi = 0;
  u32 mask = (1u << BITS) - 1; u64 next = R.n(100); u32 cur = 0; int state = 0; u64 ackat = 0; bool bad = false, pend = false, over = false; u32 second = 0; int txgap = R.n(50); bool exact = R.p(50);
  u64 endcur = 0; u64 rdydue = 0; u32 lastrdy = 0; u32 slow = R.p(50) ? 1 : 1 + R.n(6 * DIV);
  for (; (int)t < len && !viol; t++) {
    // transmit side
    u32 rdy = 0, data = R.u() & mask; if (txgap-- <= 0) rdy = 1;
    // receive side: frame -> maybe a second one unread (overrun) -> acknowledge
    u32 ack = 0;
    if (state == 0 && t >= next) {
      cur = R.u() & mask; bad = R.p(8);
      int tol = exact ? 0 : (int)(DIV / 2 - 3) * 256 / (BITS + 3); u32 p = DIV * 256 + (tol > 0 ? (int)R.n(2 * tol) - tol : 0);
      tx.send(t, cur, BITS, p); if (bad) tx.bits.back() = 0; endcur = t + ((BITS + 2) * (u64)p + 255) / 256; state = 1;
    }
    u32 line = tx.line(t); if (line == 0 && bad && state == 1 && t >= endcur) line = 1;
    D.i_rst = 0; D.i_rx_i = line; D.i_tx_rdy = rdy; D.i_tx_data = data; D.i_rx_ack = 0; dut_eval(&D);
    if (state == 1 && D.o_rx_rdy) {
      if (t + 1 < endcur - (u64)(DIV)) { V("byte reported %llu cycles before its frame ends", endcur - t); return; }
      if ((D.o_rx_data & mask) != cur && !bad) { V("received %llx, sent %llx", D.o_rx_data, cur); return; }
      if ((bool)D.o_rx_err != bad) { V("framing error flag is %llu for a frame whose stop bit is %llu", D.o_rx_err, !bad); return; }
      if (D.o_rx_ovf) { V("overrun flag without an overrun"); return; }
      ev += 3; n2++; n3 += bad; see(cur | 1 << 16 | (u32)bad << 17); state = 2; over = !bad && R.p(12); ackat = t + R.n(slow); if (bad && ackat < endcur + 2) ackat = endcur + 2; if (over) ackat = ~0ull, next = endcur + 1 + R.n(DIV);
    }
    if (state == 1 && t > endcur + 2 * DIV + 4) { V("frame of byte %llx not received", cur); return; }
    if (state == 2 && over && t == next) { second = R.u() & mask; tx.send(t, second, BITS, DIV * 256); endcur = t + (BITS + 2) * DIV; ackat = endcur + DIV + R.n(20); }
    if (state == 2 && over && ackat != ~0ull && t > endcur) { if (!D.o_rx_ovf) { V("overrun not flagged"); return; } if (D.o_rx_data != cur) { V("overrun replaced the unread byte %llx with %llx", cur, D.o_rx_data); return; } ev++; }
    if (state == 2) { if (!D.o_rx_rdy) { V("received byte dropped before it was read"); return; } if (t >= ackat) { ack = 1; n4 += over; } }
    D.i_rx_ack = ack; dut_eval(&D);
    bool took = D.o_tx_ack && rdy; if (took) { want.push_back(data); txgap = R.p(50) ? 0 : R.n(4 * DIV); }
    if (!rx.step(t, D.o_tx_o)) return;
    if (rx.have) { ev++; if (wi >= want.size()) { V("transmitted byte %llx nobody wrote", rx.out); return; } if (rx.out != want[wi]) { V("transmitted %llx, written %llx", rx.out, want[wi]); return; } see(rx.out); wi++; n1++; }
    if (want.size() - wi > 2) { V("transmitter took %llu bytes and sent %llu", want.size(), wi); return; }
    dut_tick(&D);
    if (ack) { state = 0; bool quick = R.p(50); next = (endcur > t ? endcur : t + 1) + (bad ? DIV + 2 : 0) + (quick ? 0 : R.n(3 * DIV)); }
  }
}
#endif

#ifdef B_SERIAL
enum { DIV = 1250 };     // 12 MHz / 9600 baud
static void seq(int len) {
  l1 = "sent", l2 = "received", l3 = "irq_register_reads", l4 = "irq_level_checks";
  dut_init(&D); Master M; Sender tx; Catcher rx; rx.nb = 8; rx.div = DIV; u64 t = 0; std::vector<u32> want, sent; size_t wi = 0, ri = 0; u64 next = R.n(3000);
  bool txfree = false, rxfull = false; int lat = 1 + R.n(R.p(50) ? 8 : 50), op = 0;   // quick enough for back-to-back frames from a fast sender
  u64 irqs = 0; u32 wr = 0; bool exact = R.p(40), poll = R.p(25), frame = false; u64 idle0 = 0, endrx = 0; int gap = 0; int over = 0;   // over: 1 byte left unread until 2 the next one has come and gone
  for (; (int)t < len && !viol; t++) {
    if (t >= next && !tx.busy) { u32 b = R.u() & 255, p = DIV * 256 + (exact ? 0 : (int)R.n(2 * 9000) - 9000); sent.push_back(b); tx.send(t, b, 8, p); u64 e = t + 10ull * p / 256; endrx = e; next = e + 1 + (R.p(50) ? R.n(3) : R.n(9000)); }
    u32 line = tx.line(t);
    if (!M.on && gap-- <= 0) {
      // the driver: on interrupt read the IRQ register, then the byte, then write the next one; or poll
      if (rxfull && !over) M.request(R.u() & 0x3ffffffe, R.u() & 255, 1, 0), op = 1;
      else if (txfree && R.p(30)) wr = R.u() & 255, M.request(R.u() & 0x3ffffffe, wr, 1, 1), op = 2;
      else if (D.o_irq || poll) M.request((R.u() & 0x3fffffff) | 1, R.u() & 255, 1, 0), op = 3;
      else if (R.p(20)) M.request(R.u() & 0x3fffffff, R.u() & 255, 0, R.n(2)), op = 4;   // no lane selected: no effect
      else if (R.p(20)) M.request((R.u() & 0x3fffffff) | 1, R.u() & 255, 1, 1), op = 5;  // write of the read-only register: no effect
      gap = 0;
    }
    D.i_rst = 0; D.i_rx = line; M.drive(0x3fffffff, 255, 1); dut_eval(&D); if (!M.judge()) return;
    if (!rx.step(t, D.o_tx)) return;
    if (rx.have) { ev++; if (wi >= want.size()) return V("transmitted byte %llx nobody wrote", rx.out); if (rx.out != want[wi]) return V("transmitted %llx, written %llx", rx.out, want[wi]); see(rx.out); wi++; n1++; idle0 = t; }
    if (want.size() > wi && !rx.in && t > idle0 + 200) return V("written byte %llx is not being sent", want[wi]);
    if (rx.in) idle0 = t;
    if (M.done) {
      ev++;
      if (op == 1) { rxfull = false; if (ri >= sent.size()) return V("byte %llx reported that was never sent", M.got); if (M.got != sent[ri]) return V("read %llx, sent %llx", M.got, sent[ri]); see(M.got | 0x100); ri++; n2++; }
      else if (op == 2) { txfree = false; want.push_back(wr); idle0 = t; }
      else if (op == 3) {
        n3++; if (M.got & ~3u) return V("IRQ register reads %llx", M.got);
        if (M.got & 1) { if (rxfull) return V("second receive interrupt for one byte"); rxfull = true; if (ri >= sent.size()) return V("receive interrupt without a byte"); if (R.p(8)) over = 1; }
        if (M.got & 2) { if (want.size() > wi && rx.in) return V("transmit interrupt while a byte is being sent"); if (txfree) return V("second transmit interrupt for one byte"); txfree = true; }
        see(M.got << 20 | (t - (endrx > t ? 0 : endrx)) % 64 << 24);
      }
      gap = R.n(lat);
    }
    if (over == 1 && ri + 2 == sent.size()) over = 2, next = endrx + 5000;
    if (over == 2 && t > endrx + 16) { over = 0; sent.pop_back(); }   // the second one is lost, the first must still be there
    // levels: nothing to report -> low; a byte waiting unreported for long -> high
    if (!over && sent.size() - ri > 1 + (size_t)tx.busy) return V("byte %llx was never reported", sent[ri]);
    if (!M.on && !M.done && ri < sent.size() && !tx.busy && t > endrx + 16 && !rxfull) { n4++; ev += !(n4 & 63); if (!D.o_irq) return V("no interrupt though byte %llx waits", sent[ri]); }
    if (!M.on && !M.done && want.size() == wi && !rx.in && t > idle0 + 16 && !txfree) { n4++; ev += !(n4 & 63); if (!D.o_irq) return V("no interrupt though the transmitter is free"); }
    if (!M.on && !M.done && ri == sent.size() && txfree && !rxfull) { n4++; ev += !(n4 & 63); if (D.o_irq) return V("interrupt with nothing to report"); }
    dut_tick(&D);
  }
}
#endif

#ifdef B_SOC
static u32 PIN = 0;
static void step(u32 rx) { D.i_rx = rx; D.i_pins = PIN; dut_eval(&D); }
static void seq(int len) {
  dut_init(&D); D.i_rst = 0; u64 t = 0;
#ifdef SOC_PRIMES
  l1 = "primes_shown";
  u32 last = 0, want = 2; int cut = R.n(3) ? R.n(len / 4) : -1;
  for (; (int)t < len * 2 && !viol; t++) {
    D.i_rst = (int)t == cut; step(1);
    if (D.o_leds != last) {
      do want = want >= 251 ? 2 : want + 1; while ([&] { for (u32 d = 2; d < want; d++) if (want % d == 0) return true; return false; }());
      if ((int)t == cut + 1 && !D.o_leds) want = 2;
      else if (D.o_leds != want) return V("LEDs show %llu, next prime is %llu", D.o_leds, want);
      else { ev++; n1++; see(want); }
      last = D.o_leds;
    }
    if ((int)t == cut) { want = 2; }
    dut_tick(&D);
  }
  if (!n1) V("no prime shown");
#endif
#ifdef SOC_PINS
  l1 = "pin_changes";
  u64 since = 0; int hold = 3000 + R.n(4000);
  for (; (int)t < len && !viol; t++) {
    if (t - since > (u64)hold) { PIN = R.p(50) ? R.u() & 255 : PIN ^ 1u << R.n(8); since = t; hold = 2500 + R.n(3000); n1++; }
    step(1);
    if (t - since > 2400 && !(t & 15)) { ev++; if (D.o_o != (~PIN & 255) || D.o_oe != 0x55) return V("pins %llx: outputs %llx enable %llx", PIN, D.o_o, D.o_oe); see(PIN); }
    dut_tick(&D);
  }
#endif
#ifdef SOC_ECHO
  l1 = "echoed", l2 = "ticks";
  Sender tx; Catcher rx; rx.nb = 8; rx.div = 1250; std::vector<u32> sent; size_t ri = 0; u64 next = 4000 + R.n(9000);
  for (; (int)t < len && !viol; t++) {
    if (t >= next && !tx.busy) { u32 b = R.u() & 255; sent.push_back(b); tx.send(t, b, 8, 1250 * 256 + (int)R.n(8000) - 4000); next = t + 12500 + 1500 + R.n(6000); }
    step(tx.line(t));
    if (!rx.step(t, D.o_tx)) return;
    if (rx.have) { if (ri >= sent.size()) return V("echo %llx of nothing", rx.out); if (rx.out != ((sent[ri] + 1) & 255)) return V("echo of %llx is %llx", sent[ri], rx.out); ri++; n1++; ev++; see(rx.out); }
    if (sent.size() - ri > 3) return V("bytes received but not echoed: %llu", sent.size() - ri);
    if ((t & 16383) > 3000 && !(t & 255)) { ev++; if (D.o_leds != (t >> 14 & 255)) return V("LEDs count %llu timer ticks after %llu", D.o_leds, t >> 14); if ((t & 16383) < 3300) n2++; }
    dut_tick(&D);
  }
#endif
}
#endif

int main(int argc, char **argv) {
  if (int x = O.parse(argc, argv)) return x;
  T0 = now(); dict_load(dut_dict, dut_ndict);
  for (; (long)seqs < O.episodes && !viol; seqs++) { R = Rng(mix64(O.seed, O.only_set ? O.only : seqs)); seq(O.len); if (O.only_set) break; if (now() - T0 > O.maxsec) { to = true; break; } }
  printf("S {\"evals\":%llu,\"sequences\":%llu,\"distinct\":%zu,\"%s\":%llu,\"%s\":%llu,\"%s\":%llu,\"%s\":%llu,\"ticks_swallowed\":%llu,\"violations\":%d,\"timeout\":%s}\n", (unsigned long long)ev, (unsigned long long)seqs, cov.size(),
    l1, (unsigned long long)n1, l2, (unsigned long long)n2, l3, (unsigned long long)n3, l4, (unsigned long long)n4, (unsigned long long)lost, viol, to ? "true" : "false");
  return viol ? 1 : 0;
}
