// Reference model against the official riscv-tests binaries kept in the
// repository: the oracle must pass what the ISA's authors wrote.
#include "iss.h"
#include <cstdio>
#include <vector>
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::vector<u8> mem(1 << 20, 0);
    FILE *f = fopen(argv[i], "rb"); if (!f) return 2;
    size_t n = fread(mem.data(), 1, mem.size(), f); fclose(f); (void)n;
    Iss s; memset(&s, 0, sizeof s); long k = 0; int code = -1;
    auto word = [&](u32 a) { u32 v = 0; for (int b = 0; b < 4; b++) v |= (u32)mem[((a & ~3u) + b) & 0xfffff] << (8 * b); return v; };
    for (; k < 200000; k++) {
      Eff e = plan(s, word(s.pc), false); u32 d = 0;
      if (e.mem && !e.trap) {
        if (e.we && e.addr == 0x4000000) { code = (int)e.rs2v; break; }
        if (e.we) { for (int b = 0; b < 4; b++) if (e.sel >> b & 1) mem[((e.addr & ~3u) + b) & 0xfffff] = e.wdata >> (8 * b); }
        else d = word(e.addr);
      }
      commit(s, e, d);
    }
    const char *b = argv[i]; for (const char *q = b; *q; q++) if (*q == '/') b = q + 1;
    printf("%s %d %ld\n", b, code, k);
  }
}
