#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; size_t p = a.find('='); std::string k = a.substr(0, p), v = p == std::string::npos ? "" : a.substr(p + 1);
    if (k == "seed") opt.seed = strtoull(v.c_str(), 0, 0);
    else if (k == "episodes") opt.episodes = atol(v.c_str());
    else if (k == "len") opt.len = atoi(v.c_str());
    else if (k == "only") opt.only = strtoull(v.c_str(), 0, 0), opt.only_set = true;
    else if (k == "verbose") opt.verbose = true;
    else if (k == "profile") opt.profile = v;
    else if (k == "dump_rd") opt.dump_rd = atoi(v.c_str());
    else if (k == "full_every") opt.full_every = atoi(v.c_str());
    else if (k == "csr_every") opt.csr_every = atoi(v.c_str());
    else if (k == "wait") opt.wait = atoi(v.c_str());
    else if (k == "irq") opt.irq = atoi(v.c_str());
    else if (k == "reset") opt.reset = atoi(v.c_str());
    else if (k == "giant") opt.giant = atoi(v.c_str());
    else if (k == "giantk") opt.giantk = atoi(v.c_str());
    else if (k == "stray") opt.stray = atoi(v.c_str());
    else if (k == "romglitch") opt.romglitch = atoi(v.c_str());
    else if (k == "maxsec") opt.maxsec = atof(v.c_str());
    else if (k == "sweep") { sscanf(v.c_str(), "%ld:%ld:%ld", &opt.sweep, &opt.sweep_from, &opt.sweep_to); }
    else if (k == "enable") opt.enable = atoi(v.c_str());
    else if (k == "w") { int n = 0; const char *s = v.c_str(); while (*s && n < 12) { opt.w[n++] = strtol(s, (char **)&s, 10); if (*s == ',') s++; } while (n < 12) opt.w[n++] = 0; }
    else if (k == "want") want_mask = strtoul(v.c_str(), 0, 0);
    else if (k == "stop") opt.stop_after = atoi(v.c_str());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
  }
  for (int i = 0; i < dut_ndict; i++) dictv.push_back({dut_dict[i].v, dut_dict[i].m, dut_dict[i].w});
  double t0 = now(); bool timeout = false;
  for (long i = 0; i < opt.episodes; i++) {
    u64 id = opt.only_set ? opt.only : i;
    Episode *ep = new Episode(id);
    ep->run();
    delete ep;
    if (opt.only_set || nviol >= opt.stop_after || foreign >= 4000) break;
    if (now() - t0 > opt.maxsec) { timeout = true; break; }
  }
  u64 uas = 0, upairs = 0; for (int i = 0; i < 256; i++) uas += st.ua[i] & 1; for (size_t i = 0; i < st.ua.size(); i++) upairs += (st.ua[i] >> 1) & 1;
  printf("S {\"cycles\":%llu,\"instrs\":%llu,\"txs\":%llu,\"checks\":%llu,\"resets\":%llu,\"irq_taken\":%llu,\"irq_must\":%llu,\"irq_single_cycle_pulses_taken\":%llu,\"irq_pulses_outside_sample_ignored\":%llu,\"rom_latch_faults_under_reset\":%llu,\"stray_acks\":%llu,\"giant_waits\":%llu,\"scenes\":%llu,\"read_backs_put_off\":%llu,\"irq_masked\":%llu,\"traps\":%llu,\"dumps\":%llu,\"fulls\":%llu,\"episodes\":%llu,\"waits\":%llu,\"distinct\":%llu,\"violations\":%d,\"foreign\":%llu,\"timeout\":%s,\"ucode_addrs\":%llu,\"ucode_edges\":%llu",
    (unsigned long long)st.cycles, (unsigned long long)st.instrs, (unsigned long long)st.txs, (unsigned long long)st.checks, (unsigned long long)st.resets, (unsigned long long)st.irq_taken, (unsigned long long)st.irq_must, (unsigned long long)st.pulse_in, (unsigned long long)st.pulse_out, (unsigned long long)st.romglitch, (unsigned long long)st.stray, (unsigned long long)st.giants, (unsigned long long)st.scenes, (unsigned long long)st.late, (unsigned long long)st.irq_masked, (unsigned long long)st.traps, (unsigned long long)st.dumps, (unsigned long long)st.fulls, (unsigned long long)st.episodes, (unsigned long long)st.waits, (unsigned long long)st.covn, nviol, (unsigned long long)foreign, timeout ? "true" : "false", (unsigned long long)uas, (unsigned long long)upairs);
  printf(",\"mn\":{"); for (int i = 0; i < M_N; i++) printf("%s\"%s\":%llu", i ? "," : "", mn_name[i], (unsigned long long)st.mn[i]); printf("}");
  printf(",\"cause\":{"); bool f = true; for (int i = 0; i < 32; i++) if (st.cause[i]) { printf("%s\"%d\":%llu", f ? "" : ",", i, (unsigned long long)st.cause[i]); f = false; } printf("}");
  printf(",\"T\":{"); for (int i = 0; i < M_N + 2; i++) printf("%s\"%s\":[%d,%d]", i ? "," : "", i == M_N ? "interrupt" : i == M_N + 1 ? "exception" : mn_name[i], st.tmin[i] == 1 << 30 ? -1 : st.tmin[i], st.tmax[i]); printf("}");
#ifdef HAVE_RVFI
  printf(",\"rvfi\":%llu,\"rvfi_csr\":%llu,\"rvfi_mip\":%llu", (unsigned long long)rvfi_count, (unsigned long long)rvfi_csr, (unsigned long long)rvfi_mip);
#endif
  printf("}\n");
  return nviol ? 1 : 0;
}
