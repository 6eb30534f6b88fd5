"""C13: the RVFI port of the formal top-level against the reference model."""
import os
import subprocess

from .common import Check, Inconclusive, NATIVE, SEED, TIER
from . import lock

# Port widths of the RISC-V Formal Interface (riscv-formal, docs/rvfi.md; RV32, one channel)
WIDTHS = dict(valid=1, order=64, insn=32, trap=1, halt=1, intr=1, mode=2, ixl=2, rs1_addr=5, rs2_addr=5, rs1_rdata=32, rs2_rdata=32, rd_addr=5,
              rd_wdata=32, pc_rdata=32, pc_wdata=32, mem_addr=32, mem_rmask=4, mem_wmask=4, mem_rdata=32, mem_wdata=32)
CSRS = {c: 64 if c in ("mcycle", "minstret", "mhpmcounter3") else 32 for c in
        ("mscratch mcause mip mie mstatus mtvec mepc misa mvendorid marchid mimpid mhartid mconfigptr mstatush mcountinhibit mtval mcycle minstret "
         "mhpmcounter3 mhpmevent3").split()}


def widths(chk, nl):
    want = {f"rvfi__{k}": w for k, w in WIDTHS.items()}
    want.update({f"rvfi__csr__{c}__{f}": w for c, w in CSRS.items() for f in ("rmask", "wmask", "rdata", "wdata")})
    have = {k: len(v) for k, v in nl.top.ports_o.items()}
    for k, w in want.items():
        if k in have and have[k] != w:
            chk.violation(f"width {k}", f"RVFI port {k} is {have[k]} bits wide, the interface says {w}")
    return sum(k in have for k in want)


def run(pid):
    chk = Check(pid)
    xv = lock.start_xval(chk, "formal", 1500)
    try:
        lock.oracle_selftest(chk)
        has_obs, nl = lock.build_top(chk, formal=True)
        missing = [p for p in ("rvfi__valid", "rvfi__insn", "rvfi__csr__mtvec__rdata") if p not in nl.top.ports_o]
        if missing:
            raise Inconclusive(f"formal top-level has no ports {missing}")
        nports = widths(chk, nl)
        exe = chk.compile(os.path.join(NATIVE, "lockstep.cc"), "lockstep", defs=["HAVE_RVFI"] + (["HAVE_UADDR"] if has_obs else []))
        k = 3 if TIER == "quick" else 18
        n = lambda x: f"episodes={x * k}"
        M = lock.MIX
        jobs = [[M, n(900), "irq=30", "enable=20"]] * 8 \
            + [["w=10,5,50,5,20,5,10,2,0,0", n(500)]] * 2 + [["w=10,3,5,5,70,5,5,2,0,0", n(500), "csr_every=15"]] * 2 \
            + [["w=15,20,10,30,5,10,10,2,1,2", n(500), "irq=50", "enable=50"]] * 2 + [[M, n(300), "wait=2", "enable=20"], [M, n(120), "wait=3"]] \
            + [[M, "episodes=1", f"len={200000 * k}", "irq=10", "wait=1"], [M, "episodes=1", f"len={20000 * k}", "wait=3"]] \
            + lock.sweep_jobs(0, parts=8) + lock.sweep_jobs(1, parts=8) + lock.sweep_jobs(3, parts=4) \
            + [[M, n(60), "reset=200", "len=4000"], [M, n(60), "reset=1500", "len=4000"]]
        tot, mn, cause, T, broken = lock.collect(chk, exe, jobs, "rvfi", 2048, 400 if TIER == "quick" else 700)
        chk.evaluations = tot.get("rvfi", 0)
        chk.distinct = tot.get("distinct", 0)
        chk.rule = ("Each case is one instruction reported on RVFI, compared field by field with the reference model's record of the same "
                    "fetched word; distinct non-trivial cases as hashed from (mnemonic, operand classes, trap, taken, alignment, interrupt "
                    "mode, CSR number or illegal fields).")
        chk.coverage.update(ports_of_documented_width=nports, cycles=tot.get("cycles", 0), rvfi_reports=tot.get("rvfi", 0), csr_channel_reports=tot.get("rvfi_csr", 0), mip_reports_with_a_steady_line=tot.get("rvfi_mip", 0),
                            interrupts=tot.get("irq_taken", 0), traps=tot.get("traps", 0), resets=tot.get("resets", 0), per_mnemonic=mn, per_cause=cause,
                            workers=len(jobs))
        chk.samples = [dict(options=" ".join(j)) for j in {" ".join(j): j for j in jobs}.values()][:6]
        sm = subprocess.run([exe, f"seed={SEED}", "episodes=1", "len=60", "verbose"], capture_output=True, text=True).stdout
        chk.samples += [l[2:] for l in sm.splitlines() if l.startswith("# ")][60:66]
        chk.assumptions = ["mip.MEIP on the mip channel is excluded (asynchronous, as in tests/formal/checks.cfg)",
                           "after a mid-run reset, register and CSR values are compared again once software has initialised them"]
        if not chk.violations:
            lock.end_xval(chk, xv)
            if broken:
                raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        floors = [] if chk.foreign else [("RVFI reports", chk.evaluations, 300000), ("CSR channel reports", tot.get("rvfi_csr", 0), 50000)]
        return chk.finish(floors)
    except Inconclusive as e:
        return chk.inconclusive(e)
    finally:
        if xv.poll() is None:
            xv.kill()
