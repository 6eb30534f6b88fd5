"""Lock-step checks (C01-C09, C11, C12): the elaborated core, compiled from the
current tree, driven by native/lockstep.cc and judged against native/iss.h."""
import os
import random
import subprocess

from .common import Check, Inconclusive, NATIVE, PY, SEED, TIER, VERIF, REPO, pool, run_json

BITS = {"C01": ("alu", 1), "C02": ("flow", 2), "C03": ("ls", 4), "C04": ("ill", 8), "C05": ("csr", 16),
        "C06": ("trap", 32), "C07": ("irq", 64), "C08": ("wb", 128), "C09": ("rst", 256),
        "C11": ("frame", 512), "C12": ("prog", 1024), "C13": ("rvfi", 2048)}

# class weights: alu branch load/store jump csr env mutated random lowbits system
MIX = "w=30,12,16,8,14,6,4,2,1,1"
WEIGHTS = {
    "C01": "w=75,6,6,2,3,1,1,0,0,0", "C02": "w=12,45,4,25,6,5,2,1,0,0", "C03": "w=12,4,65,4,4,2,3,0,0,0",
    "C04": "w=6,3,5,2,6,3,40,20,8,12", "C05": "w=10,2,4,2,70,5,3,1,0,1", "C06": "w=8,6,16,10,22,24,10,3,1,3",
    "C07": "w=20,10,14,10,20,12,4,1,0,1", "C08": MIX, "C09": MIX, "C11": MIX, "C12": MIX,
}
SWEEPS = {0: 131072, 1: 131072, 2: 4194304, 3: 3072, 4: 65536, 5: 393216}


def sweep_jobs(kind, n=None, parts=8, **kw):
    tot = n or SWEEPS[kind]
    step = (tot + parts - 1) // parts
    extra = [f"{k}={v}" for k, v in kw.items()]
    return [[f"sweep={kind}:{a}:{min(tot, a + step)}", "episodes=1"] + extra for a in range(0, tot, step)]


def jobs_for(pid, scale):
    """List of option lists; scale 1 = quick."""
    W = WEIGHTS.get(pid, MIX)
    n = lambda k: f"episodes={max(1, int(k * scale))}"
    J = []
    own = []
    if pid == "C01":
        own = [[W, "dump_rd=100", n(900), "irq=10", "enable=2"]] * 8 + sweep_jobs(3, 3072 * max(1, int(2 * scale)), 8, dump_rd=100)
    elif pid == "C02":
        own = [[W, n(1100), "irq=15"]] * 8
    elif pid == "C03":
        own = [[W, "dump_rd=90", n(900), "irq=15"]] * 6 + [[W, "dump_rd=90", n(500), "wait=2"], [W, n(200), "wait=3"]]
    elif pid == "C04":
        own = sweep_jobs(0) + sweep_jobs(1) + sweep_jobs(4) + sweep_jobs(5, wait=1, full_every=400, csr_every=400) + sweep_jobs(2, parts=32, wait=1, full_every=400, csr_every=400) \
            + [[W, n(700), "irq=10"]] * 8
    elif pid == "C05":
        own = sweep_jobs(1, csr_every=10) + [[W, n(900), "csr_every=15", "irq=15", "enable=3"]] * 8
    elif pid == "C06":
        own = [[W, n(700), "csr_every=10", "irq=25", "enable=30"]] * 4 + [[W, n(700), "csr_every=10", "irq=5", "enable=10"]] * 4
    elif pid == "C07":
        own = [[W, n(600), "irq=60", "enable=60", "csr_every=20"]] * 4 + [[W, n(600), "irq=35", "enable=90", "csr_every=20"]] * 2 \
            + [[W, n(400), "irq=60", "enable=40", "wait=2", "csr_every=20"]] * 2 + [[W, n(600), "irq=90", "enable=3", "csr_every=20"]] * 2
    elif pid == "C08":
        own = [[W, n(700), f"wait={k}", "irq=30", "enable=20"] for k in (1, 1, 2, 2, 2, 3, 3, 3)] \
            + [[W, n(500), f"wait={k}", "irq=30", "enable=20", "stray=100"] for k in (0, 1, 2)] + [[W, n(200), "reset=300", "len=2000", "stray=100"]] + [[W, n(300), "reset=100", "len=2000"]] * 2 \
            + [[W, "episodes=1", "len=400", f"giant={24 if scale < 20 else 28}", f"giantk={k}", "irq=30", "enable=20"] for k in (0, 1, 2)]
    elif pid == "C09":
        own = [[W, n(220), f"reset={r}", "len=3000", "irq=40", "enable=25", f"romglitch={g}"] for r, g in ((30, 60), (100, 50), (300, 90), (300, 0), (800, 50), (800, 0), (2500, 70), (6000, 50))]
    elif pid == "C11":
        own = [[W, n(700), "full_every=4", "csr_every=5", "irq=20", "enable=15"]] * 8
    elif pid == "C12":
        own = sweep_jobs(0) + sweep_jobs(1) + sweep_jobs(3) + sweep_jobs(4) + sweep_jobs(5, wait=1, full_every=400, csr_every=400) + sweep_jobs(2, 4194304, 16, wait=1, full_every=400, csr_every=400)[::(1 if scale > 1 else 4)] \
            + [[W, n(600), "irq=40", "enable=30"]] * 8
    # few long runs without reset: behaviour keyed on a number of events
    long = 500000 if scale < 20 else 4000000
    own = own + [[W, "episodes=1", f"len={long}", "wait=1", "full_every=200", "csr_every=200"], [W, "episodes=1", f"len={long // 2}", "irq=40", "enable=30"],
                 [MIX, "episodes=1", f"len={long // 16}", "wait=3", "irq=20"], [W, "episodes=1", f"len={1200 * max(1, int(scale))}", "wait=4", "irq=30", "enable=30"]]
    mix = [[MIX, n(350), "irq=30", "enable=15"]] * 4 + [[MIX, n(60), "reset=300", "len=3000", "enable=15"]] * 2
    return own + mix


def build_top(chk, formal=False, observe=True):
    from . import nirc
    if formal:
        from sentinel.formal import FormalTop as T
    else:
        from sentinel.top import Top as T
    top = T()
    nl = nirc.elaborate(top)
    obs = {}
    if observe:
        # Microcode address: coverage only, dropped when the tree has no such signal.
        try:
            cpu = top.cpu if formal else top
            obs = {"uaddr": cpu.control.ucoderom.addr}
            src = nirc.Lower(nl, "dut", observe=obs).generate()
        except Exception:
            obs = {}
    if not obs:
        src = nirc.Lower(nl, "dut").generate()
    open(chk.path("dut.h"), "w").write(src)
    return bool(obs), nl


def start_xval(chk, which, cycles=3000):
    return subprocess.Popen([PY, "-m", "vt.xval", which, str(cycles), str(SEED), chk.dir], stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=os.path.join(VERIF, "lib"), VT_REPO=REPO))


def end_xval(chk, p):
    try:
        out, err = p.communicate(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Inconclusive("simulator cross-validation timed out")
    if p.returncode or not out.strip():
        raise Inconclusive("simulator cross-validation failed: " + err[-800:])
    bad, dist, first = out.strip().split(" ", 2) if out.strip().count(" ") >= 2 else (*out.strip().split(" "), "")
    chk.coverage["simulator_cross_validation"] = dict(cycles_with_mismatch=int(bad), distinct_output_vectors=int(dist))
    if int(bad):
        raise Inconclusive(f"compiled model and Amaranth simulator disagree ({first})")


def oracle_selftest(chk):
    """The reference model runs the official riscv-tests binaries kept in the repository."""
    d = os.path.join(REPO, "tests/upstream/binaries")
    bins = sorted(f for f in (os.listdir(d) if os.path.isdir(d) else []) if "." not in f)
    if not bins:
        return
    exe = chk.compile(os.path.join(NATIVE, "issself.cc"), "issself")
    r = subprocess.run([exe] + [os.path.join(d, b) for b in bins], capture_output=True, text=True, timeout=60)
    res = {a.split()[0]: a.split()[1] for a in r.stdout.splitlines() if len(a.split()) == 3}
    # features Sentinel documents as absent (tests/upstream expects these to fail): Zifencei, misaligned data, writable misa, Zicntr
    bad = [b for b in bins if (res.get(b) == "1") == (b in ("fence_i", "ma_data", "mcsr", "zicntr"))]
    chk.coverage["reference_model_vs_riscv_tests"] = dict(programs=len(bins), passed=sum(v == "1" for v in res.values()), unexpected=bad)
    if bad:
        raise Inconclusive(f"reference model and the official tests disagree: {bad}")


def collect(chk, exe, jobs, tag, want, timeout, seedbase=0):
    """Run jobs on the pool; sort divergences into ours and foreign."""
    rng = random.Random(f"{SEED}-{chk.pid}-{TIER}-{seedbase}")
    cmds = []
    for j in jobs:
        cmds.append([exe] + list(j) + [f"seed={rng.randrange(1, 1 << 40)}", f"want={want}", "stop=10", f"maxsec={timeout}"])
    order = sorted(range(len(cmds)), key=lambda i: -cost(cmds[i]))
    res = dict(zip(order, pool(lambda i: run_json(cmds[i], timeout + 60), order)))
    tot, mn, cause, T, sweeps = {}, {}, {}, {}, 0
    broken = []
    for i, cmd in enumerate(cmds):
        vs, s, rc, err = res[i]
        rel = [os.path.basename(cmd[0])] + cmd[1:]
        for v in vs:
            props = v.get("props", "").split(",")
            if tag in props:
                chk.violation(v["msg"].split(":")[0][:80], v["msg"], cmd=rel, detail=v)
            else:
                chk.foreign.append(dict(props=v.get("props"), msg=v.get("msg"), cmd=" ".join(rel)))
        if s is None:
            broken.append(f"{' '.join(rel)}: rc={rc} {err[-300:]}")
            continue
        if s.get("timeout"):
            broken.append(f"{' '.join(rel)}: time limit")
        for k, v in s.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                tot[k] = max(tot.get(k, 0), v) if k in ("ucode_addrs", "ucode_edges") else tot.get(k, 0) + v
        for src, dst in ((s.get("mn", {}), mn), (s.get("cause", {}), cause)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for k, (lo, hi) in s.get("T", {}).items():
            if lo >= 0:
                o = T.get(k, [lo, hi])
                T[k] = [min(o[0], lo), max(o[1], hi)]
    return tot, mn, cause, T, broken


def cost(cmd):
    for a in cmd:
        if a.startswith("sweep="):
            k, a0, a1 = a[6:].split(":")
            return (int(a1) - int(a0)) * 6
    d = dict(x.split("=", 1) for x in cmd[1:] if "=" in x)
    if "giant" in d:
        return 1 << int(d["giant"])
    return int(d.get("episodes", 100)) * int(d.get("len", 600)) * (2 if d.get("wait") in ("2", "3") else 1)


def run(pid):
    tag, bit = BITS[pid]
    chk = Check(pid)
    xv = start_xval(chk, "top")
    try:
        oracle_selftest(chk)
        has_obs, _ = build_top(chk)
        exe = chk.compile(os.path.join(NATIVE, "lockstep.cc"), "lockstep", defs=["HAVE_UADDR"] if has_obs else [])
        scale = 10 if TIER == "quick" else 45
        jobs = jobs_for(pid, scale)
        tot, mn, cause, T, broken = collect(chk, exe, jobs, tag, bit, 400 if TIER == "quick" else 700)
        chk.evaluations = tot.get("instrs", 0) + tot.get("irq_taken", 0)
        chk.distinct = tot.get("distinct", 0)
        chk.rule = ("Each case is one instruction (or interrupt entry) executed by the elaborated core and judged on the bus "
                    "against the reference model; instruction words are invented at fetch time from the model state. Distinct "
                    "non-trivial cases are counted per worker by a hash of (mnemonic, operand value classes, trap, taken, "
                    "alignment, interrupt mode, CSR number or illegal encoding fields) and summed over workers.")
        chk.coverage.update(cycles=tot.get("cycles", 0), bus_transfers=tot.get("txs", 0), cycle_checks=tot.get("checks", 0),
                            resets=tot.get("resets", 0), interrupts_taken=tot.get("irq_taken", 0), interrupts_required=tot.get("irq_must", 0),
                            interrupts_masked_seen=tot.get("irq_masked", 0),
                            rom_latch_faults_under_reset=tot.get("rom_latch_faults_under_reset", 0),
                            interrupts_taken_from_unsteady_line=tot.get("irq_single_cycle_pulses_taken", 0),
                            interrupt_pulses_outside_sample_ignored=tot.get("irq_pulses_outside_sample_ignored", 0), traps=tot.get("traps", 0), register_readbacks=tot.get("dumps", 0),
                            full_register_dumps=tot.get("fulls", 0), acknowledges_outside_transfers=tot.get("stray_acks", 0), waits_of_millions_of_cycles=tot.get("giant_waits", 0), scenes_of_coinciding_values=tot.get("scenes", 0), read_backs_put_off=tot.get("read_backs_put_off", 0), wait_cycles=tot.get("waits", 0), per_mnemonic=mn, per_cause=cause,
                            cycles_min_max=T, microcode_addresses=tot.get("ucode_addrs", 0), microcode_edges=tot.get("ucode_edges", 0),
                            episodes=tot.get("episodes", 0), workers=len(jobs))
        chk.samples = [dict(options=" ".join(j)) for j in {" ".join(j): j for j in jobs}.values()][:6]
        sm = subprocess.run([exe, f"seed={SEED}", "episodes=1", "len=60", "verbose", WEIGHTS[pid]], capture_output=True, text=True).stdout
        chk.samples += [l[2:] for l in sm.splitlines() if l.startswith("# ")][60:68]
        chk.assumptions = ["peripherals acknowledge no earlier than the second cycle of a transfer (documented handshake)",
                           "IRQ and bus inputs are synchronous to the core clock",
                           "the RTL netlist Amaranth emits is the design (cross-validated here against Amaranth's simulator)"]
        if not chk.violations:
            end_xval(chk, xv)
            if broken:
                raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        floors = [("instructions", chk.evaluations, 200000), ("register read-backs", tot.get("dumps", 0), 20000)]
        floors += {"C07": [("interrupts", tot.get("irq_taken", 0), 20000), ("interrupts from an unsteady line", tot.get("irq_single_cycle_pulses_taken", 0), 5000),
                           ("ignored pulses", tot.get("irq_pulses_outside_sample_ignored", 0), 5000)], "C09": [("resets", tot.get("resets", 0), 20000)],
                   "C06": [("traps", tot.get("traps", 0), 50000)], "C04": [("illegal words", mn.get("illegal", 0), 500000)],
                   "C08": [("wait cycles", tot.get("waits", 0), 1000000), ("acknowledges outside transfers", tot.get("stray_acks", 0), 300000),
                           ("waits of millions of cycles", tot.get("giant_waits", 0), 3)]}.get(pid, [])
        if chk.foreign and len(chk.foreign) > 0:
            floors = []     # other properties are broken; what was observed before those divergences still held
        return chk.finish(floors)
    except Inconclusive as e:
        return chk.inconclusive(e)
    finally:
        if xv.poll() is None:
            xv.kill()
