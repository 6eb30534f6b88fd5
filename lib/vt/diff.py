"""Differential checks C10, C14 and C15: the core against itself under another
timing, another configuration, or a gated clock."""
import os
import random

from .common import Check, Inconclusive, NATIVE, SEED, TIER, pool, run_json
from . import lock


def runjobs(chk, exe, jobs, timeout):
    rng = random.Random(f"{SEED}-{chk.pid}-{TIER}")
    cmds = [[exe] + j + [f"seed={rng.randrange(1, 1 << 40)}", f"maxsec={timeout}"] for j in jobs]
    tot, broken = {}, []
    for cmd, (vs, s, rc, err) in zip(cmds, pool(lambda c: run_json(c, timeout + 60), cmds)):
        rel = [os.path.basename(cmd[0])] + cmd[1:]
        for v in vs:
            chk.violation(v["msg"].split(":")[0][:80], v["msg"], cmd=rel, detail=v)
        if s is None:
            broken.append(f"{' '.join(rel)}: rc={rc} {err[-300:]}")
            continue
        if s.get("timeout"):
            broken.append(f"{' '.join(rel)}: time limit")
        for k, v in s.items():
            if isinstance(v, int) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
    chk.coverage.update({k: v for k, v in tot.items() if k not in ("violations", "distinct")}, workers=len(jobs))
    chk.samples = [dict(options=" ".join(j)) for j in jobs[:6]]
    return tot, broken


def emit(chk, top, prefix, fname):
    from . import nirc
    nl = nirc.elaborate(top)
    src = nirc.Lower(nl, prefix).generate()
    src = src.replace("typedef unsigned __int128 u128;", "#ifndef VT_U128\n#define VT_U128\ntypedef unsigned __int128 u128;\n#endif")
    # tables are file-scope: keep the instances' apart
    import re
    src = re.sub(r"\bT(\d+)\[", rf"T_{prefix}\1[", src)
    open(chk.path(fname), "w").write(src)
    return nl


def timing(chk):
    from sentinel.top import Top
    emit(chk, Top(), "dut", "dut.h")
    exe = chk.compile(os.path.join(NATIVE, "timing.cc"), "timing")
    k = 8 if TIER == "quick" else 60
    jobs = [[f"episodes={n * k}", f"len={l}"] for n, l in ((700, 2000),) * 8 + ((5000, 150),) * 4 + ((60, 20000),) * 4] + [["episodes=2", "len=%d" % (300_000 if k < 60 else 3_000_000)]] * 3 + [[f"episodes={k}", "len=1000", "huge=1"]] * 2
    tot, broken = runjobs(chk, exe, jobs, 400 if TIER == "quick" else 700)
    chk.evaluations, chk.distinct = tot.get("compared", 0), tot.get("distinct", 0)
    chk.rule = ("Each case is one completed transfer of an instance with random waits and noise compared with the same transfer of the one-wait "
                "quiet instance (three instances against one per program). Distinct: (fetched opcode, funct3, CSR number, interrupt mode, wait profile) per worker, summed.")
    return broken, [("transfers compared", chk.evaluations, 3_000_000), ("stores", tot.get("stores", 0), 50_000), ("long waits", tot.get("w6plus", 0), 100_000)]


def transparency(chk):
    from sentinel.top import Top
    from sentinel.formal import FormalTop
    emit(chk, Top(), "pa", "a.h")
    emit(chk, Top(formal=True), "pb", "b.h")
    emit(chk, FormalTop(), "pc", "c.h")
    exe = chk.compile(os.path.join(NATIVE, "sidebyside.cc"), "sidebyside")
    k = 8 if TIER == "quick" else 60
    jobs = [[f"episodes={n * k}", f"len={l}"] + x for n, l, x in ((250, 8000, []),) * 4 + ((8, 260000, ["mode=0"]),) * 6 + ((60, 30000, ["mode=0"]),) * 2 + ((2500, 400, []),) * 4] + [["episodes=4", "len=%d" % (1_500_000 if k < 60 else 6_000_000)] + x for x in ([], ["mode=0"], ["mode=0"])] + [[f"episodes={k}", "len=2000000", "mode=0", "huge=1"]]
    tot, broken = runjobs(chk, exe, jobs, 400 if TIER == "quick" else 700)
    chk.evaluations, chk.distinct = tot.get("cycles", 0), tot.get("distinct", 0)
    chk.rule = ("Each case is one clock cycle on which all bus outputs of Top, Top(formal=True) and FormalTop were compared under identical inputs. "
                "Distinct: (fetched opcode, funct3, CSR number, interrupt level, mode) per worker, summed.")
    return broken, [("cycles", chk.evaluations, 5_000_000), ("acknowledges", tot.get("acks", 0), 500_000), ("resets", tot.get("resets", 0), 5_000)]


def clken(chk):
    from amaranth import Module, EnableInserter, ResetInserter
    from amaranth.lib.wiring import Component, In, Out, connect, flipped
    from sentinel.top import Top
    bus = Top().signature.members["bus"].signature

    class Wrap(Component):
        def __init__(self, order):
            self.order = order
            sig = dict(bus=Out(bus), irq=In(1), en=In(1))
            if "r" in order:
                sig["srst"] = In(1)
            super().__init__(sig)

        def elaborate(self, platform):
            m = Module()
            cpu = Top()
            t = cpu
            for c in self.order:
                t = EnableInserter(self.en)(t) if c == "e" else ResetInserter(self.srst)(t)
            m.submodules.cpu = t
            connect(m, cpu.bus, flipped(self.bus))
            m.d.comb += cpu.irq.eq(self.irq)
            return m

    emit(chk, Top(), "pa", "a.h")
    for p, o in (("b", "e"), ("c", "re"), ("d", "er")):
        emit(chk, Wrap(o), "p" + p, p + ".h")
    exe = chk.compile(os.path.join(NATIVE, "clken.cc"), "clken")
    k = 8 if TIER == "quick" else 60
    jobs = [[f"episodes={n * k}", f"len={l}"] for n, l in ((300, 6000),) * 8 + ((40, 40000),) * 4 + ((3000, 300),) * 4] + [["episodes=4", "len=%d" % (1_500_000 if k < 60 else 6_000_000)]] * 3 + [[f"episodes={k}", "len=2000000", "huge=1"]]
    tot, broken = runjobs(chk, exe, jobs, 400 if TIER == "quick" else 700)
    chk.evaluations, chk.distinct = tot.get("enabled", 0), tot.get("distinct", 0)
    chk.rule = ("Each case is one enabled clock cycle on which the bus outputs of three gated cores (enable; reset inside enable; enable inside reset) were "
                "compared with an ungated core stepped only then. Distinct: (fetched opcode, funct3, CSR number, interrupt level, enable pattern) per worker, summed.")
    return broken, [("enabled cycles", chk.evaluations, 2_000_000), ("enable edges", tot.get("toggles", 0), 500_000), ("resets", tot.get("resets", 0), 1_000)]


FN = {"C10": timing, "C14": transparency, "C15": clken}


def run(pid):
    chk = Check(pid)
    xv = [lock.start_xval(chk, w, 1500) for w in (("top", "formal") if pid == "C14" else ("top",))]
    try:
        broken, floors = FN[pid](chk)
        chk.assumptions = ["peripherals acknowledge no earlier than the second cycle of a transfer and never outside one" + ("" if pid != "C14" else " (one mode; two others drop it)"),
                           "the netlist Amaranth emits is the design (cross-validated here against Amaranth's simulator)"]
        if not chk.violations:
            for x in xv:
                lock.end_xval(chk, x)
            if broken:
                raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        return chk.finish(floors)
    except Inconclusive as e:
        return chk.inconclusive(e)
    finally:
        for x in xv:
            if x.poll() is None:
                x.kill()
