"""C20: the instruction and CSR views, as probes driven with every kind of word.

A probe component puts each accessor of sentinel.insn / sentinel.csr on a port;
native/views.cc compares them with the RISC-V encodings on every word."""
import os
import random

from .common import Check, Inconclusive, NATIVE, SEED, TIER, pool, run_json

INSN = dict(opcode=5, rd=5, funct3=3, rs1=5, rs2=5, funct7=7, funct12=12, sign=1, raw=32)
IMM = ("I", "S", "B", "U", "J")
CSRF = dict(addr=12, quadrant=2, access=2)
# Struct -> {field: (lsb, width)} (RISC-V privileged specification)
STRUCTS = {
    "MStatus": dict(mie=(3, 1), mpie=(7, 1), mpp=(11, 2)),
    "MTVec": dict(mode=(0, 2), base=(2, 30)),
    "MIP": dict(msip=(3, 1), mtip=(7, 1), meip=(11, 1)),
    "MIE": dict(msie=(3, 1), mtie=(7, 1), meie=(11, 1)),
    "MCause": dict(cause=(0, 31), interrupt=(31, 1)),
}


def machine_addrs():
    d = dict(MVENDORID=0xF11, MARCHID=0xF12, MIMPID=0xF13, MHARTID=0xF14, MCONFIGPTR=0xF15, MSTATUS=0x300, MISA=0x301, MEDELEG=0x302, MIDELEG=0x303,
             MIE=0x304, MTVEC=0x305, MCOUNTEREN=0x306, MSTATUSH=0x310, MSCRATCH=0x340, MEPC=0x341, MCAUSE=0x342, MTVAL=0x343, MIP=0x344, MTINST=0x34A,
             MTVAL2=0x34B, MENVCFG=0x30A, MENVCFGH=0x31A, MSECCFG=0x747, MSECCFGH=0x757, MCYCLE=0xB00, MINSTRET=0xB02, MCYCLEH=0xB80, MINSTRETH=0xB82,
             MCOUNTINHIBIT=0x320, TSELECT=0x7A0, TDATA1=0x7A1, TDATA2=0x7A2, TDATA3=0x7A3, MCONTEXT=0x7A8, DCSR=0x7B0, DPC=0x7B1, DSCRATCH0=0x7B2, DSCRATCH1=0x7B3)
    d.update({f"PMPCFG{i}": 0x3A0 + i for i in range(16)})
    d.update({f"PMPADDR{i}": 0x3B0 + i for i in range(64)})
    d.update({f"MHPMCOUNTER{i}": 0xB00 + i for i in range(3, 32)})
    d.update({f"MHPMCOUNTER{i}H": 0xB80 + i for i in range(3, 32)})
    d.update({f"MHPMEVENT{i}": 0x320 + i for i in range(3, 32)})
    return d


ENUMS = {
    "sentinel.csr:MachineAddr": machine_addrs(),
    "sentinel.csr:AccessMode": dict(READ_ONLY=3),
    "sentinel.csr:Quadrant": dict(UNPRIVILEGED=0, SUPERVISOR=1, HYPERVISOR=2, MACHINE=3),
    "sentinel.csr:MTVec.Mode": dict(DIRECT=0, VECTORED=1),
    "sentinel.csr:MCause.Cause": dict(INSN_MISALIGNED=0, INSN_FAULT=1, ILLEGAL_INSN=2, BREAKPOINT=3, LOAD_MISALIGNED=4, LOAD_FAULT=5, STORE_MISALIGNED=6,
                                      STORE_FAULT=7, ECALL_UMODE=8, ECALL_SMODE=9, ECALL_MMODE=11, INSN_PAGE_FAULT=12, LOAD_PAGE_FAULT=13, STORE_PAGE_FAULT=15,
                                      MSOFT_INT=3, MTIMER_INT=7, MEXT_INT=11),
    "sentinel.insn:OpcodeType": dict(OP_IMM=4, LUI=13, AUIPC=5, OP=12, JAL=27, JALR=25, BRANCH=24, LOAD=0, STORE=8, CUSTOM_0=2, MISC_MEM=3, SYSTEM=28),
    "sentinel.insn:Insn": dict(ECALL=0x73, EBREAK=0x100073, MRET=0x30200073, WFI=0x10500073),
    "sentinel.insn:Insn.CSR": dict(RW=1, RS=2, RC=3, RWI=5, RSI=6, RCI=7),
}


def check_enums(chk):
    """The numbers behind the names; every one of them reaches hardware through comparisons."""
    import importlib
    n = 0
    for path, want in ENUMS.items():
        mod, attrs = path.split(":")
        o = importlib.import_module(mod)
        for a in attrs.split("."):
            o = getattr(o, a)
        for k, v in want.items():
            n += 1
            try:
                got = getattr(o, k)
                got = int(getattr(got, "value", got))
            except AttributeError:
                chk.violation(f"{attrs}.{k}", f"{attrs}.{k} does not exist")
                continue
            if got != v:
                chk.violation(f"{attrs}.{k}", f"{attrs}.{k} is {got:#x}, the RISC-V specification says {v:#x}")
    return n


def probes():
    from amaranth import Array, C, Module, Mux, Signal, Cat, Value, signed
    from amaranth.lib import data
    from amaranth.lib.wiring import Component, In, Out
    from sentinel.insn import Insn
    import sentinel.csr as csr

    def members():
        d = {f"i_{k}": w for k, w in INSN.items()}
        d.update({f"imm_{k}": 32 for k in IMM}, imm_sign=1, imm_raw=32)
        d.update({f"csr_{k}": w for k, w in CSRF.items()})
        return d

    def sink_of(i, k):
        return Value.cast(getattr(i if k in INSN else i.imm if k in IMM else i.csr, k))

    class InsnProbe(Component):
        """style 0: a plain signal; 1: a concatenation; 2: a slice of a wider value; 3: a register; 4: an expression; 5: a signed signal;
        6: a field of a structure; 7: a multiplexer; 8: an array element; 9: a signal, with another view alive beside it"""
        def __init__(self, style):
            self.style = style
            super().__init__(dict(w=In(32), x=In(32), **{k: Out(v) for k, v in members().items()}))

        def elaborate(self, platform):
            m = Module()
            v = {0: lambda: self.w, 1: lambda: Cat(self.w[:7], self.w[7:20], self.w[20:]), 2: lambda: Cat(self.x, self.w)[32:64],
                 3: lambda: Signal(32), 4: lambda: (self.w ^ self.x) ^ self.x, 5: lambda: Signal(signed(32)),
                 6: lambda: data.View(data.StructLayout({"pad": 5, "insn": 32, "more": 9}), Cat(self.x[:5], self.w, self.x[5:14])).insn,
                 7: lambda: Mux(self.x[0] & ~self.x[0], self.x, self.w), 8: lambda: Array([self.x, self.w, self.x])[Cat(~(self.x[3] & ~self.x[3]), C(0, 1))],
                 9: lambda: self.w}[self.style]()
            if self.style == 5:
                m.d.comb += v.eq(self.w)
            if self.style == 3:
                m.d.sync += v.eq(self.w)
            other = Insn(self.x) if self.style == 9 else None
            i = Insn(v)
            if other is not None:
                last, sink = Insn(~self.x), Signal(32)
                for j in (other, last):
                    for k in (*INSN, *IMM, *CSRF):
                        m.d.comb += sink.eq(sink_of(j, k))
            for k in INSN:
                m.d.comb += getattr(self, f"i_{k}").eq(Value.cast(getattr(i, k)))
            for k in IMM:
                m.d.comb += getattr(self, f"imm_{k}").eq(getattr(i.imm, k))
            m.d.comb += [self.imm_sign.eq(i.imm.sign), self.imm_raw.eq(i.imm.raw)]
            for k in CSRF:
                m.d.comb += getattr(self, f"csr_{k}").eq(Value.cast(getattr(i.csr, k)))
            return m

    class StructProbe(Component):
        """reads every field of a word, and writes every field into a word"""
        def __init__(self):
            sig = dict(w=In(32), x=In(32))
            for s, fs in STRUCTS.items():
                for f, (lsb, wd) in fs.items():
                    sig[f"r_{s}_{f}"] = Out(wd)
                    sig[f"w_{s}_{f}"] = Out(32)
            super().__init__(sig)

        def elaborate(self, platform):
            from amaranth.lib.data import View
            m = Module()
            for s, fs in STRUCTS.items():
                T = getattr(csr, s)
                v = View(T, self.w)
                for f, (lsb, wd) in fs.items():
                    o = getattr(self, f"w_{s}_{f}")
                    m.d.comb += [getattr(self, f"r_{s}_{f}").eq(Value.cast(getattr(v, f))), o.eq(self.w)]
                    m.d.comb += Value.cast(getattr(View(T, o), f)).eq(self.x >> lsb)
            return m
    return [("insn%d" % k, (lambda k=k: InsnProbe(k)), ["INSN", f"LATENCY={int(k == 3)}"]) for k in range(10)] + [("structs", StructProbe, ["STRUCTS"])]


def bits(w, hi, lo):
    return w >> lo & ((1 << (hi - lo + 1)) - 1)


def sx(v, n):
    return (v ^ 1 << (n - 1)) - (1 << (n - 1)) & 0xFFFFFFFF


def expected(w):
    """The specification once more, for constant views."""
    return dict(opcode=bits(w, 6, 2), rd=bits(w, 11, 7), funct3=bits(w, 14, 12), rs1=bits(w, 19, 15), rs2=bits(w, 24, 20), funct7=bits(w, 31, 25),
                funct12=bits(w, 31, 20), sign=w >> 31, raw=w, I=sx(w >> 20, 12), S=sx(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12), U=w & 0xFFFFF000,
                B=sx((w >> 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1, 13),
                J=sx((w >> 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1, 21),
                addr=w >> 20, quadrant=bits(w, 29, 28), access=bits(w, 31, 30))


def check_consts(chk, rng, n):
    """Views of constants, and constants and initial values of the structures, evaluated by Amaranth's own simulator."""
    from amaranth import C, Module, Signal, Value, signed
    from amaranth.lib import data
    from amaranth.sim import Simulator
    import sentinel.csr as csr
    from sentinel.insn import Insn
    cases = []
    words = [0, 0xFFFFFFFF, 0x73, 0x100073, 0x80000000, 0x7FFFFFFF] + [rng.getrandbits(32) for _ in range(n)]
    for j, w in enumerate(words):
        i = Insn(C(w, 32) if j % 2 else C(w - (w >> 31 << 32), signed(32)))
        for k, e in expected(w).items():
            o = i if k in INSN else i.imm if k in IMM else i.csr
            cases.append((f"{k} of the constant {w:#x}", Value.cast(getattr(o, k)), e, (1 << 32) - 1))
    for s, fs in STRUCTS.items():
        T = getattr(csr, s)
        for _ in range(n):
            v = {f: rng.getrandbits(wd) for f, (lsb, wd) in fs.items() if rng.random() < .8}
            e = sum(x << fs[f][0] for f, x in v.items())
            try:
                c, g = Value.cast(T.const(v)), Signal(T, init=v)
            except ValueError:      # a field may be an enumeration without a name for that number
                continue
            cases += [(f"{s}.const({v})", c, e, (1 << 32) - 1), (f"the initial value of {s} {v}", g.as_value(), e, (1 << 32) - 1)]
            cases += [(f"{f} of {s} {v}", Value.cast(getattr(g, f)), v.get(f, 0), (1 << 32) - 1) for f in fs]
    m = Module()
    m.d.comb += Signal().eq(1)
    bad = []

    async def bench(ctx):
        for what, v, e, mask in cases:
            got = ctx.get(v) & mask
            if got != e:
                bad.append((what, got, e))
    sim = Simulator(m)
    sim.add_testbench(bench)
    sim.run()
    for what, got, e in bad[:10]:
        chk.violation("const:" + what.split(" ")[0], f"{what} is {got:#x}, expected {e:#x}")
    return len(cases)


def run(pid):
    from . import nirc
    chk = Check(pid)
    try:
        o = []
        for s, fs in STRUCTS.items():
            for f, (lsb, wd) in fs.items():
                o.append(f"F({s}_{f}, {lsb}, {wd})")
        nenum = check_enums(chk)
        open(chk.path("structs.h"), "w").write("#define FIELDS " + " ".join(o) + "\n")
        built = []
        try:
            todo = probes()
        except Exception as e:
            raise Inconclusive(f"views not found: {e!r}")
        for name, make, defs in todo:
            d = chk.path(name)
            os.mkdir(d)
            try:
                nl = nirc.elaborate(make())
            except nirc.Unsupported:
                raise
            except Exception as e:
                chk.violation(name, f"{name}: the views cannot be applied: {e!r}"[:400])
                continue
            open(os.path.join(d, "dut.h"), "w").write(nirc.Lower(nl, "dut").generate())
            built.append((name, defs, d))
        try:
            nconst = check_consts(chk, random.Random(f"const-{SEED}-{TIER}"), 200 if TIER == "quick" else 3000)
        except (ImportError, NameError, AttributeError) as e:
            raise Inconclusive(f"constant views: {e!r}")
        except Exception as e:
            nconst = 0
            chk.violation("const", f"the views cannot be applied to constants: {e!r}"[:400])
        exes = pool(lambda b: chk.compile(os.path.join(NATIVE, "views.cc"), b[0] + "/x", incs=[b[2]], defs=b[1]), built)
        rng = random.Random(f"{SEED}-{pid}-{TIER}")
        jobs = []
        for (name, defs, d), exe in zip(built, exes):
            if TIER == "thorough" and name == "insn0":
                jobs += [(name, [exe, f"from={p << 26}", f"count={1 << 26}"]) for p in range(64)]
            for _ in range(2):
                jobs.append((name, [exe, f"seed={rng.randrange(1, 1 << 40)}", f"count={20_000_000 if TIER == 'quick' else 400_000_000}"]))
        tot, broken = {}, []
        for (name, cmd), (vs, s, rc, err) in zip(jobs, pool(lambda j: run_json(j[1], 800), jobs)):
            for v in vs:
                chk.violation(name + ":" + v["msg"].split(" ")[0], f"{name}: {v['msg']}", cmd=[name] + cmd[1:])
            if s is None:
                broken.append(f"{name}: rc={rc} {err[-200:]}")
                continue
            for k, v in s.items():
                tot[k] = tot.get(k, 0) + v
        chk.evaluations, chk.distinct = tot.get("words", 0), tot.get("distinct", 0)
        chk.rule = ("Each case is one 32-bit word on which every accessor of a probe (Insn over ten kinds of Amaranth value; field reads and writes of the CSR "
                    "structures) was compared with the RISC-V encoding. Distinct: words differing in (opcode, funct3, sign, top bits) class per worker, summed.")
        chk.coverage.update(accessor_checks=tot.get("checks", 0), enumeration_members_checked=nenum, constant_views_checked=nconst, probes=[b[0] for b in built])
        chk.samples = [dict(probe=n, command=" ".join(c[1:])) for n, c in jobs[:12]]
        chk.assumptions = ["the probe's netlist is what a design using the view gets (the translator is cross-validated against Amaranth's simulator in the other checks)"]
        if not chk.violations and broken:
            raise Inconclusive("; ".join(broken[:3]))
        return chk.finish([("words", chk.evaluations, 10_000_000)] if not chk.violations else [])
    except (Inconclusive, nirc.Unsupported) as e:
        return chk.inconclusive(e)
