"""C22: the example system on chip (examples/attosoc.py), Wishbone variant.

Its memory, GPIO, timer and UART are elaborated one by one, and the whole SoC
with three programs; native/soc.cc drives bus, pins and serial lines and judges
the documented behaviour.  amaranth-soc, amaranth-boards and tabulate are not
installed: the parts the example needs are stood in for below (a memory map that
places windows, and the Wishbone decoder)."""
import importlib.util
import os
import random
import sys
import types
import warnings

from .common import Check, Inconclusive, NATIVE, REPO, SEED, TIER, pool, run_json


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment, self.next, self.windows = addr_width, data_width, alignment, 0, []

    def add_resource(self, resource, *, name, size, addr=None, alignment=None):
        return (0, size)

    def add_window(self, window):
        size = 1 << window.addr_width
        step = max(size, 1 << self.alignment)
        base = -(-self.next // step) * step
        if base + size > 1 << self.addr_width:
            raise ValueError("window does not fit")
        self.next = base + size
        self.windows.append((window, base))
        return base

    def all_resources(self):
        return []


def stubs():
    from amaranth import Module
    from amaranth.lib import wiring
    from amaranth.lib.wiring import In
    from amaranth_soc import wishbone

    class Decoder(wiring.Component):
        """One initiator, windows told apart by the upper address bits."""
        def __init__(self, *, addr_width, data_width, granularity=None, alignment=0):
            super().__init__({"bus": In(wishbone.Signature(addr_width=addr_width, data_width=data_width, granularity=granularity))})
            self.bus.memory_map = MemoryMap(addr_width=addr_width + (data_width // granularity).bit_length() - 1, data_width=granularity, alignment=alignment)
            self.subs = []
            self.lo = (data_width // granularity).bit_length() - 1

        def add(self, sub, *, name=None, addr=None, sparse=False):
            base = self.bus.memory_map.add_window(sub.memory_map)
            self.subs.append((sub, base, sub.memory_map.addr_width))
            return base, base + (1 << sub.memory_map.addr_width), 1

        def elaborate(self, platform):
            m = Module()
            for sub, base, aw in self.subs:
                hit = (self.bus.adr >> (aw - self.lo)) == base >> aw
                m.d.comb += [sub.adr.eq(self.bus.adr), sub.dat_w.eq(self.bus.dat_w), sub.sel.eq(self.bus.sel),
                             sub.we.eq(self.bus.we), sub.stb.eq(self.bus.stb), sub.cyc.eq(self.bus.cyc & hit)]
                with m.If(hit):
                    m.d.comb += [self.bus.dat_r.eq(sub.dat_r), self.bus.ack.eq(sub.ack)]
            return m

    class Any:
        """Names the example only mentions (CSR variant, boards)."""
        def __init__(self, *a, **k):
            pass

        def __init_subclass__(cls, **k):
            pass

    def mod(name, **members):
        if name not in sys.modules:
            m = types.ModuleType(name)
            m.__dict__.update(members)
            sys.modules[name] = m
        return sys.modules[name]
    wishbone.Decoder = Decoder
    access = types.SimpleNamespace(R="r", W="w", RW="rw")
    csr = mod("amaranth_soc.csr", FieldAction=Any, Register=Any, Field=Any, Builder=Any, Bridge=Any, Decoder=Any, Signature=Any, __path__=[],
              FieldPort=types.SimpleNamespace(Access=access), Element=types.SimpleNamespace(Access=access), action=types.SimpleNamespace(R=Any, W=Any, RW=Any))
    mod("amaranth_soc.csr.wishbone", WishboneCSRBridge=Any)
    mod("amaranth_soc.memory", MemoryMap=MemoryMap)
    sys.modules["amaranth_soc"].csr = csr
    mod("amaranth_boards", **{b: None for b in ("cmod_s7", "icebreaker", "icestick", "ice40_hx8k_b_evn", "arty_a7")})
    mod("tabulate", tabulate=lambda *a, **k: "")


def example():
    stubs()
    spec = importlib.util.spec_from_file_location("vt_attosoc", os.path.join(REPO, "examples", "attosoc.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def uart(a, divisor, bits):
    from amaranth import Module
    from amaranth.lib.wiring import Component, In, Out

    class U(Component):
        def __init__(self):
            self.u = a.UART(divisor=divisor, data_bits=bits)
            super().__init__(dict(rx_i=In(1), tx_data=In(bits), tx_rdy=In(1), rx_ack=In(1), tx_o=Out(1), tx_ack=Out(1), rx_data=Out(bits), rx_err=Out(1), rx_ovf=Out(1), rx_rdy=Out(1)))

        def elaborate(self, platform):
            m = Module()
            m.submodules.u = self.u
            for n, mem in self.signature.members.items():
                mine, its = getattr(self, n), getattr(self.u, n)
                m.d.comb += its.eq(mine) if mem.flow == In else mine.eq(its)
            return m
    return U()


def soc(a, rom, num_bytes):
    from amaranth import Module
    from amaranth.lib.wiring import Component, In, Out

    class S(Component):
        def __init__(self):
            self.s = a.AttoSoC(num_bytes=num_bytes, bus_type=a.BusType.WB)
            self.s.rom = rom
            super().__init__(dict(rx=In(1), pins=In(8), tx=Out(1), leds=Out(8), o=Out(8), oe=Out(8)))

        def elaborate(self, platform):
            m = Module()
            m.submodules.s = self.s
            m.d.comb += [self.s.serial.rx.eq(self.rx), self.tx.eq(self.s.serial.tx), self.leds.eq(self.s.leds.leds)]
            for i in range(8):
                m.d.comb += [self.s.leds.gpio[i].i.eq(self.pins[i]), self.o[i].eq(self.s.leds.gpio[i].o), self.oe[i].eq(self.s.leds.gpio[i].oe)]
            return m
    return S()


PRIMES = """
    li      s0,2
    lui     s1,0x2000
    li      s3,256
outer:
    addi    s0,s0,1
    blt     s0,s3,noinit
    li      s0,2
noinit:
    li      s2,2
next_int:
    bge     s2,s0,write_io
    mv      a0,s0
    mv      a1,s2
    call    prime?
    beqz    a0,not_prime
    addi    s2,s2,1
    j       next_int
write_io:
    sw      s0,0(s1)
not_prime:
    j       outer
prime?:
    li      t0,1
submore:
    sub     a0,a0,a1
    bge     a0,t0,submore
    ret
"""
# pins -> outputs, bitwise inverted, with every second output enabled; bytes, halfwords and words through RAM
PINS = """
    lui     s1,0x2000
    li      t0,0x55
    sw      t0,8(s1)
    li      s2,0x200
loop:
    lbu     t1,4(s1)
    xori    t1,t1,0xff
    sb      t1,0(s2)
    sh      t1,6(s2)
    lw      t2,4(s2)
    srli    t2,t2,16
    lbu     t3,0(s2)
    xor     t2,t2,t3
    or      t1,t1,t2
    sw      t1,4(s1)
    j       loop
"""
# interrupt driven: timer ticks counted on the LEDs, each received byte sent back plus one (the timer is read only
# when it must be the one that interrupts: a read with no interrupt pending can swallow a tick, see known_findings.txt)
ECHO = """
    j       start
    nop
    nop
    nop
handler:
    lui     s1,0x2000
    lui     s2,0x40000
    lui     s3,0x80000
    lbu     t1,4(s3)
    beqz    t1,timer
    andi    t1,t1,1
    beqz    t1,done
    lbu     t2,0(s3)
    addi    t2,t2,1
    sb      t2,0(s3)
    j       done
timer:
    lbu     t0,0(s2)
    beqz    t0,done
    addi    s4,s4,1
    sw      s4,0(s1)
done:
    dw      0x30200073  # mret
start:
    li      s4,0
    li      t0,16
    dw      0x30529073  # csrw mtvec, t0
    li      t0,0x800
    dw      0x30429073  # csrw mie, t0
    li      t0,8
    dw      0x30029073  # csrw mstatus, t0
idle:
    addi    s5,s5,1
    j       idle
"""


def run(pid):
    from . import nirc
    warnings.simplefilter("ignore")
    chk = Check(pid)
    thorough = TIER == "thorough"
    try:
        a = example()
        rng = random.Random(f"{SEED}-{pid}-{TIER}")
        todo = []

        def mem(size, init):
            m = a.WBMemory(num_bytes=size)
            if init:
                m.init = init
            return m
        for size in (0x400, 0x1000, 0x40, 0x60):
            init = [rng.getrandbits(32) for _ in range(rng.choice((0, 1, size // 8, size // 4)))]
            hdr = f"enum {{ DEPTH = {size // 4}, NINIT = {len(init)} }}; static const unsigned INIT[] = {{{','.join(map(str, init + [0]))}}};\n"
            todo.append(("MEM", f"WBMemory({size})", lambda size=size, init=init: mem(size, init), hdr))
        todo.append(("LEDS", "WBLeds", lambda: a.WBLeds(), ""))
        todo.append(("TIMER", "WBTimer", lambda: a.WBTimer(), ""))
        todo.append(("SERIAL", "WBSerial", lambda: a.WBSerial(), ""))
        for d, b in ((4, 8), (5, 7), (16, 8), (104, 8), (37, 9), (rng.randrange(6, 60), 5)):
            todo.append(("UART", f"UART({d},{b})", lambda d=d, b=b: uart(a, d, b), f"enum {{ DIV = {d}, BITS = {b} }};\n"))
        for k, (n, src) in enumerate((("primes", PRIMES), ("pins", PINS), ("echo", ECHO))):
            todo.append(("SOC", f"AttoSoC[{n}]", lambda src=src: soc(a, src, 0x400), f"#define SOC_{n.upper()}\n"))
        built = []
        for i, (sec, name, make, hdr) in enumerate(todo):
            d = chk.path(f"b{i}")
            os.mkdir(d)
            try:
                nl = nirc.elaborate(make())
            except nirc.Unsupported:
                raise
            except Exception as e:
                chk.violation(f"{name}-elaborate", f"{name}: cannot be elaborated: {e!r}")
                continue
            open(os.path.join(d, "dut.h"), "w").write(nirc.Lower(nl, "dut").generate())
            open(os.path.join(d, "par.h"), "w").write(f"#define SOCN \"{name}\"\n" + hdr)
            built.append((i, sec, name, d))
        exes = pool(lambda b: chk.compile(os.path.join(NATIVE, "soc.cc"), f"b{b[0]}/x", incs=[b[3]], defs=[f"B_{b[1]}"]), built)
        lim = 600 if thorough else 100
        size = {"MEM": (4000, 400), "LEDS": (6000, 300), "TIMER": (40, 1_000_000), "SERIAL": (12, 3_000_000), "UART": (300, 40_000), "SOC": (6, 1_500_000)}
        jobs = []
        for (i, sec, name, d), exe in zip(built, exes):
            n, length = size[sec]
            for _ in range(8 if thorough else 1):
                jobs.append((name, [exe, f"episodes={n * (3 if thorough else 1)}", f"len={length}", f"seed={rng.randrange(1, 1 << 40)}", f"maxsec={lim}"]))
        broken, per = [], {}
        for (name, cmd), (vs, s, rc, err) in zip(jobs, pool(lambda j: run_json(j[1], lim + 60), jobs)):
            for v in vs:
                chk.violation(v.get("key") or v["msg"].split(":")[0] + ":" + v["msg"].split(":")[1][:30], v["msg"], component=name, cmd=[name] + cmd[1:])
            if s is None or s.get("timeout"):
                broken.append(f"{name}: rc={rc} {err[-300:] if s is None else 'time limit'}")
                continue
            r = per.setdefault(name, {})
            for k, v in s.items():
                if not isinstance(v, bool) and k != "violations":
                    r[k] = r.get(k, 0) + v
        chk.evaluations = sum(r["evals"] for r in per.values())
        chk.distinct = sum(r["distinct"] for r in per.values())
        chk.coverage.update(components=per, workers=len(jobs))
        chk.samples = [dict(component=n, command=" ".join(c[1:])) for n, c in jobs[:8]]
        chk.rule = ("Each case is one judged event: a bus transfer completed, a pin or interrupt level compared, a serial bit timed, a byte sent or received. "
                    "Distinct: (address, lanes, direction, spacing) of transfers, data bytes, phases of reads against the timer, per component and worker, summed.")
        chk.assumptions = ["initiators follow the Wishbone rules (request held until ACK)", "the Wishbone decoder and memory map of amaranth-soc are stood in for (lib/vt/soc.py); the CSR-bus variant cannot be built offline",
                           "serial line rate within the tolerance centre sampling allows; no overrun unless stated"]
        floors = [(n, per.get(n, {}).get("evals", 0), 1000 if sec == "SERIAL" else 200 if sec == "SOC" else 5000) for sec, n, *_ in todo if not any(v["key"].startswith(n) for v in chk.unlisted())]
        fresh = chk.unlisted()
        if not fresh and broken:
            raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        return chk.finish(floors if not fresh else [])
    except (Inconclusive, nirc.Unsupported) as e:
        return chk.inconclusive(e)
