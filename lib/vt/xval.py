"""Cross-validation of the compiled model against Amaranth's own simulator on
the same stimulus: the monitors must be watching the real design."""
import random
import struct
import subprocess
import sys
import os

from .common import setup_path, NATIVE


def port(top, name):
    o = top
    for p in name.split("__"):
        o = getattr(o, p)
    return o


def batch_driver(L, nl, src):
    ins = [n for n in L.top_in if n != "clk"]
    outs = list(nl.top.ports_o)
    return ins, outs, (src + '\n#include <stdio.h>\nint main(int c,char**v){static dut_t S;dut_init(&S);FILE*f=fopen(v[1],"rb"),*g=fopen(v[2],"wb");'
        f"uint64_t b[{len(ins)}],o[{len(outs)}];while(fread(b,8,{len(ins)},f)=={len(ins)}){{"
        + "".join(f"S.i_{n}=b[{i}];" for i, n in enumerate(ins)) + "dut_eval(&S);"
        + "".join(f"o[{i}]=S.o_{n};" for i, n in enumerate(outs)) + f"fwrite(o,8,{len(outs)},g);dut_tick(&S);}}return 0;}}")


def xval(which, cycles, seed, wd, resets=True):
    """Return (mismatches, distinct output vectors, first mismatch text)."""
    setup_path()
    from . import nirc
    from amaranth.sim import Simulator
    from amaranth import Module, ClockDomain, Signal
    if which == "top":
        from sentinel.top import Top as T
    else:
        from sentinel.formal import FormalTop as T
    nl = nirc.elaborate(T())
    L = nirc.Lower(nl, "dut")
    ins, outs, src = batch_driver(L, nl, L.generate())
    c = os.path.join(wd, f"xv_{which}.c")
    exe = c[:-2]
    open(c, "w").write(src)
    subprocess.check_call(["gcc", "-O1", "-w", c, "-o", exe])
    top = T()
    m = Module()
    m.submodules.t = top
    rst = Signal()
    cd = ClockDomain("sync")
    m.domains += cd
    m.d.comb += cd.rst.eq(rst)
    sim = Simulator(m)
    sim.add_clock(1e-6)
    rng = random.Random(seed)
    rec, outv = [], []
    osig = [port(top, n) for n in outs]
    isig = {n: port(top, n) for n in ins if n != "rst"}
    base = [0x13, 0x33, 0x73, 0x63, 0x6f, 0x67, 0x03, 0x23, 0x37, 0x17, 0x0f]

    async def tb(ctx):
        was = 0
        for i in range(cycles):
            v = {n: 0 for n in ins}
            v["irq"] = int(rng.random() < .3)
            v["rst"] = int(resets and rng.random() < .004)
            v["bus__ack"] = int(was and rng.random() < .7)
            x = rng.getrandbits(32)
            k = rng.random()
            if k < .6:
                x = (x & 0x01ffffff) | rng.getrandbits(7) << 25
                op = rng.choice([0x13, 0x13, 0x33, 0x37, 0x17, 0x6f, 0x63, 0x23, 0x03, 0x73])
                x = (x & ~0x7f) | op
                if op == 0x33 or op == 0x13 and (x >> 12) & 3 == 1:
                    x &= 0x01ffffff
                if op == 0x73:
                    x = (x & 0xfffff) | rng.choice([0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344, 0xf11]) << 20
                if op == 0x23 or op == 0x03:
                    x &= ~(3 << 13)
                    if rng.random() < .5:
                        x &= ~(7 << 12)
                if op == 0x6f:
                    x &= ~(1 << 21)
            elif k < .95:
                x = (x & ~0x7f) | rng.choice(base)
            v["bus__dat_r"] = x
            for n in ins:
                if n != "rst":
                    ctx.set(isig[n], v[n])
            ctx.set(rst, v["rst"])
            await ctx.delay(1e-9)
            o = [int(ctx.get(s)) for s in osig]
            was = o[outs.index("bus__cyc")]
            rec.append([v[n] for n in ins])
            outv.append(o)
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    fi, fo = os.path.join(wd, f"xv_{which}.in"), os.path.join(wd, f"xv_{which}.out")
    open(fi, "wb").write(b"".join(struct.pack(f"<{len(ins)}Q", *r) for r in rec))
    subprocess.check_call([exe, fi, fo])
    d = open(fo, "rb").read()
    k = len(outs)
    bad, first = 0, ""
    for i in range(cycles):
        o = [x & ((1 << 64) - 1) for x in struct.unpack_from(f"<{k}Q", d, i * 8 * k)]
        e = [x & ((1 << 64) - 1) for x in outv[i]]
        if o != e:
            bad += 1
            if not first:
                first = f"cycle {i}: " + ", ".join(f"{n} compiled={a:x} simulator={b:x}" for n, a, b in zip(outs, o, e) if a != b)
    return bad, len(set(map(tuple, outv))), first


if __name__ == "__main__":
    bad, dist, first = xval(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[1] == "top")
    print(f"{bad} {dist} {first}")
