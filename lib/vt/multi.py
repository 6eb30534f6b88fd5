"""C21: several cores in one process and one design, against lone cores.

The reference for each kind of core is elaborated by a fresh Python process that
builds nothing else; the judged design is built after a random history of other
Sentinel objects, holds several cores of mixed kinds, and is stepped beside one
lone core per instance (native/multi.cc). A few designs are also run in Amaranth's
own simulator, where cores could share more than the netlist shows."""
import io
import os
import random
import subprocess
import sys
import tempfile
from pathlib import Path

from .common import Check, Inconclusive, NATIVE, PY, SEED, TIER, VERIF, pool, run_json, setup_path

KINDS = ("top", "formal", "formaltop")


def make(kind):
    from sentinel.top import Top
    if kind == "formaltop":
        from sentinel.formal import FormalTop
        return FormalTop()
    return Top(formal=True) if kind == "formal" else Top()


class Emit:
    """emit() wants an object with path()."""
    def __init__(self, d):
        self.d = d

    def path(self, f):
        return os.path.join(self.d, f)


def ref(d, kind):
    setup_path()
    from .diff import emit
    emit(Emit(d), make(kind), f"l_{kind}", f"l_{kind}.h")


def flat(core):
    from amaranth.lib import wiring
    from amaranth.hdl import Value
    out = []
    for path, member, value in core.signature.flatten(core):
        out.append(("__".join(map(str, path)), member.flow == wiring.In, Value.cast(value)))
    return out


SRC = """space block_ram: width 48, size 256;

space block_ram;
origin 0;

fields block_ram: {
  foo: width 8, origin 0, default 0;
  bar: bool, origin 8, default 0;
  baz: bool, origin 9, default 0;
};

foo => 0;
bar => 1;
baz => 1;
"""


def history(rng, n, crowded=False, first=()):
    """Objects a program may create before, and between, its cores."""
    from amaranth import C, Elaboratable, Module, Signal, unsigned
    from amaranth.hdl import Fragment
    from sentinel.alu import ALU
    from sentinel.control import Control, MappingROM, Sequencer
    from sentinel.decode import Decode
    from sentinel.datapath import DataPath, RegFile, CSRFile
    from sentinel.exception import ExceptionRouter
    from sentinel.formal import FormalTop
    from sentinel.top import Top
    from sentinel.ucoderom import UCodeROM
    from sentinel.gen import generate
    from sentinel.insn import Insn

    def src():      # the shipped microcode or a different one, as text or as a file of the same name
        t = UCodeROM.main_microcode_file().read_text()
        if rng.random() < .7:
            t = t.replace("alu_op => and", "alu_op => or").replace("alu_op => cmp_ltu", "alu_op => xor")
        if rng.random() < .5:
            return io.StringIO(t)
        p = Path(tempfile.mkdtemp(dir=os.getcwd())) / "microcode.asm"
        p.write_text(t)
        return p

    def alu():
        Fragment.get(ALU(rng.choice((4, 8, 16, 40))), None)

    def other():
        c = rng.choice((Decode, lambda: Decode(formal=True), DataPath, lambda: DataPath(formal=True), lambda: RegFile(formal=False), CSRFile, ExceptionRouter, MappingROM))()
        if rng.random() < .5:
            Fragment.get(c, None)

    def rf():
        RegFile(formal=True)

    def ctl():
        c = Control(ucode=src())
        if rng.random() < .5:
            Fragment.get(c, None)

    def rom():
        d = Path(tempfile.mkdtemp(dir=os.getcwd()))
        UCodeROM(main_file=src(), **(dict(hex=d / "h", field_defs=d / "f") if rng.random() < .5 else {}))

    def tiny():
        UCodeROM(main_file=io.StringIO(SRC), field_map={"foo": unsigned(8), "bar": unsigned(1), "baz": unsigned(1)})

    def reject():       # sources and maps that are refused must leave nothing behind
        for kind in rng.sample(range(7), rng.randrange(1, 5)):
            refuse(kind)

    def refuse(kind):
        ok = {"foo": unsigned(8), "bar": unsigned(1), "baz": unsigned(1)}
        t, fm = SRC, dict(ok)
        if kind == 0:
            fm["foo"] = unsigned(rng.choice((7, 9)))
        elif kind == 1:
            del fm[rng.choice(sorted(fm))]
        elif kind == 2:
            t += "\nspace second: width 8, size 16;\nspace second;\norigin 0;\nfields second: {\n  qux: width 8, origin 0, default 0;\n};\nqux => 1;\n"
            fm["qux"] = unsigned(8)
        elif kind == 3:
            t += rng.choice(("\nnosuch => 1;\n", "\n%% nonsense\n", "\nfoo => bar => 1\n"))
        elif kind == 4:         # the shipped source with a field its map calls by another width
            t, fm = UCodeROM.main_microcode_file().read_text().replace("target: width 8", "target: width 9"), None
        elif kind == 5:
            t, fm = SRC, None   # the standard map, which knows none of these fields
        else:
            t, fm = SRC, dict(ok, foo=ExceptionRouter)
        try:
            if kind == 5 and rng.random() < .5:
                Control(ucode=io.StringIO(t))
            else:
                d = Path(tempfile.mkdtemp(dir=os.getcwd()))
                UCodeROM(main_file=io.StringIO(t), field_map=fm, **(dict(hex=d / "h", field_defs=d / "f") if rng.random() < .5 else {}))
        except Exception:
            pass

    def top():
        t = rng.choice((lambda: Top(), lambda: Top(formal=True), lambda: FormalTop()))()
        if rng.random() < .6:
            Fragment.get(t, None)

    def sim():
        from amaranth.sim import Simulator
        t = Top()
        s = Simulator(t)
        s.add_clock(1e-6)

        async def p(ctx):
            await ctx.tick().repeat(rng.randrange(3, 30))
        s.add_testbench(p)
        s.run()

    def gen():
        import contextlib
        old = sys.argv
        sys.argv = ["gen", "-n", rng.choice(("other", "cpu"))] + (["-f"] if rng.random() < .5 else [])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                generate()
        finally:
            sys.argv = old

    def abandon():  # built in part, used directly, or failed half-way
        for k in rng.sample(range(6), rng.randrange(1, 4)):
            try:
                if k == 0:
                    rng.choice((Top, FormalTop, DataPath, Control, Decode))().elaborate(None)
                elif k == 1:
                    class Bad(Elaboratable):
                        def elaborate(self, platform):
                            raise RuntimeError("as intended")
                    m = Module()
                    m.submodules.a = make(rng.choice(KINDS))
                    m.submodules.b = Bad()
                    Fragment.get(m, None)
                elif k == 2:
                    for _ in range(rng.randrange(1, 60)):
                        i = Insn(rng.choice((Signal(32), C(rng.getrandbits(32), 32), Signal(40)[3:35])))
                        [getattr(i, a) for a in ("opcode", "rd", "rs1", "funct12", "sign")], i.imm.J, i.imm.B, i.csr.quadrant
                elif k == 3:
                    import contextlib
                    old, sys.argv = sys.argv, ["gen"] + rng.choice((["-n"], ["--no-such"], ["-o", "/nonexistent/dir/x.v"], ["-h"]))
                    try:
                        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                            generate()
                    finally:
                        sys.argv = old
                elif k == 4:
                    from amaranth.back import verilog
                    t = rng.choice((Top, ExceptionRouter, Decode))()
                    verilog.convert(t, name=rng.choice(("top", "other", "x")))
                else:
                    t = Top()
                    repr(t), repr(t.signature), str(t.bus.signature), [x for x in t.signature.flatten(t)], t.bus.memory_map if hasattr(t.bus, "memory_map") else 0
            except (Exception, SystemExit):
                pass

    def many():     # enough of one kind to fill any table or counter of small size
        f = rng.choice((Decode, lambda: ALU(32), lambda: DataPath(formal=True), CSRFile, ExceptionRouter, MappingROM))
        keep = [f() for _ in range(rng.randrange(20, 400))]
        if rng.random() < .5:
            for c in keep[:30]:
                Fragment.get(c, None)

    def crowd():    # cores made and dropped, or kept, before the judged ones
        keep = []
        for _ in range(rng.randrange(12, 40)):
            keep.append(make(rng.choice(KINDS)))
            if rng.random() < .4:
                keep.pop(rng.randrange(len(keep)))

    table = dict(alu=alu, other=other, regfile=rf, control=ctl, rom=rom, tiny=tiny, top=top, sim=sim, gen=gen, many=many, reject=reject, abandon=abandon)
    done = []
    todo = list(first) + [rng.choice(sorted(table)) for _ in range(n)]
    rng.shuffle(todo)
    if crowded:
        table["crowd"] = crowd
        todo.insert(0, "crowd")
    for k in todo:
        try:
            table[k]()
            done.append(k)
        except Exception as e:      # other objects are not this property's business
            done.append(f"{k}({type(e).__name__})")
    return done


HISTORIES = ("abandon", "alu", "control", "gen", "many", "other", "regfile", "reject", "rom", "sim", "tiny", "top")


def build(rng, ncores, kinds=None, crowded=False, first=()):
    """The judged design: (component, [(kind, style)], history)."""
    from amaranth import ClockDomain, ClockSignal, DomainRenamer, Module, ResetInserter, ResetSignal
    from amaranth.lib.wiring import Component, In, Out
    hist = history(rng, rng.randrange(1, 6), crowded, first) if rng else []
    spec, cores = [], []
    for k in range(ncores):
        if kinds:
            spec.append(kinds[k])
            cores.append(make(kinds[k][0]))
            continue
        kind = "formaltop" if rng.random() < .2 else "formal" if rng.random() < .25 else "top"
        style = rng.choice(("plain", "plain", "domain", "nested"))
        spec.append((kind, style))
        cores.append(make(kind))
        if rng.random() < .4:
            hist += ["between:" + h for h in history(rng, 1)]
    ports = [flat(c) for c in cores]

    class Nest(Component):
        def __init__(self, inner):
            self.inner = inner
            super().__init__({})

        def elaborate(self, platform):
            m = Module()
            m.submodules.cpu = self.inner
            return m

    class Many(Component):
        def __init__(self):
            sig = {}
            for k, ps in enumerate(ports):
                sig[f"srst{k}"] = In(1)
                for n, isin, v in ps:
                    sig[f"c{k}_{n}"] = (In if isin else Out)(len(v))
            super().__init__(sig)

        def elaborate(self, platform):
            m = Module()
            for k, ((kind, style), core) in enumerate(zip(spec, cores)):
                rst = getattr(self, f"srst{k}")
                if style == "domain":
                    d = f"dom{k}"
                    m.domains += ClockDomain(d)
                    m.d.comb += [ClockSignal(d).eq(ClockSignal("sync")), ResetSignal(d).eq(rst)]
                    m.submodules[f"cpu{k}"] = DomainRenamer(d)(core)
                elif style == "nested":
                    m.submodules[f"nest{k}"] = ResetInserter(rst)(Nest(core))
                else:
                    m.submodules[f"cpu{k}"] = ResetInserter(rst)(core)
                for n, isin, v in ports[k]:
                    p = getattr(self, f"c{k}_{n}")
                    m.d.comb += v.eq(p) if isin else p.eq(v)
            return m
    return Many(), spec, hist, [[(n, isin, len(v)) for n, isin, v in ps] for ps in ports]


def header(spec, ports, kinds):
    o = ['#include "%s.h"' % k for k in ["m"] + ["l_" + k for k in kinds]]
    o.append(f"enum {{ NC = {len(spec)} }};")
    st = [f"static l_{k}_t L{i};" for i, (k, _) in enumerate(spec)]
    o += ["static m_t M;"] + st
    o.append("static void all_init() { m_init(&M); " + " ".join(f"l_{k}_init(&L{i});" for i, (k, _) in enumerate(spec)) + " }")
    o.append("static void all_eval() { m_eval(&M); " + " ".join(f"l_{k}_eval(&L{i});" for i, (k, _) in enumerate(spec)) + " }")
    o.append("static void all_tick() { m_tick(&M); " + " ".join(f"l_{k}_tick(&L{i});" for i, (k, _) in enumerate(spec)) + " }")
    o.append("static void dicts() { dict_load(m_dict, m_ndict); " + " ".join(f"dict_load(l_{k}_dict, l_{k}_ndict);" for k in kinds) + " }")
    o.append("static void drive(int k, u32 rst, u32 irq, u32 ack, u32 d) { switch (k) {")
    for i in range(len(spec)):
        o.append(f"case {i}: M.i_srst{i} = L{i}.i_rst = rst; M.i_c{i}_irq = L{i}.i_irq = irq; M.i_c{i}_bus__ack = L{i}.i_bus__ack = ack; "
                 f"M.i_c{i}_bus__dat_r = L{i}.i_bus__dat_r = d; break;")
    o.append("} }")
    o.append("struct Diff { const char *what; u64 x, y; };")
    o.append("static Diff compare(int k) { switch (k) {")
    for i, ps in enumerate(ports):
        o.append(f"case {i}:")
        o += [f'  if (M.o_c{i}_{n} != L{i}.o_{n}) return {{"{n}", (u64)M.o_c{i}_{n}, (u64)L{i}.o_{n}}};' for n, isin, w in ps if not isin]
        o.append("  break;")
    o.append("} return {0, 0, 0}; }")
    o.append("struct Bus { u32 cyc, stb, we, sel, dat_w; u64 adr; };")
    o.append("static Bus bus(int k) { switch (k) {")
    for i in range(len(spec)):
        o.append(f"case {i}: return {{L{i}.o_bus__cyc, L{i}.o_bus__stb, L{i}.o_bus__we, L{i}.o_bus__sel, L{i}.o_bus__dat_w, L{i}.o_bus__adr}};")
    o.append("} return {}; }")
    o.append("static const char *kindname[] = {" + ", ".join(f'"{k} ({s})"' for k, s in spec) + "};")
    return "\n".join(o) + "\n"


def one(n, seed, refdir, d):
    """Build design n (each in its own process: histories must not mix)."""
    setup_path()
    from .diff import emit
    os.chdir(d)
    rng = random.Random(seed)
    top, spec, hist, ports = build(rng, rng.randrange(2, 6), crowded=n % 8 in (0, 1), first=[HISTORIES[(3 * n + i) % len(HISTORIES)] for i in range(3)])
    emit(Emit(d), top, "m", "m.h")
    kinds = sorted({k for k, _ in spec})
    open(os.path.join(d, "multi.h"), "w").write(header(spec, ports, kinds))
    import json
    print(json.dumps(dict(spec=spec, history=hist)))


def stim(rng):
    """One core's inputs: a generator taking (cyc, we, sel) seen, giving (rst, irq, ack, dat_r)."""
    was, wait, irqp = False, .4 * rng.random(), rng.choice((0, .05, .5))
    cyc = yield
    while True:
        rst = rng.random() < .004
        k = rng.random()
        r = lambda: rng.randrange(8)
        if k < .3:
            w = rng.getrandbits(12) << 20 | r() << 15 | rng.choice((0, 2, 3, 4, 6, 7)) << 12 | r() << 7 | 0x13
        elif k < .4:
            w = rng.getrandbits(20) << 12 | r() << 7 | rng.choice((0x37, 0x17))
        elif k < .55:
            w = r() << 20 | r() << 15 | rng.randrange(8) << 12 | r() << 7 | 0x33
        elif k < .75:
            w = r() << 20 | 2 << 12 | rng.randrange(32) << 7 & ~0x180 | 0x23      # sw rX, n(x0)
        elif k < .85:
            w = rng.choice((0x300, 0x304, 0x305, 0x340, 0x341, 0x342)) << 20 | r() << 15 | rng.choice((1, 2, 3, 5, 6)) << 12 | r() << 7 | 0x73
        else:
            w = rng.getrandbits(32)
        ack = was and rng.random() >= wait
        cyc = yield int(rst), int(rng.random() < irqp), int(ack), w
        was = bool(cyc) and not ack and not rst


def play(top, ports, seeds, cycles):
    """Amaranth's own simulator; outputs of every core on every cycle."""
    from amaranth.sim import Simulator
    s = Simulator(top)
    s.add_clock(1e-6)
    gens = [stim(random.Random(x)) for x in seeds]
    for g in gens:
        next(g)
    rec = [[] for _ in seeds]

    async def tb(ctx):
        cyc = [0] * len(seeds)
        for _ in range(cycles):
            for k, ps in enumerate(ports):
                rst, irq, ack, d = gens[k].send(cyc[k])
                ctx.set(getattr(top, f"srst{k}"), rst)
                for n, v in (("irq", irq), ("bus__ack", ack), ("bus__dat_r", d)):
                    ctx.set(getattr(top, f"c{k}_{n}"), v)
            for k, ps in enumerate(ports):
                rec[k].append([ctx.get(getattr(top, f"c{k}_{n}")) for n, isin, w in ps if not isin])
                cyc[k] = ctx.get(getattr(top, f"c{k}_bus__cyc"))
            await ctx.tick()
    s.add_testbench(tb)
    s.run()
    return rec


def simone(n, seed, cycles):
    """A design of several cores, or ((kind, style) in place of n) one core alone, simulated.
    (Same style for both: the simulator, unlike the netlist, clears a disabled read port's
    output when the domain's own reset is used.)"""
    import json
    import pickle
    setup_path()
    os.chdir(tempfile.mkdtemp(dir=os.getcwd()))
    if not isinstance(n, int):
        top, spec, hist, ports = build(None, 1, kinds=[n])
        seeds = [seed]
    else:
        rng = random.Random(seed)
        top, spec, hist, ports = build(rng, rng.randrange(2, 5))
        seeds = [f"{seed}/{k}" for k in range(len(spec))]
    rec = play(top, ports, seeds, cycles)
    names = [[p for p, isin, w in ps if not isin] for ps in ports]
    with open("rec", "wb") as f:
        pickle.dump((names, rec), f)
    print(json.dumps(dict(spec=spec, history=hist, seeds=seeds, rec=os.path.abspath("rec"))))


def simulated(chk, nd, cycles):
    """Cores sharing a simulation against the same cores simulated alone."""
    import json
    import pickle

    def go(a):
        r = child(f"simone({a[0]!r}, {a[1]!r}, {cycles})", cwd=chk.dir)
        return (None, r.stderr) if r.returncode else (json.loads(r.stdout.splitlines()[-1]), r.stderr)
    designs = [(n, f"sim-{SEED}-{TIER}-{n}") for n in range(nd)]
    seen = alone_seen = 0
    for a, (m, err) in zip(designs, pool(go, designs)):
        last = err.strip().splitlines()[-1] if err.strip() else "?"
        if m is None:
            chk.violation(f"simulate {last[:60]}", f"simulated design {a[0]}: several cores in one process cannot be simulated together, though each alone can: {last}", detail=err[-3000:], how=f"vt.multi.simone{a + (cycles,)}")
            continue
        names, rec = pickle.load(open(m["rec"], "rb"))
        for k, (lone, e) in enumerate(pool(go, [(tuple(ks), s) for ks, s in zip(m["spec"], m["seeds"])])):
            if lone is None:
                raise Inconclusive(f"lone core simulation: {e[-500:]}")
            ln, lr = pickle.load(open(lone["rec"], "rb"))
            assert ln[0] == names[k]
            for c, (x, y) in enumerate(zip(rec[k], lr[0])):
                seen += 1
                alone_seen += y[ln[0].index("bus__cyc")]
                if x != y:
                    i = next(i for i in range(len(x)) if x[i] != y[i])
                    chk.violation("simulated core differs", f"simulated design {a[0]} {m['spec']} after {m['history']}: core {k} cycle {c}, {names[k][i]} in company={x[i]:x} alone={y[i]:x}",
                                  how=f"vt.multi.simone{a + (cycles,)}")
                    break
    return seen, alone_seen


def child(args, timeout=300, cwd=None):
    code = "import sys; sys.path.insert(0, %r); from vt import multi; multi.%s" % (os.path.join(VERIF, "lib"), args)
    return subprocess.run([PY, "-B", "-c", code], capture_output=True, text=True, timeout=timeout, cwd=cwd)


def run(pid):
    import json
    chk = Check(pid)
    try:
        for k, r in zip(KINDS, pool(lambda k: child(f"ref({chk.dir!r}, {k!r})"), KINDS)):
            if r.returncode:
                raise Inconclusive(f"lone {k}: {r.stderr[-600:]}")
        nd = 8 if TIER == "quick" else 60
        designs = []
        for n in range(nd):
            d = chk.path(f"d{n}")
            os.mkdir(d)
            designs.append((n, d))

        def mk(nd):
            n, d = nd
            return child(f"one({n}, {f'{SEED}-{TIER}-{n}'!r}, {chk.dir!r}, {d!r})")
        built = []
        for (n, d), r in zip(designs, pool(mk, designs)):
            if r.returncode:
                err = r.stderr.strip().splitlines()
                if "Unsupported" in r.stderr:
                    raise Inconclusive(f"design {n}: {err[-1]}")
                chk.violation(f"build {err[-1][:60] if err else ''}", f"design {n}: several cores in one process cannot be built, though each alone can: {err[-1] if err else '?'}",
                              detail=r.stderr[-3000:], how=f"vt.multi.one({n}, '{SEED}-{TIER}-{n}', ...)")
            else:
                built.append((n, d, json.loads(r.stdout.splitlines()[-1])))
        simseen, simcyc = simulated(chk, 4 if TIER == "quick" else 24, 400 if TIER == "quick" else 1500)
        exes = pool(lambda b: chk.compile(os.path.join(NATIVE, "multi.cc"), f"d{b[0]}/x", incs=[b[1]]), built)
        rng = random.Random(f"{SEED}-{pid}-{TIER}")
        jobs = [(b, [e, f"seed={rng.randrange(1, 1 << 40)}", f"episodes={ep * (2 if TIER == 'quick' else 8)}", f"len={ln}", f"maxsec=300"])
                for b, e in zip(built, exes) for ep, ln in ((60, 6000), (300, 500))]
        jobs += [(b, [e, f"seed={rng.randrange(1, 1 << 40)}", "episodes=2", "len=400000", "maxsec=300"]) for b, e in list(zip(built, exes))[:2 if TIER == "quick" else 12]]
        tot, broken = {}, []
        for (b, cmd), (vs, s, rc, err) in zip(jobs, pool(lambda j: run_json(j[1], 600), jobs)):
            for v in vs:
                chk.violation(v["msg"].split(":")[0][:60], f"design {b[0]} {b[2]['spec']} after {b[2]['history']}: {v['msg']}", cmd=[f"d{b[0]}/x"] + cmd[1:], detail=v)
            if s is None or s.get("timeout"):
                broken.append(f"design {b[0]}: rc={rc} {err[-200:]}")
                continue
            for k, v in s.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
        chk.evaluations, chk.distinct = tot.get("compared", 0), tot.get("distinct", 0)
        chk.rule = ("Each case is one clock cycle of one core of a multi-core design on which all its outputs (bus, RVFI) were compared with a lone core built in a fresh process. "
                    "Distinct: (fetched opcode, funct3, CSR number, interrupt level) per core kind and worker, summed.")
        chk.coverage.update({k: v for k, v in tot.items() if k not in ("distinct", "violations")}, designs=len(built), simulated_core_cycles=simseen, simulated_bus_cycles=simcyc, cores=sum(len(b[2]["spec"]) for b in built),
                            histories=[" ".join(b[2]["history"]) for b in built][:12], shapes=sorted({f"{k}/{s}" for b in built for k, s in b[2]["spec"]}))
        chk.samples = [dict(design=b[0], cores=b[2]["spec"], history=b[2]["history"]) for b in built[:8]]
        chk.assumptions = ["all domains share one clock edge", "the netlist Amaranth emits is the design (the translation is cross-validated by the other checks)"]
        if not chk.violations and broken:
            raise Inconclusive("; ".join(broken[:3]))
        return chk.finish([("core cycles compared", chk.evaluations, 3_000_000), ("acknowledges", tot.get("acks", 0), 300_000), ("core cycles compared in Amaranth's simulator", simseen, 3_000), ("of them with a transfer under way", simcyc, 600), ("resets of single cores", tot.get("resets", 0), 2_000)]
                          if not chk.violations else [])
    except Inconclusive as e:
        return chk.inconclusive(e)
