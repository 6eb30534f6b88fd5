"""C17: run the Verilog generator in all its forms, parse what it writes with
Yosys, and execute it (CXXRTL) beside the Amaranth netlist."""
import hashlib
import json
import os
import random
import re
import subprocess

from .common import Check, Inconclusive, NATIVE, NCPU, PY, REPO, SEED, TIER, VERIF, pool, run_json
from . import lock

BUS = dict(clk=("input", 1), rst=("input", 1), irq=("input", 1), bus__adr=("output", 30), bus__dat_w=("output", 32), bus__dat_r=("input", 32),
           bus__sel=("output", 4), bus__cyc=("output", 1), bus__stb=("output", 1), bus__we=("output", 1), bus__ack=("input", 1))
RVFI = dict(valid=1, order=64, insn=32, trap=1, halt=1, intr=1, mode=2, ixl=2, rs1_addr=5, rs2_addr=5, rs1_rdata=32, rs2_rdata=32, rd_addr=5,
            rd_wdata=32, pc_rdata=32, pc_wdata=32, mem_addr=32, mem_rmask=4, mem_wmask=4, mem_rdata=32, mem_wdata=32)
CSR64 = ("mcycle", "minstret", "mhpmcounter3")
CSR32 = ("mscratch", "mcause", "mip", "mie", "mstatus", "mtvec", "mepc", "misa", "mvendorid", "marchid", "mimpid", "mhartid", "mconfigptr",
         "mstatush", "mcountinhibit", "mtval", "mhpmevent3")


def documented_ports(formal):
    p = dict(BUS)
    if formal:
        p.update({f"rvfi__{k}": ("output", w) for k, w in RVFI.items()})
        for n in CSR32 + CSR64:
            p.update({f"rvfi__csr__{n}__{k}": ("output", 64 if n in CSR64 else 32) for k in ("rmask", "wmask", "rdata", "wdata")})
    return p


CALL = "import sys; sys.argv[0] = 'gen'; from sentinel.gen import generate; generate()"
# earlier calls in the same process, their standard output thrown away
AFTER = """import sys, io, contextlib, json
pre, last = json.loads(sys.argv[1]), sys.argv[2:]
from sentinel.gen import generate
for a in pre:
    sys.argv[:] = ["gen"] + a
    with contextlib.redirect_stdout(io.StringIO()):
        generate()
sys.argv[:] = ["gen"] + last
generate()
"""
# a series of calls in one process, each output collected right after its call
SESSION = """import sys, io, contextlib, json, os, traceback
from sentinel.gen import generate
out = []
for c in json.load(sys.stdin):
    sys.argv[:] = ["gen"] + c["argv"]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            generate()
    except (Exception, SystemExit):
        out.append([None, "raises " + traceback.format_exc(limit=-1)[-300:]])
        continue
    if not c["file"]:
        out.append([buf.getvalue(), None])
    elif not os.path.exists(c["file"]):
        out.append([None, "did not create the output file"])
    elif "endmodule" in buf.getvalue():
        out.append([None, "wrote Verilog to standard output although -o names a file"])
    else:
        out.append([open(c["file"]).read(), None])
json.dump(out, sys.stdout)
"""


def session(chk, k, rng):
    """[(variant, text, error)] of a random series of calls sharing file and module names."""
    files = [None, "-", chk.path(f"s{k}a.v"), f"s{k}b.v"]
    names = [None, "cpu", rng.choice(NAMES)]
    calls, vs, last = [], [], None
    for j in range(rng.randrange(3, 6)):
        n, o, f = rng.choice(names), rng.choice(files + files[2:]), rng.random() < .4
        if last and rng.random() < .6:      # change one thing only
            n, o, f = rng.choice([(n, last[1], last[2]), (last[0], o, last[2]), (last[0], last[1], f)])
        last = n, o, f
        argv = (["-n", n] if n else []) + (["-o", o] if o else []) + (["-f"] if f else [])
        calls.append(dict(argv=argv, file=o if o and o != "-" else None))
        vs.append((f"session {k}, call {j}: generate() {' '.join(argv)}", argv, "session", (n,) if n else ("sentinel",) if argv else PLAIN, f))
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src") + ":" + os.path.join(VERIF, "lib", "shim"), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, "-c", SESSION], input=json.dumps(calls), capture_output=True, text=True, env=env, cwd=chk.dir, timeout=300)
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = [[None, f"exit status {r.returncode}: {r.stderr[-300:]}"]] * len(vs)
    return [(v, (v[0], t, e)) for v, (t, e) in zip(vs, out)]


PLAIN = ("sentinel", "top")     # without arguments the documented name is either
# what, argv, how it is called, accepted module names, formal?
# file names: @ absolute, @r relative to the working directory, @d in a directory called "a-b"
VARIANTS = [
    ("python -m sentinel.gen", [], "module", PLAIN, False),
    ("-o FILE", ["-o", "@"], "module", ("sentinel",), False),
    ("-n NAME", ["-n", "my_core"], "module", ("my_core",), False),
    ("-o -", ["-o", "-"], "module", ("sentinel",), False),
    ("-n NAME -o FILE", ["-n", "Cpu2", "-o", "@"], "module", ("Cpu2",), False),
    ("-f", ["-f"], "module", ("sentinel",), True),
    ("-f -o FILE", ["-f", "-o", "@"], "module", ("sentinel",), True),
    ("-f -n NAME -o FILE", ["-f", "-n", "rv", "-o", "@"], "module", ("rv",), True),
    ("generate()", [], "call", PLAIN, False),
    ("generate() -o FILE", ["-o", "@"], "call", ("sentinel",), False),
    ("generate() -n NAME", ["-n", "core_x"], "call", ("core_x",), False),
    ("generate() -f -o FILE -n NAME", ["-f", "-o", "@", "-n", "uut"], "call", ("uut",), True),
    ("-f -o -", ["-f", "-o", "-"], "module", ("sentinel",), True),
    ("-n top -f", ["-n", "top", "-f"], "module", ("top",), True),
    ("-oFILE (relative)", ["-o@r"], "module", ("sentinel",), False),
    ("-n of 70 characters", ["-n", "n" * 70], "module", ("n" * 70,), False),
    ("-n soc-x.cpu -o FILE", ["-n", "soc-x.cpu", "-o", "@"], "module", ("soc-x.cpu",), False),
    ("generate() -o FILE (relative, in a-b/) -f", ["-o", "@d", "-f"], "call", ("sentinel",), True),
]
FILES = ["@", "@r", "@d"]
NAMES = ["cpu", "alu", "control", "top", "sentinel", "clk", "rst", "bus", "rvfi", "x", "T", "_core", "Sentinel_Top_32", "core0123456789_core0123456789_core", "formal", "soc_cpu0",
         "soc_subsystem_cpu_cluster_0_management_core_wrapper_with_a_rather_long_name_of_100_characters_in_all", "soc-cpu", "soc.cpu0", "7seg", "core$1", "a/b"]


def random_variant(r):
    """any subset of the options, in any order, possibly after other calls"""
    opts, names, formal = [], ("sentinel",), False
    if r.random() < .6:
        n = r.choice(NAMES + ["n" + format(r.randrange(1 << 30), "x"), "L" + format(r.getrandbits(r.randrange(100, 400)), "x")])
        names = (n,)
        opts.append(r.choice([["-n", n], ["-n" + n]]))
    if r.random() < .6:
        f = r.choice(FILES + ["-"])
        opts.append(r.choice([["-o", f], ["-o" + f]]) if f != "-" else ["-o", f])
    if r.random() < .5:
        formal = True
        opts.append(["-f"])
    r.shuffle(opts)
    argv = sum(opts, [])
    if not argv:
        names = PLAIN
    how = r.choice(["module", "call", "after", "after"])
    pre = [r.choice([[], ["-f"], ["-n", "other"], ["-f", "-n", "other"]])] if how == "after" else []
    return (" ".join(([f"generate() {' '.join(p)}".strip() + ", then generate()" for p in pre] if how == "after" else ["generate()"] if how == "call" else []) + argv) or "no argument",
            argv, how if how != "after" else pre, names, formal)


def generate(chk, i, variant):
    what, argv, how, names, formal = variant
    fn = None
    out = []
    for a in argv:
        k = next((t for t in ("@r", "@d", "@") if a.endswith(t)), None)
        if k:
            base = f"gen{i}.v"
            if k == "@d":
                os.makedirs(chk.path("a-b"), exist_ok=True)
                base = f"a-b/gen-{i}.v"
            fn = chk.path(base)
            a = a[:-len(k)] + (fn if k == "@" else base)
        out.append(a)
    if fn and i % 2:
        open(fn, "w").write("stale contents\n" * 40000)
    cmd = [PY, "-c", CALL] + out if how == "call" else [PY, "-m", "sentinel.gen"] + out if how == "module" else [PY, "-c", AFTER, json.dumps(how)] + out
    env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src") + ":" + os.path.join(VERIF, "lib", "shim"), PYTHONDONTWRITEBYTECODE="1")
    for _ in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=chk.dir, timeout=240)
        if r.returncode == 0:
            break
    if r.returncode:
        return what, None, f"exit status {r.returncode}: {r.stderr[-300:]}"
    if fn:
        if not os.path.exists(fn):
            return what, None, "did not create the output file"
        if "endmodule" in r.stdout:
            return what, None, "wrote Verilog to standard output although -o names a file"
        return what, open(fn).read(), None
    return what, r.stdout, None


def mangle(n):
    return "p_" + n.replace("_", "__")


def yosys(script, cwd):
    return subprocess.run(["/opt/venv/bin/yowasp-yosys", "-q", "-p", script], capture_output=True, text=True, cwd=cwd, timeout=400)


def build_group(chk, gid, name, text, formal):
    """Parse and compile one distinct text; returns (exe, violation message)"""
    d = chk.path(f"g{gid}")
    os.makedirs(d)
    open(os.path.join(d, "d.v"), "w").write(text)
    for _ in range(2):
        r = yosys(f"read_verilog d.v; hierarchy -check -top {name}; proc; write_json ports.json; flatten; write_cxxrtl -g0 -O6 d.cc", d)
        if r.returncode == 0:
            break
    if r.returncode:
        return None, f"Yosys rejects the generated file (top {name}): {(r.stderr or r.stdout)[-400:]}"
    j = json.load(open(os.path.join(d, "ports.json")))
    ports = {k: (v["direction"], len(v["bits"])) for k, v in j["modules"][name]["ports"].items()}
    want = documented_ports(formal)
    if ports != want:
        diff = {k: (ports.get(k), want.get(k)) for k in sorted(set(ports) | set(want)) if ports.get(k) != want.get(k)}
        return None, f"ports differ from the documented ones (generated, documented): {str(diff)[:400]}"
    outs = [k for k, v in want.items() if v[0] == "output"]
    open(os.path.join(d, "ports.h"), "w").write(f"typedef cxxrtl_design::{mangle(name)} V;\n#define CMP_OUTPUTS " + " ".join(f"CMP({k}, {mangle(k)})" for k in outs) + "\n")
    import yowasp_yosys
    rt = os.path.join(os.path.dirname(yowasp_yosys.__file__), "share", "include", "backends", "cxxrtl", "runtime")
    exe = os.path.join(d, "vsim")
    cmd = ["g++", "-O2", "-w", "-std=c++17", "-fno-strict-aliasing", "-I", d, "-I", chk.path("f" if formal else "t"), "-I", NATIVE, "-I", rt, '-DDESIGN="d.cc"', os.path.join(NATIVE, "vsim.cc"), "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive("compilation of the CXXRTL model failed: " + r.stderr[-800:])
    return exe, None


def run(pid):
    chk = Check(pid)
    xv = [lock.start_xval(chk, w, 1000) for w in ("top", "formal")]
    try:
        from . import nirc
        from sentinel.top import Top
        from sentinel.formal import FormalTop
        for sub, T in (("t", Top), ("f", FormalTop)):
            os.makedirs(chk.path(sub))
            open(chk.path(sub, "dut.h"), "w").write(nirc.Lower(nirc.elaborate(T()), "dut").generate())
        yosys("help read_verilog", chk.dir)      # warm the compiler cache once, before the parallel part
        rng = random.Random(f"{SEED}-C17-{TIER}")
        quick = TIER == "quick"
        variants = VARIANTS + [random_variant(rng) for _ in range(8 if quick else 120)]
        res = pool(lambda i: generate(chk, i, variants[i]), range(len(variants)))
        for x in pool(lambda k: session(chk, k, random.Random(f"{SEED}-C17-{TIER}-session{k}")), range(8 if quick else 48)):
            variants += [v for v, _ in x]
            res += [r for _, r in x]
        groups, lens = {}, {}
        for (what, argv, how, names, formal), (_, text, err) in zip(variants, res):
            if err:
                chk.violation(f"{what}", f"generator {what}: {err}")
                continue
            lens[what] = len(text)
            mods = set(re.findall(r"^\s*module\s+\\?([^\s(]+)", text, re.M))
            name = next((n for n in names if n in mods), None)
            if name is None:
                chk.violation(f"{what}", f"generator {what}: no top-level module named {' or '.join(names)} (modules: {sorted(mods)[:6]})")
                continue
            norm = re.sub(rf"^(module \\?|  \\){re.escape(name)}(?=[.(\s])", r"\1TOPNAME", text, flags=re.M).strip()
            rep = [name, text] if re.fullmatch(r"[A-Za-z_]\w*", name) else ["TOPNAME", norm]    # escaped identifiers: compile under a plain name
            g = groups.setdefault((hashlib.sha256(norm.encode()).hexdigest(), formal), rep + [formal, []])
            g[3].append(what)
        gl = list(groups.values())
        built = pool(lambda k: build_group(chk, k, *gl[k][:3]), range(len(gl)), 4)
        jobs = []
        for (name, text, formal, whats), (exe, err) in zip(gl, built):
            if err:
                chk.violation(whats[0], f"generator {', '.join(whats)}: {err}")
                continue
            n = max(1, NCPU // len(gl))
            for k in range(n):
                for l, e in ((8000, 30), (400, 300)) + (((500_000, 1),) if k == 0 else ()):
                    jobs.append((whats, [exe, f"episodes={e * (6 if quick else 60)}", f"len={l}", f"seed={rng.randrange(1, 1 << 40)}", f"maxsec={400 if quick else 600}"]))
        tot, broken = {}, []
        for (whats, cmd), (vs, s, rc, err) in zip(jobs, pool(lambda j: run_json(j[1], 800), jobs)):
            for v in vs:
                chk.violation(v["msg"].split(":")[0], f"generator {', '.join(whats)}: {v['msg']}", cmd=cmd, detail=v)
            if s is None:
                broken.append(f"rc={rc} {err[-200:]}")
                continue
            for k, v in s.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
        chk.evaluations, chk.distinct = tot.get("cycles", 0), tot.get("distinct", 0)
        chk.rule = ("Each case is one clock cycle on which every output of the generated Verilog, executed through Yosys/CXXRTL, was compared with the "
                    "Amaranth netlist under the same inputs. Distinct: (fetched opcode, funct3, CSR number, interrupt level) per worker, summed.")
        chk.coverage.update({k: v for k, v in tot.items() if k != "distinct"}, invocations=len(variants), distinct_netlists=len(gl), output_bytes=lens)
        chk.samples = [dict(argv=v[1], via="module" if v[2] == "module" else "generate()") for v in variants[:24]]
        chk.assumptions = ["Yosys' Verilog front end and CXXRTL implement Verilog semantics", "two generated files equal up to the module name behave alike"]
        if not chk.violations:
            for x in xv:
                lock.end_xval(chk, x)
            if broken:
                raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        return chk.finish([("cycles", chk.evaluations, 300000), ("resets", tot.get("resets", 0), 300), ("writes", tot.get("writes", 0), 500)])
    except Inconclusive as e:
        return chk.inconclusive(e)
    finally:
        for x in xv:
            if x.poll() is None:
                x.kill()
