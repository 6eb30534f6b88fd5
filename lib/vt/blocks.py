"""C18 and C19: the components driven on their own.

Every component is elaborated alone, its netlist compiled, and its ports driven
with random and corner sequences; monitors in native/blocks.cc compare the
outputs with the documented function wherever the documentation fixes one."""
import enum
import warnings
import os
import random
import traceback
from io import StringIO

from .common import Check, Inconclusive, NATIVE, SEED, TIER, pool, run_json


def enums(chk):
    import sentinel.ucodefields as u
    from sentinel.datapath import CSRFile
    from sentinel.exception import DecodeException
    from sentinel.decode import CSRAttributes
    from amaranth.lib.data import Layout
    o = ["#pragma once"]
    for cn, c in vars(u).items():
        if isinstance(c, type) and issubclass(c, enum.Enum) and len(c.__members__):
            o += [f"enum {{ {', '.join(f'{cn}_{n} = {m.value}' for n, m in c.__members__.items())} }};"]
    for n in ("MSTATUS", "MIE", "MTVEC", "MSCRATCH", "MEPC", "MCAUSE", "MIP"):
        o.append(f"enum {{ CSRFile_{n} = {getattr(CSRFile, n)} }};")
    d, a = Layout.cast(DecodeException), Layout.cast(CSRAttributes._DataLayout)
    o.append(f"enum {{ EXC_V = {d['valid'].offset}, EXC_T = {d['e_type'].offset}, ATTR_ILL = {a['ill'].offset}, ATTR_RO0 = {a['ro0'].offset} }};")
    open(chk.path("enums.h"), "w").write("\n".join(o) + "\n")


def components():
    """{pid: [(section, name, factory, extra defines)]}"""
    from sentinel import alu, align, datapath, decode, exception
    c18 = [("ASRC", "ASrcMux", lambda: alu.ASrcMux(), []), ("BSRC", "BSrcMux", lambda: alu.BSrcMux(), [])]
    c18 += [("ALU", f"ALU({w})", lambda w=w: alu.ALU(w), [f"W={w}"]) for w in (32, 1, 2, 3, 7, 8, 16, 31, 33, 48, 63, 64, 65, 100, 126)]
    c18 += [("ADRALIGN", "AddressAlign", lambda: align.AddressAlign(), []), ("RDALIGN", "ReadDataAlign", lambda: align.ReadDataAlign(), []),
            ("WRALIGN", "WriteDataAlign", lambda: align.WriteDataAlign(), []), ("PC", "ProgramCounter", lambda: datapath.ProgramCounter(), []),
            ("REGFILE", "RegFile", lambda: datapath.RegFile(formal=False), []), ("DATAPATH", "DataPath", lambda: datapath.DataPath(), []),
            ("DATAPATH", "DataPath(formal)", lambda: datapath.DataPath(formal=True), []),
            ("SRCMUX", "DataPathSrcMux", lambda: datapath.DataPathSrcMux(), []), ("IMMGEN", "ImmediateGenerator", lambda: decode.ImmediateGenerator(), [])]
    c19 = [("DECODE", "Decode", lambda: decode.Decode(), []), ("DECODE", "Decode(formal)", lambda: decode.Decode(formal=True), ["RVFI"]),
           ("CSRATTR", "CSRAttributes", lambda: decode.CSRAttributes(), []), ("ROUTER", "ExceptionRouter", lambda: exception.ExceptionRouter(), [])]
    return {"C18": c18, "C19": c19}


WIDE = {f"ALU({w})" for w in (64, 65, 100, 126)}


def rom_source(rng, style):
    """A random microprogram over the shipped field declarations, with its table of values."""
    from sentinel.ucoderom import UCodeROM
    import re
    from .ucode import miniasm
    text = UCodeROM.main_microcode_file().read_text()
    head = text[:re.search(r"^\s*fields\b.*?^\s*}\s*;", text, re.S | re.M).end()]
    depth, width, fields, _ = miniasm(head)
    rows, o = [], [head]
    o.append("origin 0;")
    for a in range(256):
        v = {}
        for n, (lsb, w, e, d) in fields.items():
            v[n] = rng.choice(sorted(set(e.values()))) if e and w > 1 else rng.randrange(1 << w)
        if style == 1 and rng.random() < .5:      # mostly straight-line: long runs of the incrementer, wrap-around included
            v["jmp_type"] = fields["jmp_type"][2]["cont"]
        if style == 2 and rng.random() < .6:
            v["target"] = rng.choice([255, 254, 0, 1, 2, 128, 127])
        rows.append(v)
        o.append(", ".join(f"{n} => {x}" for n, x in v.items()) + ";")
    return "\n".join(o) + "\n", fields, rows


def rom_header(fields, rows):
    o = ["#pragma once", "struct uw { u32 " + ", ".join(fields) + "; };", "static const uw rom[256] = {"]
    o += ["{" + ",".join(str(r[n]) for n in fields) + "}," for r in rows]
    return "\n".join(o) + "\n};\n"


def controls(chk, n):
    from sentinel.control import Control
    from sentinel.ucoderom import UCodeROM
    from .ucode import miniasm
    rng = random.Random(f"{SEED}-control")
    out = []
    for i in range(n):
        if i == 0:
            text = UCodeROM.main_microcode_file().read_text()
            depth, width, fields, words = miniasm(text)
            rows = [words.get(a, {f: 0 for f in fields}) for a in range(256)]
            make = lambda: Control()
        else:
            src, fields, rows = rom_source(rng, i % 3)
            make = lambda src=src: Control(ucode=StringIO(src))
        out.append(("CONTROL", f"Control[{'shipped' if i == 0 else 'random %d' % i}]", make, [], rom_header(fields, rows)))
    return out


def run(pid):
    from . import nirc
    warnings.simplefilter("ignore")
    chk = Check(pid)
    thorough = TIER == "thorough"
    try:
        try:
            enums(chk)
        except Exception as e:
            raise Inconclusive(f"design enumerations not found: {e!r}")
        todo = [c + (None,) for c in components()[pid]]
        if pid == "C19":
            todo += controls(chk, 16 if thorough else 6)
        built, skipped = [], []
        for i, (sec, name, make, defs, rom) in enumerate(todo):
            d = chk.path(f"b{i}")
            os.mkdir(d)
            try:
                nl = nirc.elaborate(make())
            except nirc.Unsupported as e:
                raise
            except Exception as e:
                chk.violation(f"{name}-elaborate", f"{name}: cannot be elaborated: {e!r} " + traceback.format_exc(limit=-2).replace("\n", " | ")[-300:])
                continue
            try:
                code = nirc.Lower(nl, "dut").generate()
            except nirc.Unsupported as e:
                if name in WIDE:        # beyond what the netlist compiler can represent: the other widths decide
                    skipped.append(f"{name}: {e}")
                    continue
                raise
            open(os.path.join(d, "dut.h"), "w").write(code)
            if rom:
                open(os.path.join(d, "rom.h"), "w").write(rom)
            built.append((i, sec, name, defs, d))

        def build(b):
            i, sec, name, defs, d = b
            return chk.compile(os.path.join(NATIVE, "blocks.cc"), f"b{i}/x", incs=[d], defs=[f"B_{sec}"] + defs)
        exes = pool(build, built)
        rng = random.Random(f"{SEED}-{pid}-{TIER}")
        lim = 700 if thorough else 400
        jobs = []
        for (i, sec, name, defs, d), exe in zip(built, exes):
            k = 25 if thorough else 2
            n = {"ALU": 12000, "CONTROL": 8000, "DECODE": 30000, "CSRATTR": 2000}.get(sec, 30000) * k
            length = {"CSRATTR": 4096, "CONTROL": 600}.get(sec, 200)
            for _ in range(2):
                jobs.append((name, [exe, f"episodes={n}", f"len={length}", f"seed={rng.randrange(1, 1 << 40)}", f"maxsec={lim}"]))
            jobs.append((name, [exe, "episodes=3", f"len={400_000 * (8 if thorough else 1)}", f"seed={rng.randrange(1, 1 << 40)}", f"maxsec={lim}"]))
            if name == "Decode":
                parts, take = (64, 64) if thorough else (1024, 32)
                off = rng.randrange(1024)
                for p in range(take):
                    jobs.append((name, [exe, f"part={(p * 32 + off) % parts if not thorough else p}", f"parts={parts}", f"maxsec={lim}"]))
        broken, per = [], {}
        for (name, cmd), (vs, s, rc, err) in zip(jobs, pool(lambda j: run_json(j[1], lim + 60), jobs)):
            rel = [name] + cmd[1:]
            for v in vs:
                chk.violation(v["msg"].split(":")[0] + ":" + v["msg"].split(":")[1][:30], v["msg"], component=name, cmd=rel)
            if s is None or s.get("timeout"):
                broken.append(f"{' '.join(rel)}: rc={rc} {err[-300:] if s is None else 'time limit'}")
                continue
            r = per.setdefault(name, {})
            for k, v in s.items():
                if not isinstance(v, bool) and k != "violations":
                    r[k] = r.get(k, 0) + v
        chk.evaluations = sum(r["evals"] for r in per.values())
        chk.distinct = sum(r["distinct"] for r in per.values())
        chk.coverage.update(components=per, workers=len(jobs), skipped=skipped)
        chk.samples = [dict(component=n, command=" ".join(c[1:])) for n, c in jobs[:8]]
        chk.rule = ("Each case is one clock cycle (for Decode: one instruction word followed to the end of its decode) of one component driven alone, all documented outputs compared. "
                    "Distinct: (control codes, operand classes, address relations) per component and worker, summed.")
        chk.assumptions = ["outputs the documentation does not fix are not looked at (marked X in native/blocks.cc)",
                           "the netlist Amaranth emits is the component (the translator is cross-validated against Amaranth's simulator in the other checks)"]
        floors = [(n, per.get(n, {}).get("evals", 0), 100_000) for _, n, *_ in todo if not any(n == s.split(":")[0] for s in skipped) and not any(v["key"].startswith(n) for v in chk.violations)]
        if not chk.violations and broken:
            raise Inconclusive("workers did not finish: " + "; ".join(broken[:3]))
        return chk.finish(floors)
    except (Inconclusive, nirc.Unsupported) as e:
        return chk.inconclusive(e)
