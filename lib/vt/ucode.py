"""C16: the microcode assembler wrapper and ROM against an independent oracle.

Random sources are generated together with the table of field values they
denote; the shipped microcode is assembled by a small independent assembler
(miniasm below).  What is observed is the ROM component simulated at its ports,
its public attributes and the files it writes."""
import concurrent.futures
import enum
import hashlib
import multiprocessing
import os
import random
import re
import resource
import signal
import time
from io import StringIO
from pathlib import Path

from .common import Check, Inconclusive, NCPU, SEED, TIER, setup_path


# -- independent assembler ---------------------------------------------------
def split_top(s, sep):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "{":
            depth += 1
        elif ch == "}":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def miniasm(text):
    """(depth, width, {field: (lsb, width, enum or None, default)}, {addr: {field: value}})"""
    text = text.replace("\\\n", " ")
    macros, body = {}, []
    for line in text.split("\n"):
        line = line.split("//")[0]
        m = re.match(r"\s*#\s*define\s+(\w+)(?:\(([^)]*)\))?\s*(.*)", line)
        if m:
            macros[m[1]] = ([a.strip() for a in m[2].split(",")] if m[2] else [], m[3])
        else:
            body.append(line)

    def expand(s):
        def sub(m):
            if m[1] not in macros:
                return m[0]
            formals, exp = macros[m[1]]
            if formals:
                args = dict(zip(formals, [expand(a.strip()) for a in m[2][1:-1].split(",")]))
                return expand(re.sub(r"[A-Za-z_]+", lambda k: args.get(k[0], k[0]), exp))
            return expand(exp) + (expand(m[2]) if m[2] else "")
        return re.sub(r"\b([A-Za-z_]\w*)(\([^)]*\))?", sub, s)

    def num(s):
        return int(s, 0) if s[:2].lower() == "0x" else int(s)

    depth = width = None
    fields, insns, labels, pc = {}, [], {}, 0
    for st in split_top(expand("\n".join(body)), ";"):
        st = " ".join(st.split())
        m = re.match(r"space (\w+) ?: ?(.*)", st)
        if m:
            kv = dict(x.split() for x in m[2].split(","))
            depth, width = num(kv["size"]), num(kv["width"])
            continue
        if re.match(r"space \w+$", st):
            continue
        m = re.match(r"origin (\w+)$", st)
        if m:
            pc = num(m[1])
            continue
        m = re.match(r"fields \w+ ?: ?{(.*)}$", st)
        if m:
            end = 0
            for fd in split_top(m[1], ";"):
                name, attrs = [x.strip() for x in fd.split(":", 1)]
                w = e = d = o = None
                for a in split_top(attrs, ","):
                    if a == "bool":
                        e, w = {"false": 0, "true": 1}, 1
                    elif a.startswith("enum"):
                        e, prev = {}, -1
                        for it in split_top(a[a.index("{") + 1:a.rindex("}")], ";"):
                            n, _, v = [x.strip() for x in it.partition("=")]
                            v = prev + 1 if v == "" else (e[v] if v in e else num(v))
                            e[n] = prev = v
                    else:
                        k, v = a.split()
                        if k == "width":
                            w = num(v)
                        elif k == "origin":
                            o = num(v)
                        else:
                            d = v
                if d is not None:
                    d = e[d] if e and d in e else num(d)
                if w is None:
                    w = max([d or 0] + list(e.values() if e else [])).bit_length()
                if o is None:
                    o = end
                end = o + w
                fields[name] = (o, w, e, d)
            continue
        while True:
            m = re.match(r"(\w+) ?: ?(?!:)(.*)", st)
            if not m:
                break
            labels[m[1]] = pc
            st = m[2]
        insns.append((pc, [[x.strip() for x in p.split("=>")] for p in split_top(st, ",")]))
        pc += 1
    words = {}
    for a, ps in insns:
        vals = {n: f[3] for n, f in fields.items()}
        for f, v in ps:
            e = fields[f][2]
            vals[f] = e[v] if e and v in e else labels[v] if v in labels else num(v)
        words[a] = vals
    return depth, width, fields, words


# -- random sources ----------------------------------------------------------
IDENT = "abcdefghijklmnopqrstuvwxyz"


class Case:
    """A random source, its denotation, and a matching field map."""

    def __init__(self, rng):
        from amaranth import unsigned, signed
        from amaranth.lib import enum as aenum
        from amaranth.lib.data import StructLayout
        self.rng = rng
        self.depth = rng.choice([2, 3, 4, 5, 8, 16, 17, 31, 64, 100, 256, 300, 512, 1000, 1024, 2048] if rng.random() < .97 else [4096, 5000, 65536])
        nf = rng.randrange(1, 11) if rng.random() < .9 else rng.randrange(11, 60)
        self.fields = []          # [name, kind, width, lsb, enum, default, attrs text]
        self.map = {}
        layout = rng.choice(["auto", "explicit", "gaps", "gaps", "shuffled", "mixed"])
        self.layout = layout
        used = set()

        def ident(pfx=""):
            while True:
                n = pfx + "".join(rng.choice(IDENT) for _ in range(rng.randrange(1, 5))) + rng.choice(["", "", "_x", "2"])
                if n not in used and n not in ("bool", "default", "enum", "equate", "fields", "if", "macro", "origin", "size", "space", "width",
                                               "false", "true", "shape", "const", "size", "as_shape", "format"):
                    used.add(n)
                    return n
        pos = rng.choice([0, 0, rng.randrange(1, 6)]) if layout == "gaps" else rng.randrange(3, 50) if layout == "shuffled" else 0
        self.gaps = int(pos > 0)
        for i in range(nf):
            kind = rng.choice(["plain", "plain", "bool", "enum", "enum"])
            name = ident("f")
            e = None
            if kind == "plain":
                w = rng.choice([1, 2, 3, 4, 7, 8, 9, 16, 12] if rng.random() < .8 else [13, 15, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 100, 128, 200])
                attrs = [f"width {w}"]
                self.map[name] = rng.choice([unsigned, unsigned, unsigned, signed, lambda w: range(1 << w) if w < 60 else unsigned(w), lambda w: StructLayout({"lo": 1, "hi": unsigned(w - 1)})])(w)
            elif kind == "bool":
                w, e, attrs = 1, {"false": 0, "true": 1}, ["bool"]
                self.map[name] = unsigned(1)
            else:
                e, items, prev = {}, [], -1
                for _ in range(rng.choice((2, 2, rng.randrange(2, 9), rng.randrange(2, 9))) if rng.random() < .93 else rng.randrange(9, 70)):
                    n = ident("e")
                    k = rng.random()
                    if k < .55:
                        v, t = prev + 1, n
                    elif k < .85 or not e:
                        v = rng.randrange(0, 40) if rng.random() < .8 else rng.choice((63, 64, 127, 128, 255, 256, 511, 1 << 12, (1 << 16) - 1, 1 << 16, (1 << 31) + 5, (1 << 32) + 1))
                        t = f"{n} = {v}" if rng.random() < .6 else f"{n} = 0x{v:x}"
                    else:
                        o = rng.choice(list(e))
                        v, t = e[o], f"{n} = {o}" if rng.random() < .5 else f"{n}={e[o]}"
                        if "=" in t and t.endswith(o):
                            prev = v
                    e[n] = prev = v
                    items.append(t)
                    if isinstance(v, int) and t.endswith(f" = {list(e)[0]}"):
                        pass
                # an implicit value after a symbolic one is not portable: make values explicit there
                items = [f"{n} = {v}" if rng.random() < .3 else None for n, v in e.items()]
                prev = -1
                for j, (n, v) in enumerate(e.items()):
                    if items[j] is None:
                        items[j] = n if v == prev + 1 else f"{n} = {v}"
                    prev = v
                w = max(e.values()).bit_length()
                if w == 0:
                    n = ident("e")
                    e[n] = 1
                    items.append(f"{n} = 1")
                    w = 1
                attrs = ["enum { " + "; ".join(items) + rng.choice(["", ";"]) + " }"]
                cls = enum.Enum if rng.random() < .6 else aenum.Enum
                kw = {}
                if rng.random() < .25:
                    w += rng.randrange(0, 3)
                    attrs.append(f"width {w}")
                    cls = aenum.Enum
                if cls is aenum.Enum:
                    ns = aenum.EnumMeta.__prepare__("X", (aenum.Enum,), shape=unsigned(w))
                    for n, v in e.items():
                        ns[n.upper()] = v
                    self.map[name] = aenum.EnumMeta("E" + name, (aenum.Enum,), ns, shape=unsigned(w))
                else:
                    self.map[name] = enum.Enum("E" + name, {n.upper(): v for n, v in e.items()})
            if layout in ("gaps", "shuffled") and i and rng.random() < .5:
                g = rng.randrange(1, 7)
                pos += g
                self.gaps += 1
            elif layout == "mixed" and i > nf // 2 and rng.random() < .6:
                pos += rng.randrange(1, 5)
                self.gaps += 1
            explicit = layout in ("explicit", "gaps", "shuffled") or (layout == "mixed" and i > nf // 2)
            if explicit:
                attrs.insert(rng.randrange(0, 2) if kind == "plain" else 1, f"origin {pos}" if rng.random() < .7 else f"origin 0x{pos:x}")
            d = None
            if rng.random() < .8:
                d = rng.choice(list(e.values())) if e and kind != "bool" else rng.randrange(1 << w)
                t = str(d)
                if e and rng.random() < .6:
                    t = rng.choice([n for n, v in e.items() if v == d])
                attrs.append(f"default {t}")
            self.fields.append([name, kind, w, pos, e, d, ", ".join(attrs)])
            pos += w
        if rng.random() < .3:      # a map may know more fields than a source uses
            self.map[ident("g")] = unsigned(rng.randrange(1, 9))
        self.width = pos + rng.choice([0, 0, 1, rng.randrange(0, 9)])
        decl = list(self.fields)
        if layout == "shuffled":
            # m5meta accepts a declaration order only when each origin is at least the width declared so far
            for _ in range(60):
                rng.shuffle(decl)
                if all(decl[j][3] >= sum(f[2] for f in decl[:j]) for j in range(nf)) and decl != self.fields:
                    break
        self.decl = decl
        # code
        self.words, self.labels = {}, {}
        segs, a = [], rng.randrange(0, max(1, self.depth // 2))
        free = set(range(self.depth))
        total = rng.randrange(1, 2 + min(self.depth, 40))
        todo = []
        while total > 0 and free:
            start = rng.choice(sorted(free))
            run = []
            while start in free and len(run) < rng.randrange(1, 12):
                free.discard(start)
                run.append(start)
                start += 1
            todo.append(run)
            total -= len(run)
        for run in todo:
            for ad in run:
                if rng.random() < .3:
                    self.labels[f"l{len(self.labels)}_{rng.choice(IDENT)}"] = ad
        self.src = self.emit(todo)

    def value(self, f):
        """(text, value) for one field assignment"""
        rng = self.rng
        name, kind, w, pos, e, d, _ = f
        if kind == "plain" and self.labels and w >= 3 and rng.random() < .4:
            fit = [(l, a) for l, a in self.labels.items() if a < 1 << w]
            if fit:
                return rng.choice(fit)
        if e and rng.random() < .8:
            n = rng.choice(list(e))
            return n, e[n]
        v = rng.choice([0, (1 << w) - 1, rng.randrange(1 << w), rng.randrange(1 << w)])
        return (str(v) if rng.random() < .6 else f"0x{v:x}"), v

    def emit(self, todo):
        rng = self.rng
        o = []
        defs = {}
        o.append(f"space rom: width {self.width}, size {self.depth};" if rng.random() < .5 else f"space rom: size 0x{self.depth:x}, width {self.width};")
        o.append("space rom;")
        o.append("fields rom: {")
        for f in self.decl:
            o.append(f"  {f[0]}: {f[6]};" + rng.choice(["", "  // a comment; with => things"]))
        o.append("};")
        must = [f for f in self.fields if f[5] is None]
        code = []
        for run in todo:
            code.append(f"origin {run[0]};" if rng.random() < .7 else f"origin 0x{run[0]:x};")
            for a in run:
                vals = {f[0]: f[5] for f in self.fields}
                asg = [f for f in self.fields if f in must or rng.random() < .5]
                rng.shuffle(asg)
                if not asg:
                    asg = [self.fields[0]]
                parts = []
                for f in asg:
                    t, v = self.value(f)
                    vals[f[0]] = v
                    p = f"{f[0]} => {t}"
                    if rng.random() < .15:
                        m = f"M_{len(defs)}" if False else "MAC" + "".join(rng.choice("ABCDEFGHIJ") for _ in range(4))
                        if m not in defs:
                            defs[m] = p
                            p = m
                    parts.append(p)
                lab = "".join(f"{l}: " for l, ad in self.labels.items() if ad == a)
                j = rng.choice([", ", ",", ", \\\n      "])
                code.append(lab + j.join(parts) + ";")
                self.words[a] = vals
        o += [f"#define {m} {b}" for m, b in defs.items()]
        return "\n".join(o + code) + "\n"

    def word(self, a):
        if a not in self.words:
            return 0
        return sum(v << f[3] for f in self.fields for v in [self.words[a][f[0]]])

    def features(self):
        return (self.layout, min(self.gaps, 3), len(self.fields), self.depth, tuple(sorted(f[1] for f in self.fields)), bool(self.labels))


def parse_hex(text):
    out, a = {}, 0
    for l in text.split():
        if l[0] == "@":
            a = int(l[1:], 16)
        else:
            out[a] = int(l, 16)
            a += 1
    return out


def parse_fdef(text):
    out, cur = {}, None
    lines = text.split("\n")
    m = re.match(r"word width (\d+)", lines[0])
    w = int(m[1]) if m else None
    for l in lines[1:]:
        m = re.match(r"field (\w+) lsb (\d+) width (\d+)( enum)?", l)
        if m:
            cur = m[1]
            out[cur] = (int(m[2]), int(m[3]), {} if m[4] else None)
            continue
        m = re.match(r"\s+(\w+) = (\d+)", l)
        if m:
            out[cur][2][m[1]] = int(m[2])
    return w, out


def check_rom(rom, depth, width, fields, words, rng, hexf=None, fdef=None, full=False):
    """Compare one assembled component with its denotation; yields messages. fields: {name: (lsb, width, enum)}"""
    from amaranth import Value, Shape
    from amaranth.sim import Simulator

    def word(a):
        return sum(words[a][n] << f[0] for n, f in fields.items()) if a in words else 0
    layout = rom.fields.shape()
    names = {n for n, _ in layout}
    for n, (lsb, w, _) in fields.items():
        if n not in names:
            return [f"field {n} missing from the layout"], 0
        fd = layout[n]
        if (fd.offset, Shape.cast(fd.shape).width) != (lsb, w):
            return [f"field {n}: source declares bits {lsb}+:{w}, the layout has {fd.offset}+:{Shape.cast(fd.shape).width}"], 0
    want_aw = max(0, (depth - 1).bit_length())
    if len(rom.addr) != want_aw:
        return [f"address port is {len(rom.addr)} bits wide for {depth} words"], 0
    cont = list(rom.ucode_contents)
    if len(cont) != depth:
        return [f"contents have {len(cont)} words, space has {depth}"], 0
    for a in range(depth):
        if cont[a] != word(a):
            return [f"contents[{a:#x}] = {cont[a]:#x}, source denotes {word(a):#x}"], 0
    if hexf is not None:
        h = parse_hex(hexf)
        if h != {a: word(a) for a in words}:
            return ["hex file disagrees with the source: " + str([(hex(a), hex(h.get(a, -1)), hex(word(a))) for a in sorted(set(h) | set(words)) if h.get(a) != (word(a) if a in words else None)][:3])], 0
    if fdef is not None:
        w, d = parse_fdef(fdef)
        if w != width or {n: v[:2] for n, v in d.items()} != {n: f[:2] for n, f in fields.items()}:
            return [f"field-definition file disagrees with the source: width {w}/{width}, {d}"], 0
        for n, f in fields.items():
            if f[2] is not None and d[n][2] != f[2]:
                return [f"field-definition file lists {d[n][2]} for {n}, source declares {f[2]}"], 0
    sim = Simulator(rom)
    sim.add_clock(1e-6)
    bad = []
    nread = [0]
    sigs = {n: Value.cast(getattr(rom.fields, n)) for n in fields}
    seq = list(range(depth)) if full or depth <= 24 else sorted(words)[:24]
    seq += [rng.randrange(depth) for _ in range(8)]
    rng.shuffle(seq)

    async def tb(ctx):
        for a in seq:
            ctx.set(rom.addr, a)
            await ctx.tick()
            if rng.random() < .5:      # the output must be registered: moving the address now may not show
                ctx.set(rom.addr, rng.randrange(depth))
                await ctx.delay(1e-8)
            for n, s in sigs.items():
                got = int(ctx.get(s)) & ((1 << fields[n][1]) - 1)
                exp = words[a][n] if a in words else 0
                nread[0] += 1
                if got != exp:
                    bad.append(f"ROM output at {a:#x}: field {n} reads {got:#x}, source says {exp:#x}")
                    return
    sim.add_testbench(tb)
    sim.run()
    return bad, nread[0]


def reject_cases(case, rng):
    """(what, source, map) that must raise ValueError"""
    from amaranth import unsigned, Shape
    fs = case.fields
    f = rng.choice(fs)
    m = dict(case.map)
    del m[f[0]]
    yield "unmapped field", case.src, m or {"zz": unsigned(1)}
    for f in rng.sample(fs, len(fs)):
        if f[1] != "enum":
            m = dict(case.map)
            m[f[0]] = unsigned(f[2] + rng.choice([1, 2, 64]))
            yield "field narrower than its map entry", case.src, m
            m = dict(case.map)
            m[f[0]] = unsigned(rng.randrange(0, f[2]))
            yield "field wider than its map entry", case.src, m
            break
    for f in fs:
        if f[1] == "enum" and f[2] > max(1, max(f[4].values()).bit_length()):
            m = dict(case.map)
            m[f[0]] = enum.Enum("N" + f[0], {n.upper(): v for n, v in f[4].items()})
            yield "enum field wider than its map entry", case.src, m
    en = [f for f in fs if f[1] == "enum"]
    if en:
        f = rng.choice(en)
        e = f[4]
        canon = {}
        for n, v in e.items():
            canon.setdefault(v, n)

        def with_(items):
            m = dict(case.map)
            m[f[0]] = enum.Enum("R" + f[0], {n.upper(): v for n, v in items.items()})
            return m
        n = rng.choice(list(e))
        bad = dict(e)
        del bad[n]
        if bad:
            yield "enum member missing in the map", case.src, with_(bad)
        free = [v for v in range(min(1 << f[2], 200)) if v not in e.values()]
        if free:
            bad = dict(e)
            bad["qextra"] = free[0]
            yield "enum member missing in the source", case.src, with_(bad)
        others = [v for v in [(1 << f[2]) - 1, *range(min(1 << f[2], 200))] if v != e[n]]
        bad = dict(e)
        bad[n] = rng.choice(others)
        yield "enum value mismatch", case.src, with_(bad)
        bad = {("q" + k if k == n else k): v for k, v in e.items()}
        yield "enum member renamed", case.src, with_(bad)
        from amaranth.lib import enum as aenum
        ns = aenum.EnumMeta.__prepare__("X", (aenum.Enum,), shape=unsigned(f[2] + 1))
        for k, v in e.items():
            ns[k.upper()] = v
        m = dict(case.map)
        m[f[0]] = aenum.EnumMeta("W", (aenum.Enum,), ns, shape=unsigned(f[2] + 1))
        yield "enum width mismatch", case.src, m
        m = dict(case.map)
        m[f[0]] = unsigned(f[2])
        yield "enumeration mapped to a plain shape", case.src, m
    two = "space other: width 8, size 16;\n" + case.src
    yield "two address spaces", two, case.map
    two = case.src.replace("space rom;", f"space zother: width {case.width}, size {case.depth};\nspace rom;", 1)
    yield "two address spaces", two, case.map


def worker(arg):
    seed, n, wd, maxsec, only = arg
    setup_path()
    import warnings
    warnings.simplefilter("ignore")
    from amaranth.hdl import UnusedElaboratable
    from m5meta import M5MetaError
    from sentinel.ucoderom import UCodeROM
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    def late(*_):
        raise TimeoutError("no result after 150 s")
    signal.signal(signal.SIGALRM, late)
    st = dict(sources=0, refused_by_assembler=0, fields=0, words=0, reads=0, gap2=0, shuffled=0, files=0, rejections=0, oracle_disagreements=0, sim=0)
    rej, feats, viol = {}, set(), []
    tmp = os.path.join(wd, f"w{seed & 0xffffff}")
    os.makedirs(tmp, exist_ok=True)
    default_map = dict(UCodeROM.field_map)
    for i in range(n):
        if only is not None and i != only:
            continue
        if time.time() - t0 > maxsec or len(viol) >= 5:
            break
        signal.alarm(150)
        rng = random.Random(f"{seed}-{i}")
        c = Case(rng)
        rep = dict(seed=seed, case=i, source=c.src, map={k: repr(v) for k, v in c.map.items()})
        kw = {}
        use_files = rng.random() < .5
        if use_files:
            kw = {k: rng.choice((str, Path))(os.path.join(tmp, f"a{seed}.{k}")) for k in ("hex", "field_defs")}
            if rng.random() < .4:
                del kw[rng.choice(("hex", "field_defs"))]
            for f in kw.values():
                if rng.random() < .5:
                    Path(f).write_text("stale contents\n" * 3000)
                else:
                    Path(f).unlink(missing_ok=True)
        if rng.random() < .5:
            p = Path(tmp) / f"micro{i % 7}.asm"
            p.write_text(c.src)
            main = p if rng.random() < .7 else open(p)
        else:
            main = StringIO(c.src)
        try:
            rom = UCodeROM(main_file=main, field_map=c.map, **kw)
        except M5MetaError:
            st["refused_by_assembler"] += 1
            continue
        except Exception as ex:
            viol.append(dict(key="valid source raised " + type(ex).__name__, msg=f"valid source raised {type(ex).__name__}: {ex} (layout {c.layout}, {c.gaps} gaps)", **rep))
            continue
        fields = {f[0]: (f[3], f[2], f[4]) for f in c.fields}
        # cross-check of the two oracles on sources the mini-assembler can place
        if c.layout in ("explicit", "gaps", "shuffled", "auto"):
            d, w, mf, mw = miniasm(c.src)
            if (d, w) != (c.depth, c.width) or mw != c.words or {k: v[:2] for k, v in mf.items()} != {k: v[:2] for k, v in fields.items()}:
                st["oracle_disagreements"] += 1
                continue
        absent = [k for k in kw if not os.path.exists(kw[k])]
        hx = open(kw["hex"]).read() if "hex" in kw and not absent else None
        fd = open(kw["field_defs"]).read() if "field_defs" in kw and not absent else None
        try:
            msgs, nr = check_rom(rom, c.depth, c.width, fields, c.words, rng, hx, fd)
        except Exception as ex:
            msgs, nr = [f"using the assembled component raised {type(ex).__name__}: {ex}"], 0
        msgs += [f"requested {k} file was not written: options {sorted(kw)}" for k in absent]
        st["sources"] += 1
        st["sim"] += 1
        st["reads"] += nr
        st["fields"] += len(fields)
        st["words"] += len(c.words)
        st["gap2"] += c.gaps >= 2
        st["shuffled"] += c.layout == "shuffled" and [f[0] for f in c.decl] != [f[0] for f in c.fields]
        st["files"] += use_files
        feats.add(c.features())
        for m in msgs:
            viol.append(dict(key=re.sub(r"0x[0-9a-f]+|\d+", "N", m.split(":")[0])[:60], msg=m, **rep))
        if rng.random() < .25:
            for what, src, fm in reject_cases(c, rng):
                st["rejections"] += 1
                rej[what] = rej.get(what, 0) + 1
                try:
                    UCodeROM(main_file=StringIO(src), field_map=fm)
                except ValueError:
                    continue
                except Exception as ex:
                    r = f"raised {type(ex).__name__} ({ex})"
                else:
                    r = "was accepted"
                viol.append(dict(key=f"{what} not rejected", msg=f"{what}: {r} instead of being rejected with ValueError", **{**rep, "source": src, "map": {k: repr(v) for k, v in fm.items()}}))
        if UCodeROM.field_map != default_map:
            viol.append(dict(key="default map changed", msg="assembling with an alternate field_map changed the default field_map", **rep))
            break
    signal.alarm(0)
    return st, rej, feats, viol


def shipped(chk, rng):
    from sentinel.ucoderom import UCodeROM
    path = UCodeROM.main_microcode_file()
    text = Path(path).read_text()
    d, w, fields, words = miniasm(text)
    hx, fd = chk.path("s.hex"), chk.path("s.fdef")
    reads = 0
    for kw in (dict(hex=hx, field_defs=fd), dict(main_file=Path(path)), dict(main_file=StringIO(text))):
        rom = UCodeROM(**kw)
        files = "hex" in kw
        msgs, n = check_rom(rom, d, w, {k: v[:3] for k, v in fields.items()}, words, rng, open(hx).read() if files else None,
                            open(fd).read() if files else None, full=True)
        reads += n
        for m in msgs:
            chk.violation("shipped microcode: " + m.split(":")[0], "shipped microcode: " + m)
    # a supplied map replaces the default one, whatever it lacks
    full = dict(UCodeROM.field_map)
    drop = rng.choice(sorted(full))
    for what, fm in (("an empty map", {}), ("a map of one field", {drop: full[drop]}), ("a map without one field", {k: v for k, v in full.items() if k != drop})):
        try:
            UCodeROM(main_file=StringIO(text), field_map=fm)
        except ValueError:
            continue
        except Exception as ex:
            r = f"raised {type(ex).__name__} ({ex})"
        else:
            r = "was accepted"
        chk.violation(f"shipped microcode with {what} not rejected", f"shipped microcode with {what} ({sorted(fm)[:1]}): {r} instead of being rejected with ValueError")
    return len(words), reads


def run(pid):
    chk = Check(pid)
    try:
        from sentinel.ucoderom import UCodeROM  # noqa: F401
        nw, nr = 0, 0
        try:
            nw, nr = shipped(chk, random.Random(SEED))
        except Exception as ex:
            chk.violation("shipped microcode raised " + type(ex).__name__, f"assembling the shipped microcode raised {type(ex).__name__}: {ex}")
        n, sec = (220, 300) if TIER == "quick" else (20000, 660)
        args = [(int(hashlib.sha256(f"{SEED}-{TIER}-{k}".encode()).hexdigest()[:12], 16), n, chk.dir, sec, None) for k in range(NCPU)]
        with concurrent.futures.ProcessPoolExecutor(NCPU, multiprocessing.get_context("fork")) as p:    # unlike Pool, notices a worker that died
            try:
                res = list(p.map(worker, args))
            except concurrent.futures.process.BrokenProcessPool as ex:
                raise Inconclusive(f"a worker died: {ex}")
        tot, rej, feats = {}, {}, set()
        for st, r, f, viol in res:
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
            for k, v in r.items():
                rej[k] = rej.get(k, 0) + v
            feats |= f
            for v in viol:
                chk.violation(**v)
        chk.evaluations = tot["reads"] + nr
        chk.distinct = len(feats)
        chk.coverage.update(tot, rejections_by_kind=rej, shipped_words=nw, shipped_field_reads=nr)
        chk.rule = ("Each evaluation is one field value read at the ROM component's port in simulation and compared with what the source denotes; sources "
                    "are random (fields, gaps, order, enums, defaults, labels, macros, files) plus the shipped microcode. Distinct: sources differing in (layout "
                    "style, number of gaps, field count and kinds, depth, labels).")
        rng = random.Random(f"{args[0][0]}-0")
        chk.samples = [dict(source=Case(rng).src)]
        chk.assumptions = ["sources the assembler library m5meta itself refuses are outside the property"]
        if tot["oracle_disagreements"]:
            raise Inconclusive(f"{tot['oracle_disagreements']} sources on which the two oracles disagree")
        floors = [("sources", tot["sources"], 500), ("several gaps", tot["gap2"], 100), ("out of order", tot["shuffled"], 20), ("rejections", tot["rejections"], 500)]
        return chk.finish([] if chk.violations else floors)
    except Inconclusive as e:
        return chk.inconclusive(e)
