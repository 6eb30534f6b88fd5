"""Lower an elaborated Amaranth design (its NIR netlist) to C.

This is the "instrumented build" of the framework: the netlist that Amaranth
itself would hand to Yosys is translated, cell for cell, to a C function, so
that hostile workloads can run at millions of clock cycles per second.  The
translation is validated against Amaranth's own simulator (see xval.py).
"""
from amaranth.hdl import _ir, _nir
from amaranth.hdl._ast import Signal, Value as AValue, ValueCastable
from amaranth.lib import wiring


class Unsupported(Exception):
    pass


def elaborate(top, extra_ports=None, name="top"):
    """Netlist of `top` with its signature members as ports.

    Returns (netlist, inputs {name: (start, width)}, outputs {name: Value}).
    """
    ports = {}
    for path, member, value in top.signature.flatten(top):
        if isinstance(value, ValueCastable):
            value = value.as_value()
        if isinstance(value, AValue):
            d = (_ir.PortDirection.Input if member.flow == wiring.In
                 else _ir.PortDirection.Output)
            ports["__".join(map(str, path))] = (value, d)
    if extra_ports:
        ports.update(extra_ports)
    frag = _ir.Fragment.get(top, None)
    nl = _ir.build_netlist(frag, ports, name=name)
    return nl


def _ctype(w):
    if w <= 8:
        return "uint8_t"
    if w <= 16:
        return "uint16_t"
    if w <= 32:
        return "uint32_t"
    if w <= 64:
        return "uint64_t"
    if w <= 128:
        return "u128"
    raise Unsupported(f"width {w}")


def _mask(w):
    if w <= 64:
        return f"0x{(1 << w) - 1:x}ull"
    return f"((((u128)0x{((1 << w) - 1) >> 64:x}ull) << 64) | 0xffffffffffffffffull)"


def _const(v, w):
    v &= (1 << w) - 1
    if w <= 64:
        return f"0x{v:x}ull"
    return f"((((u128)0x{v >> 64:x}ull) << 64) | 0x{v & (2**64 - 1):x}ull)"


BITWISE = ("~", "&", "|", "^")


class Lower:
    """Generate C for one netlist."""

    def __init__(self, nl, prefix="dut", observe=None):
        self.nl = nl
        self.prefix = prefix
        self.lines = []
        self.regs = []       # (name, width, init)
        self.next = []       # code lines for tick
        self.mems = []
        self.tables = []
        self.switches = set()
        self.observe = observe or {}
        self.top_in = {}
        for name, (start, width) in nl.top.ports_i.items():
            self.top_in[name] = (start, width)
        self.clk_net = None
        for i, c in enumerate(nl.cells):
            if isinstance(c, (_nir.FlipFlop, _nir.SyncReadPort,
                              _nir.SyncWritePort)):
                if c.clk_edge != "pos":
                    raise Unsupported("negedge")
                if self.clk_net is None:
                    self.clk_net = c.clk
                elif self.clk_net != c.clk:
                    raise Unsupported("several clocks")
                if isinstance(c, _nir.FlipFlop) and c.arst != 0:
                    raise Unsupported("async reset")
        # net -> (cname, bit): where each cell-output bit lives
        self.loc = {}

    # -- expressions ------------------------------------------------------
    def netloc(self, net):
        """(C expression, bit) of a non-constant net."""
        cell, bit = net.cell, net.bit
        if cell == 0:
            for name, (start, width) in self.top_in.items():
                if start <= bit < start + width:
                    return f"S->i_{name}", bit - start, width
            raise Unsupported(f"top bit {bit}")
        key = (cell, bit)
        if key in self.split:
            return self.splitname(cell, bit), 0, 1
        c = self.nl.cells[cell]
        if isinstance(c, _nir.FlipFlop):
            return f"S->r{cell}", bit, len(c.data)
        if isinstance(c, _nir.SyncReadPort):
            return f"S->r{cell}", bit, c.width
        return f"c{cell}", bit, self.width(cell)

    def splitname(self, cell, bit):
        if cell in self.switches:
            return f"(w{cell} == {bit})"
        return f"c{cell}_{bit}"

    def switch_table(self, c):
        """(value, winner per value) if c is a switch over one narrow value"""
        value = None
        pats = []
        for net in c.inputs:
            if not net.is_cell:
                return None
            mt = self.nl.cells[net.cell]
            if not isinstance(mt, _nir.Matches):
                return None
            if value is None:
                value = mt.value
            if mt.value != value or len(value) > 12:
                return None
            pats.append([(int(p.replace("0", "1").replace("-", "0"), 2),
                          int(p.replace("-", "0"), 2)) for p in mt.patterns])
        rows = []
        for v in range(1 << len(value)):
            win = -1
            for i, ps in enumerate(pats):
                if any(v & m == k for m, k in ps):
                    win = i
                    break
            rows.append(win)
        return value, rows

    def width(self, idx):
        c = self.nl.cells[idx]
        return len(list(c.output_nets(idx)))

    def expr(self, value):
        w = len(value)
        if w == 0:
            return "0"
        if w > 128:
            raise Unsupported(f"value of {w} bits")
        big = w > 64
        terms = []
        pos = 0
        const = 0
        while pos < w:
            net = value[pos]
            if net.is_const:
                const |= net.const << pos
                pos += 1
                continue
            name, bit, fw = self.netloc(net)
            n = 1
            while pos + n < w and not value[pos + n].is_const:
                nm, b, _ = self.netloc(value[pos + n])
                if nm != name or b != bit + n:
                    break
                n += 1
            e = name
            if bit:
                e = f"({e} >> {bit})"
            if bit + n != fw:
                e = f"({e} & {_mask(n)})"
            if pos:
                e = f"((({'u128' if big else 'uint64_t'}){e}) << {pos})"
            elif big:
                e = f"((u128){e})"
            else:
                e = f"((uint64_t){e})"
            # replication of one net (sign extension) handled bit by bit
            terms.append(e)
            pos += n
        # compress sign-extension replication
        if const or not terms:
            terms.append(_const(const, w))
        return "(" + " | ".join(terms) + ")"

    def sexpr(self, value):
        """int64_t sign-extended"""
        w = len(value)
        if w > 64:
            raise Unsupported("signed > 64")
        return f"(((int64_t)({self.expr(value)} << {64 - w})) >> {64 - w})"

    def bexpr(self, net):
        if net.is_const:
            return str(net.const)
        name, bit, fw = self.netloc(net)
        if fw == 1:
            return name
        return f"(({name} >> {bit}) & 1)"

    # -- scheduling --------------------------------------------------------
    def is_state(self, c):
        return isinstance(c, (_nir.FlipFlop, _nir.SyncReadPort))

    def is_comb(self, c):
        return isinstance(c, (_nir.Operator, _nir.Part, _nir.Matches,
                              _nir.PriorityMatch, _nir.AssignmentList,
                              _nir.AsyncReadPort))

    def deps_cell(self, idx):
        c = self.nl.cells[idx]
        out = set()
        for net in c.input_nets():
            if net.is_cell and net.cell != 0 and \
                    self.is_comb(self.nl.cells[net.cell]):
                out.add(net.cell)
        return out

    def schedule(self):
        cells = [i for i, c in enumerate(self.nl.cells) if self.is_comb(c)]
        for i, c in enumerate(self.nl.cells):
            if not (self.is_comb(c) or self.is_state(c) or
                    isinstance(c, (_nir.Top, _nir.Memory,
                                   _nir.SyncWritePort))):
                raise Unsupported(type(c).__name__)
        # Tarjan SCC at cell granularity
        import sys
        sys.setrecursionlimit(100000)
        index, low, stack, on, order, cnt = {}, {}, [], set(), [], [0]

        def visit(v):
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            for u in self.deps_cell(v):
                if u not in index:
                    visit(u)
                    low[v] = min(low[v], low[u])
                elif u in on:
                    low[v] = min(low[v], index[u])
            if low[v] == index[v]:
                comp = []
                while True:
                    u = stack.pop()
                    on.discard(u)
                    comp.append(u)
                    if u == v:
                        break
                order.append(comp)
        for v in cells:
            if v not in index:
                visit(v)
        self.split = set()
        out = []
        for comp in order:
            if len(comp) == 1 and comp[0] not in self.deps_cell(comp[0]):
                v = comp[0]
                if self.width(v) > 64 and isinstance(
                        self.nl.cells[v], _nir.PriorityMatch):
                    for b in range(self.width(v)):
                        self.split.add((v, b))
                out.append((v, None))
                continue
            for v in comp:
                for b in range(self.width(v)):
                    self.split.add((v, b))
            # bit-level toposort within the component
            done, busy = set(), set()
            comps = set(comp)

            def bvisit(v, b):
                if (v, b) in done:
                    return
                if (v, b) in busy:
                    raise Unsupported("combinational cycle")
                busy.add((v, b))
                for net, _ in self.nl.cells[v].comb_edges_to(b):
                    if net.is_cell and net.cell in comps:
                        bvisit(net.cell, net.bit)
                done.add((v, b))
                out.append((v, b))
            for v in comp:
                for b in range(self.width(v)):
                    bvisit(v, b)
        return out

    # -- cells -------------------------------------------------------------
    def emit_cell(self, idx, bit):
        c = self.nl.cells[idx]
        w = self.width(idx) if bit is None else 1
        if bit is None and w > 64 and isinstance(c, _nir.PriorityMatch):
            o = self.lines.append
            tab = self.switch_table(c)
            if tab is not None:
                value, rows = tab
                self.tables.append(
                    f"static const int16_t T{idx}[{len(rows)}] = {{"
                    + ",".join(map(str, rows)) + "};")
                o(f"int w{idx} = {self.bexpr(c.en)} ? T{idx}[{self.expr(value)}] : -1;")
                self.switches.add(idx)
                return
            o(f"uint8_t p{idx} = {self.bexpr(c.en)};")
            for b in range(w):
                i = self.bexpr(c.inputs[b])
                o(f"uint8_t c{idx}_{b} = p{idx} & {i}; p{idx} &= !{i};")
            return
        name = f"c{idx}" if bit is None else f"c{idx}_{bit}"
        ty = _ctype(w)
        out = self.lines.append

        def sl(v):
            return v if bit is None else v[bit:bit + 1]

        if isinstance(c, _nir.Operator):
            op = c.operator
            ins = c.inputs
            if bit is not None and op not in BITWISE + ("m",) and len(
                    list(c.output_nets(idx))) > 1:
                raise Unsupported(f"bit-split {op}")
            if op == "~":
                e = f"(~{self.expr(sl(ins[0]))})"
            elif op == "-":
                e = f"(0 - {self.expr(ins[0])})"
            elif op in ("+", "*"):
                e = f"({self.expr(ins[0])} {op} {self.expr(ins[1])})"
            elif op == "&" or op == "|" or op == "^":
                e = f"({self.expr(sl(ins[0]))} {op} {self.expr(sl(ins[1]))})"
            elif op == "-" and len(ins) == 2:
                e = f"({self.expr(ins[0])} - {self.expr(ins[1])})"
            elif op == "b" or op == "r|":
                e = f"({self.expr(ins[0])} != 0)"
            elif op == "r&":
                n = len(ins[0])
                e = f"({self.expr(ins[0])} == {_mask(n)})"
            elif op == "r^":
                if len(ins[0]) > 64:
                    raise Unsupported("r^ > 64")
                e = f"(__builtin_parityll({self.expr(ins[0])}))"
            elif op in ("==", "!="):
                e = f"({self.expr(ins[0])} {op} {self.expr(ins[1])})"
            elif op in ("u<", "u>", "u<=", "u>="):
                e = f"({self.expr(ins[0])} {op[1:]} {self.expr(ins[1])})"
            elif op in ("s<", "s>", "s<=", "s>="):
                e = f"({self.sexpr(ins[0])} {op[1:]} {self.sexpr(ins[1])})"
            elif op in ("<<", "u>>", "s>>"):
                n = len(ins[0])
                if n > 128:
                    raise Unsupported("wide shift")
                a, b = self.expr(ins[0]), self.expr(ins[1])
                if op == "<<":
                    e = f"(({b}) >= {n} ? 0 : ({a} << ({b})))"
                elif op == "u>>":
                    e = f"(({b}) >= {n} ? 0 : ({a} >> ({b})))"
                elif n > 64:
                    e = f"((u128)((((__int128)(((u128){a}) << {128 - n})) >> {128 - n}) >> (({b}) >= {n} ? 127 : ({b}))))"
                else:
                    a = self.sexpr(ins[0])
                    e = f"((uint64_t)({a} >> (({b}) >= {n} ? 63 : ({b}))))"
            elif op == "m":
                e = (f"({self.expr(ins[0])} ? {self.expr(sl(ins[1]))} : "
                     f"{self.expr(sl(ins[2]))})")
            else:
                raise Unsupported(f"operator {op}")
            if op == "-" and len(ins) == 2:
                e = f"({self.expr(ins[0])} - {self.expr(ins[1])})"
            out(f"{ty} {name} = ({ty})({e} & {_mask(w)});")
        elif isinstance(c, _nir.Part):
            if bit is not None:
                raise Unsupported("bit-split part")
            n = len(c.value)
            off = f"({self.expr(c.offset)} * {c.stride}ull)"
            if c.value_signed:
                v = self.sexpr(c.value)
                e = f"((uint64_t)({v} >> ({off} > 63 ? 63 : {off})))"
            else:
                if n > 128:
                    raise Unsupported("wide part")
                e = f"({off} >= {n} ? 0 : ({self.expr(c.value)} >> {off}))"
            out(f"{ty} {name} = ({ty})({e} & {_mask(w)});")
        elif isinstance(c, _nir.Matches):
            v = self.expr(c.value)
            n = len(c.value)
            tests = []
            for p in c.patterns:
                m = int("".join("0" if ch == "-" else "1" for ch in p) or "0",
                        2)
                k = int("".join("1" if ch == "1" else "0" for ch in p) or "0",
                        2)
                if m == (1 << n) - 1:
                    tests.append(f"(v == {_const(k, n)})")
                else:
                    tests.append(f"((v & {_const(m, n)}) == {_const(k, n)})")
            vt = "u128" if n > 64 else "uint64_t"
            out(f"{ty} {name}; {{ {vt} v = {v}; {name} = "
                f"{' || '.join(tests) or '0'}; }}")
        elif isinstance(c, _nir.PriorityMatch):
            if bit is None:
                out(f"{ty} {name} = 0; if ({self.bexpr(c.en)}) {{ "
                    f"{ty} v = {self.expr(c.inputs)}; "
                    f"{name} = ({ty})(v & (0 - ({'u128' if w > 64 else 'uint64_t'})v)); }}")
            else:
                prev = c.inputs[:bit]
                e = f"({self.bexpr(c.en)} && {self.bexpr(c.inputs[bit])}"
                for n in prev:
                    e += f" && !{self.bexpr(n)}"
                out(f"{ty} {name} = {e});")
        elif isinstance(c, _nir.AssignmentList):
            d = sl(c.default)
            out(f"{ty} {name} = ({ty}){self.expr(d)};")
            full = len(c.default)
            insw = None
            for a in c.assignments:
                v = a.value
                cn = a.cond
                sw = (cn.cell if bit is None and cn.is_cell and
                      cn.cell in self.switches else None)
                if insw is not None and sw != insw:
                    out("}")
                if sw is not None and sw != insw:
                    out(f"switch (w{sw}) {{")
                insw = sw
                if sw is not None:
                    out(f"case {cn.bit}: ")
                    m = ((1 << len(v)) - 1) << a.start
                    out(f"{name} = ({ty})(({name} & {_const(~m, full)}) | "
                        f"(((uint64_t){self.expr(v)}) << {a.start})); break;")
                    continue
                start = a.start
                if start >= full:
                    continue
                v = v[:full - start]
                if bit is not None:
                    if not (start <= bit < start + len(v)):
                        continue
                    out(f"if ({self.bexpr(a.cond)}) {name} = "
                        f"({ty}){self.bexpr(v[bit - start])};")
                    continue
                if a.cond.is_const and not a.cond.const:
                    continue
                pre = "" if a.cond.is_const else f"if ({self.bexpr(a.cond)}) "
                if start == 0 and len(v) == full:
                    out(f"{pre}{name} = ({ty}){self.expr(v)};")
                else:
                    m = ((1 << len(v)) - 1) << start
                    keep = _const(~m, full)
                    big = full > 64
                    e = self.expr(v)
                    out(f"{pre}{name} = ({ty})(({name} & {keep}) | "
                        f"((({'u128' if big else 'uint64_t'}){e}) << {start}));")
            if insw is not None:
                out("}")
        elif isinstance(c, _nir.AsyncReadPort):
            mem = self.nl.cells[c.memory]
            if bit is not None:
                raise Unsupported("bit-split memory")
            out(f"{ty} {name} = 0; {{ uint64_t a = {self.expr(c.addr)}; "
                f"if (a < {mem.depth}) {name} = S->m{c.memory}[a]; }}")
        else:
            raise Unsupported(type(c).__name__)

    def dictionary(self, need):
        """Constants the design compares with: (value, mask, width)"""
        out = set()

        def add(v, m, w):
            if 6 <= w <= 64:
                out.add((v, m, w))
        for i, c in enumerate(self.nl.cells):
            if i not in need:
                continue
            if isinstance(c, _nir.Operator) and c.operator in ("==", "!=", "u<", "u>", "u<=", "u>=", "s<", "s>", "s<=", "s>="):
                for k in (0, 1):
                    a = c.inputs[k]
                    if all(n.is_const for n in a) and not all(n.is_const for n in c.inputs[1 - k]):
                        add(sum(n.const << j for j, n in enumerate(a)), (1 << len(a)) - 1, len(a))
            elif isinstance(c, _nir.Matches) and len(c.value) >= 6:
                for p in c.patterns:
                    add(int(p.replace("-", "0"), 2), int(p.replace("0", "1").replace("-", "0"), 2), len(p))
        return out

    # -- everything --------------------------------------------------------
    def generate(self):
        nl, P = self.nl, self.prefix
        order = self.schedule()
        outs = []
        for name, value in nl.top.ports_o.items():
            outs.append((name, value))
        for name, value in self.observe.items():
            outs.append(("obs_" + name, value))
        # liveness: only emit what is needed by outputs/state
        need = set()
        work = []

        def want(value):
            for net in value:
                if net.is_cell and net.cell != 0 and net.cell not in need:
                    need.add(net.cell)
                    work.append(net.cell)
        for _, v in outs:
            want(v)
        for i, c in enumerate(nl.cells):
            if isinstance(c, _nir.SyncWritePort):
                want(tuple(c.input_nets()))
        while work:
            idx = work.pop()
            c = nl.cells[idx]
            if isinstance(c, _nir.PriorityMatch) and len(c.inputs) > 64:
                tab = self.switch_table(c)
                if tab is not None:
                    want((c.en,) + tuple(tab[0]))
                    continue
            want(tuple(c.input_nets()))
        for idx, bit in order:
            if idx in need:
                self.emit_cell(idx, bit)
        state = [(i, c) for i, c in enumerate(nl.cells)
                 if self.is_state(c) and i in need]
        mems = [(i, c) for i, c in enumerate(nl.cells)
                if isinstance(c, _nir.Memory)]
        o = []
        o.append("#include <stdint.h>\n#include <string.h>\n"
                 "typedef unsigned __int128 u128;\n")
        o.append(f"typedef struct {P}_s {{")
        for name, (start, width) in self.top_in.items():
            o.append(f"  {_ctype(width)} i_{name};")
        for name, v in outs:
            o.append(f"  {_ctype(max(1, len(v)))} o_{name};")
        for i, c in state:
            w = len(c.data) if isinstance(c, _nir.FlipFlop) else c.width
            o.append(f"  {_ctype(w)} r{i}, n{i};")
        for i, c in mems:
            o.append(f"  {_ctype(c.width)} m{i}[{c.depth}]; /* {'.'.join(nl.modules[c.module_idx].name)} {c.name} */")
        for i, c in enumerate(nl.cells):
            if isinstance(c, _nir.SyncWritePort):
                o.append(f"  uint32_t wa{i}; {_ctype(len(c.data))} wd{i}, we{i};")
        o.append(f"}} {P}_t;\n")
        # init
        o.append(f"static inline void {P}_init({P}_t *S) {{ memset(S, 0, sizeof *S);")
        for i, c in state:
            if isinstance(c, _nir.FlipFlop):
                o.append(f"  S->r{i} = {_const(c.init, len(c.data))};")
        for i, c in mems:
            for a, v in enumerate(c.init):
                if v:
                    o.append(f"  S->m{i}[{a}] = {_const(v, c.width)};")
        o.append("}\n")
        o += self.tables
        o.append(f"static inline void {P}_eval({P}_t *S) {{")
        o += ["  " + ln for ln in self.lines]
        for name, v in outs:
            o.append(f"  S->o_{name} = {self.expr(v)};")
        for i, c in state:
            if isinstance(c, _nir.FlipFlop):
                o.append(f"  S->n{i} = {self.expr(c.data)};")
        wports = [(i, c) for i, c in enumerate(nl.cells)
                  if isinstance(c, _nir.SyncWritePort)]
        for i, c in wports:
            o.append(f"  S->wa{i} = {self.expr(c.addr)}; S->wd{i} = "
                     f"{self.expr(c.data)}; S->we{i} = {self.expr(c.en)};")
        for i, c in state:
            if isinstance(c, _nir.SyncReadPort):
                mem = nl.cells[c.memory]
                o.append(f"  S->n{i} = S->r{i}; if ({self.bexpr(c.en)}) {{ "
                         f"uint32_t a = {self.expr(c.addr)}; "
                         f"S->n{i} = a < {mem.depth} ? S->m{c.memory}[a] : 0;")
                for t in c.transparent_for:
                    wp = nl.cells[t]
                    o.append(f"    if (a == S->wa{t}) S->n{i} = (S->n{i} & ~S->we{t})"
                             f" | (S->wd{t} & S->we{t});")
                o.append("  }")
        o.append("}\n")
        o.append(f"static inline void {P}_tick({P}_t *S) {{")
        for i, c in state:
            o.append(f"  S->r{i} = S->n{i};")
        for i, c in wports:
            mem = nl.cells[c.memory]
            o.append(f"  if (S->we{i} && S->wa{i} < {mem.depth}) "
                     f"S->m{c.memory}[S->wa{i}] = (S->m{c.memory}[S->wa{i}]"
                     f" & ~S->we{i}) | (S->wd{i} & S->we{i});")
        o.append("}\n")
        # fault injection: the output latches of memories nothing writes (ROMs)
        roms = [(i, c) for i, c in state if isinstance(c, _nir.SyncReadPort)
                and not any(w.memory == c.memory for _, w in wports)]
        o.append(f"enum {{ {P}_nrom = {len(roms)} }};")
        o.append(f"static inline void {P}_romglitch({P}_t *S, uint64_t g, int stale) {{")
        for i, c in roms:
            mem = nl.cells[c.memory]
            o.append(f"  S->r{i} = stale ? S->m{c.memory}[g % {mem.depth}] : ({_ctype(c.width)})(g * 0x9e3779b97f4a7c15ull >> 3) & {_mask(c.width)};")
        o.append("}\n")
        d = sorted(self.dictionary(need))
        o.append(f"static const struct {{ uint64_t v, m; int w; }} {P}_dict[] = {{"
                 + ",".join(f"{{{_const(v, 64)},{_const(m, 64)},{w}}}" for v, m, w in d) + (", " if d else "") + "{0,0,0}};")
        o.append(f"enum {{ {P}_ndict = {len(d)} }};")
        self.state_cells = [i for i, _ in state]
        self.mem_cells = [i for i, _ in mems]
        return "\n".join(o)
