From abc315716e5a263b0bf805283bbe46a91ec7dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 1/8] fix: clear mcause interrupt bit when a synchronous
 exception is latched

ExceptionRouter set mcause.interrupt when an external interrupt was taken,
but nothing ever cleared it. After the first interrupt, every synchronous
exception (ECALL, illegal instruction, misaligned access...) was reported
with bit 31 of mcause set, i.e. as an interrupt.
---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From 1ec20a1ccf0021fb634dfcc199fc5fc11e64858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 2/8] fix: report illegal instruction for ECALL-like words with
 bad low bits

The ECALL comparison in ExceptionControl ignores the low bits of the word, so
0x70, 0x71 and 0x72 (which are not 32-bit RV32I encodings) trapped with cause
11 (environment call) instead of 2 (illegal instruction).
---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..0cad555 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.valid.eq(1),
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From 49abfc31565bbd5e9a0b2855da2d5caabf59b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 3/8] fix: report rd_addr 0 on RVFI for instructions that trap

An instruction that traps writes no register, but FormalTop kept the RD field
of e.g. a misaligned load, a misaligned jump, an illegal word or an interrupted
instruction on rvfi_rd_addr together with stale rd_wdata. Only CSR instructions
that trap were handled.
---
 src/sentinel/formal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..55339fa 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,13 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps doesn't write a register, whatever its RD field
+        # says.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0)
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From 63b6f10c5e6ab82d8415ffb708ed275718329733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 4/8] fix: lay out microcode fields with several, leading or
 out-of-order gaps

---
 src/sentinel/ucoderom.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..4ba2233 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -2,7 +2,6 @@
 
 from io import IOBase
 from pathlib import Path
-from itertools import tee, zip_longest
 
 from amaranth import Shape, unsigned, Module
 from amaranth.lib.data import StructLayout
@@ -255,11 +254,18 @@ class UCodeROM(Component):
         layout = dict()
         padding_id = 0
 
-        c, n = tee(space.fields.items())
-        next(n, None)
-        curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
+        # Fields need not be declared in order, and there may be gaps anywhere,
+        # including below the first field.
+        fields = sorted(space.fields.items(), key=lambda nf: nf[1].origin)
+
+        end = 0
+        for curr_n, curr_f in fields:
+            if curr_f.origin != end:
+                layout[f"_padding_{padding_id}"] = \
+                    unsigned(curr_f.origin - end)
+                padding_id += 1
+            end = curr_f.origin + curr_f.width
 
-        for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
             if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:
@@ -268,10 +274,6 @@ class UCodeROM(Component):
                 layout[curr_n] = \
                     self._check_and_convert_dynamic_shape(curr_f)
 
-            if next_f and curr_f.origin + curr_f.width != next_f.origin:
-                layout[f"_padding_{padding_id}"] = \
-                    unsigned(next_f.origin - (curr_f.origin + curr_f.width))
-
         self.field_layout = StructLayout(layout)
 
     def _check_and_convert_dynamic_shape(self, field):
-- 
2.43.0


From f6a89759ea2bcf633247955d8fc6de606b0451ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 5/8] fix: reject microcode enums with missing members with
 ValueError

---
 src/sentinel/ucoderom.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 4ba2233..2532e6e 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -299,10 +299,12 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
+        members = getattr(se_class, "__members__", {})
+        if not (all(k.upper() in members and
+                    members[k.upper()].value == field.enum[k]
                     for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
-                    for k in se_class)):
+                all(field.enum.get(k.name.lower()) == k.value
+                    for k in members.values())):
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
                              "fields and values.\n"
-- 
2.43.0


From 046e2b7a5b4ff750dfd0c0b31728bd644521a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 6/8] fix: take the ALU compare borrow from bit width, not bit
 32

---
 src/sentinel/alu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/alu.py b/src/sentinel/alu.py
index 1783669..079285a 100644
--- a/src/sentinel/alu.py
+++ b/src/sentinel/alu.py
@@ -377,7 +377,7 @@ class ALU(Component):
             with m.Case(OpType.SRA):
                 m.d.comb += self.o_mux.eq(self.sar.o)
             with m.Case(OpType.CMP_LTU):
-                m.d.comb += self.o_mux.eq(self.sub.o[32])
+                m.d.comb += self.o_mux.eq(self.sub.o[self.width])
 
         m.d.sync += self.o.eq(self.o_mux)
         with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
-- 
2.43.0


From adcf0b41840022db21bce17ca1aca27d0b8a979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 7/8] fix: allow_zero_wr must not block writes to address 1

---
 src/sentinel/datapath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/datapath.py b/src/sentinel/datapath.py
index d7faf5e..b47fdce 100644
--- a/src/sentinel/datapath.py
+++ b/src/sentinel/datapath.py
@@ -409,7 +409,7 @@ class RegFile(Component):
                 m.d.comb += [
                     r_port.en.eq(self.pub.ctrl.reg_read),
                     w_port.en.eq(self.pub.ctrl.reg_write &
-                                 (self.pub.adr_w != 0 |
+                                 ((self.pub.adr_w != 0) |
                                   self.pub.ctrl.allow_zero_wr))
                 ]
             with m.Case(CSROp.READ_CSR):
-- 
2.43.0


From 8e84718bdc0d15627ed3f7a07240c63cdca505ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:43 +0000
Subject: [PATCH 8/8] fix: an empty field_map supplied to UCodeROM is no longer
 replaced by the default one

---
 src/sentinel/ucoderom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 2532e6e..2f2695b 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -165,7 +165,7 @@ class UCodeROM(Component):
         self.field_defs = field_defs
         self.hex = hex
 
-        if field_map:
+        if field_map is not None:
             self.field_map = field_map
 
         self.assemble()
-- 
2.43.0

