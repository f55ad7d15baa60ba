From 136102fb98d73ecf2905e56bf97745150b03fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 01/55] fix: BitQueue corrupted chunks that cross a word
 boundary

---
 semantic_codec/architecture/bits.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/semantic_codec/architecture/bits.py b/semantic_codec/architecture/bits.py
index 5638551..bae44e7 100644
--- a/semantic_codec/architecture/bits.py
+++ b/semantic_codec/architecture/bits.py
@@ -18,22 +18,24 @@ class BitQueue(object):
         Bits.check_range(0, from_bit)
 
         if self._eq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
-            w = max(0, BitQueue.WORD_SIZE - self._eq_bit - 1)
+            # The chunk does not fit in the current word: store what fits and continue in a new word.
+            # Bits beyond the end of the value are zeros
+            w = BitQueue.WORD_SIZE - self._eq_bit
+            last = min(BitQueue.WORD_SIZE, from_bit + self.word_size) - 1
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+                                                        from_bit, min(last, from_bit + w - 1), self._eq_bit)
             self._eq_word += 1
             self._bytes.append(0)
 
-            w = max(0, self._eq_bit + self.word_size - BitQueue.WORD_SIZE - 1)
-            self._eq_bit = 0
-            self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
-                                                        from_bit, from_bit + w, self._eq_bit)
+            if from_bit + w <= last:
+                self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word], from_bit + w, last, 0)
+            self._eq_bit = self.word_size - w
         else:
             w = max(0, from_bit + self.word_size - 1)
             self._bytes[self._eq_word] = Bits.copy_bits(value, self._bytes[self._eq_word],
                                                         from_bit, w, self._eq_bit)
+            self._eq_bit += self.word_size
 
-        self._eq_bit += self.word_size
         if self._eq_bit > BitQueue.WORD_SIZE - 1:
             self._eq_bit -= BitQueue.WORD_SIZE
             self._eq_word += 1
@@ -51,13 +53,17 @@ class BitQueue(object):
 
         if self._dq_bit + self.word_size - 1 > BitQueue.WORD_SIZE - 1:
             w = BitQueue.WORD_SIZE - self._dq_bit
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            last = min(BitQueue.WORD_SIZE, to_bit + self.word_size) - 1
+            copied = min(last, to_bit + w - 1) - to_bit
+            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + copied, to_bit)
             self._bytes.pop(0)
             self._eq_word -= 1
 
-            w = self._dq_bit + self.word_size - BitQueue.WORD_SIZE
+            to_bit += w
+            w = self.word_size - w
             self._dq_bit = 0
-            value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
+            if to_bit <= last:
+                value = Bits.copy_bits(self._bytes[0], value, 0, last - to_bit, to_bit)
         else:
             w = self.word_size
             value = Bits.copy_bits(self._bytes[0], value, self._dq_bit, self._dq_bit + w - 1, to_bit)
-- 
2.43.0


From de28936707a38f29829dd6334434c7a0fa64dfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 02/55] fix: registers_used dropped R0 used as base or index of
 a memory operand

---
 semantic_codec/architecture/capstone_instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 5fb5176..f8ced74 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -68,11 +68,12 @@ class CAPSInstruction(Instruction):
                 if not register in result:
                     result.append(register)
             if i.type == ARM_OP_MEM:
+                # Zero means there is no register, do not confuse it with R0
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
-                if register != 0 and not register in result:
+                if i.value.mem.base != 0 and not register in result:
                     result.append(register)
                 register = AReg.CAPSTONE_REGS[i.value.mem.index]
-                if register != 0 and not register in result:
+                if i.value.mem.index != 0 and not register in result:
                     result.append(register)
 
         return result
-- 
2.43.0


From 083a7e991e0902e7e9f6380467f6eff456dc06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 03/55] fix: store instructions were never reported as writing
 to memory

---
 semantic_codec/architecture/capstone_instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index f8ced74..3804b26 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRBT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_OP_IMM
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -133,7 +133,7 @@ class CAPSInstruction(Instruction):
 
     def _writes_to_memory(self):
         # If its an store
-        return ARM_INS_STR >= self._cap.id >= ARM_INS_STRBT
+        return ARM_INS_STR <= self._cap.id <= ARM_INS_STRT
 
     def _read_from_memory(self):
         for op in self._cap.operands:
-- 
2.43.0


From 832ec407d5374fe24c1c7ef81c830a17141dae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 04/55] fix: jumping_address was negative over 0x7fffffff and
 took any immediate as a branch target

---
 semantic_codec/architecture/capstone_instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 3804b26..341e99d 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -170,10 +170,11 @@ class CAPSInstruction(Instruction):
         Jumping address for branching instructions
         """
         if self.is_branch:
-            if self._jumping_address is None:
+            # Only direct branches encode the address, in the rest of them it is known at runtime
+            if self._jumping_address is None and self.opcode_field in [ARM_INS_B, ARM_INS_BL, ARM_INS_BLX]:
                 for op in self._cap.operands:
                     if op.type == ARM_OP_IMM:
-                        self._jumping_address = op.value.imm
+                        self._jumping_address = op.value.imm & 0xffffffff
                         break
                 # On the other hand, one can compute the jumping address
                 #address = self.encoding & Bits.set(23, 0)
-- 
2.43.0


From 9b7d58a9cc594445e4244f2ea82f97fc137899bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 05/55] fix: functions without instructions were given the
 range of address 0

---
 semantic_codec/metadata/probabilistic_rules/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/rules.py b/semantic_codec/metadata/probabilistic_rules/rules.py
index adbe6a9..2015289 100644
--- a/semantic_codec/metadata/probabilistic_rules/rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/rules.py
@@ -29,7 +29,9 @@ def from_functions_to_list_and_addr(functions):
     fns = {}
 
     for f in functions:
-        fns[f.start_addr()] = (f.start_addr(), f.final_addr())
+        # Symbols without instructions (i.e. data) have no address range
+        if len(f.instructions) > 0:
+            fns[f.start_addr()] = (f.start_addr(), f.final_addr())
         for inst in f.instructions:
             result.append(inst)
 
-- 
2.43.0


From d92a7a4fbaff5966a433a372322dd92b77b14478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:03 +0000
Subject: [PATCH 06/55] fix: corrupt_bits did not generate all candidates with
 three or more bits

---
 semantic_codec/corruption/corruption.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 43d5e9e..0fff0c0 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -101,10 +101,9 @@ def corrupt_bits(hi, lo, amount, instruction):
             bits.append(x)
 
     for i in range(1, 2 ** amount):
-        noise, j, m = 0, 1, math.log(i, 2) + 1
-        while j <= m:
-            noise += Bits.on(bits[j - 1]) if j & i else 0
-            j <<= 1
+        noise = 0
+        for j in range(0, amount):
+            noise += Bits.on(bits[j]) if (1 << j) & i else 0
         noised = instruction ^ noise
         if noised not in result:
             result.append(noised)
-- 
2.43.0


From 9091ace0bb4811290a202c11a38350e213729793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:10 +0000
Subject: [PATCH 07/55] fix: corrupt_program never rejected invalid percents

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 0fff0c0..c58a97d 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -150,7 +150,7 @@ def corrupt_program(program, err_percent, max_amount):
     :param max_amount: Maximal amount of bit errors per instructions, meaning that each corrupted instructions can
                        have up to this amount of errors
     """
-    if 0 > err_percent > 100:
+    if err_percent < 0 or err_percent > 100:
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-- 
2.43.0


From 8ff6430f7583ebe4f7922749876f62672e3581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 08/55] fix: corrupt_program did not reach all addresses and
 hang when the program has gaps

---
 semantic_codec/corruption/corruption.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index c58a97d..35286be 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -160,16 +160,11 @@ def corrupt_program(program, err_percent, max_amount):
 
     corrupted_amount = math.ceil(max(1, len_program * err_percent))
 
-    # Find the min and max address in the program
-    min_addr = sys.maxsize
-    max_addr = -sys.maxsize
-    for k in program:
-        min_addr = k if min_addr > k else min_addr
-        max_addr = k if max_addr < k else max_addr
+    addresses = [k for k in program]
 
     while corrupted_amount > 0:
-        p = random.randint(0, len_program) * 4 + min_addr
-        if p in program and len(program[p]) == 1:
+        p = addresses[random.randint(0, len_program - 1)]
+        if len(program[p]) == 1:
             a = random.randint(1, max_amount)
             for r in corrupt_bits(31, 0, a, program[p][0].encoding):
                 if _encoding_not_in_list(r, program[p]):
-- 
2.43.0


From d0349ec95d0eed89141512e404a680d0f67ac8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:20 +0000
Subject: [PATCH 09/55] fix: predict_corruption missed errors at the end of the
 data

---
 semantic_codec/corruption/corruption.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 35286be..3acedc9 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -239,7 +239,7 @@ def predict_corruption(packet_count, bits_per_interleave, data_size, interleave,
     errors = []
 
     # Check that all errors were properly reported
-    while b[0] < total_bits:
+    while any(x < total_bits for x in b):
         for i in range(0, len(b)):
             if b[i] < total_bits:
                 bte = int(math.floor(b[i] / WORD_SIZE))
-- 
2.43.0


From 02564597dd8b911fd65a6c04b356c0c8ddbb4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 10/55] fix: PacketCorruptor repeated candidates

---
 semantic_codec/corruption/corruptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index 9e452f2..b44ae5f 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -54,12 +54,12 @@ class PacketCorruptor(Corruptor):
         self.corrupted_program_path = save_corrupted_path
 
     def _corrupt_address(self, tuples, address, program):
-        corrupted = []
+        corrupted, encodings = [], set()
         for inst in program[address]:
             for c_inst in corrupt_all_bits_tuples(tuples, inst.encoding):
-                arm_inst = CAPSInstruction(c_inst, program[address][0].address)
-                if not arm_inst in corrupted:
-                    corrupted.append(arm_inst)
+                if not c_inst in encodings:
+                    encodings.add(c_inst)
+                    corrupted.append(CAPSInstruction(c_inst, program[address][0].address))
         program[address] = corrupted
 
     def corrupt(self, program):
-- 
2.43.0


From fa5598e42a96601e513246c1813a6b0fbf644bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 11/55] fix: corrupt_all_bits_tuples could not corrupt the
 highest bit of a word

---
 semantic_codec/corruption/corruption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 3acedc9..9d1b32a 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -71,7 +71,8 @@ def corrupt_all_bits_tuples(tuples, instruction):
     size = 0
     for t in tuples:
         l, h = t
-        Bits.check_range(l, h)
+        # The end of the range is exclusive: bit 31 is corrupted by a range that ends in 32
+        Bits.check_range(l, h - 1 if h > l else h)
         size += h - l
     result = [instruction] * (2 ** size)
     kk = 1
-- 
2.43.0


From ebcfbc4def9dc3a584a6b155a543fb952538c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 12/55] fix: corrupt_program corrupted one instruction too many
 due to rounding errors

---
 semantic_codec/corruption/corruption.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/semantic_codec/corruption/corruption.py b/semantic_codec/corruption/corruption.py
index 9d1b32a..6ce7a82 100644
--- a/semantic_codec/corruption/corruption.py
+++ b/semantic_codec/corruption/corruption.py
@@ -155,11 +155,10 @@ def corrupt_program(program, err_percent, max_amount):
         raise RuntimeError("Percent cannot be larger than 100 or lower than 0")
 
     max_amount = max(1, max_amount)
-    err_percent /= 100
 
     len_program = len(program)
 
-    corrupted_amount = math.ceil(max(1, len_program * err_percent))
+    corrupted_amount = math.ceil(max(1, len_program * err_percent / 100))
 
     addresses = [k for k in program]
 
-- 
2.43.0


From f691e917d9833058c601c0a532bcb91264ac853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 13/55] fix: PacketCorruptor failed when the lost packets carry
 none of the bits of the program

---
 semantic_codec/corruption/corruptors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/corruption/corruptors.py b/semantic_codec/corruption/corruptors.py
index b44ae5f..b508703 100644
--- a/semantic_codec/corruption/corruptors.py
+++ b/semantic_codec/corruption/corruptors.py
@@ -85,15 +85,18 @@ class PacketCorruptor(Corruptor):
         errors.sort(key=lambda x: x[0] * vv + x[1])
 
         # Corrupt the program
-        k, tuples, e = 0, [], errors[0]
-        current = e[0]
+        k, tuples = 0, []
+        # The lost packets may carry none of the bits of the program
+        if errors:
+            e = errors[0]
+            current = e[0]
 
         # Create a nice progress bar. TODO: Factor this out so other widgets can be used as well.
         progress_bar = TextProgressBar(iteration=0, total=len(errors),
                                        prefix='Corrupting:',
                                        decimals=0, bar_length=50, print_dist=4)
 
-        while k <= len(errors):
+        while errors and k <= len(errors):
             if current != e[0] or k == len(errors):
                 if len(tuples) != 0 and current < len(addresses):
                     address = addresses[current]
-- 
2.43.0


From 9fa966c28c64cd07248ba28392be26b8496a27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:46 +0000
Subject: [PATCH 14/55] fix: deinterleave dropped the end of the data and
 mishandled lost packets

---
 semantic_codec/interleaver/interleaver2d.py | 29 +++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index bafd194..d81b751 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -195,27 +195,34 @@ def deinterleave(packets, interleave_order, word_size=8):
     :param word_size: Size of the arrays word size
     :return: Data and the error list
     """
-    k = len(interleave_order) - 1
-    while k > -1 and packets[interleave_order[k]] is None:
-        k -= 1
-
-    last_queue = None
-    if k == 0:
+    received = [packets[p] for p in interleave_order if packets.get(p) is not None]
+    if not received:
         raise RuntimeError('All packets are lost')
-    else:
-        last_queue = packets[interleave_order[k]]
 
     errors = []
 
+    chunks = 0
     data = BitQueue(word_size)
-    while not last_queue.empty():
-        for p in interleave_order:
+    while any(not q.empty() for q in received):
+        order = interleave_order
+        if any(q.empty() for q in received):
+            # The data ends in the middle of the order: stop at the last packet that still has something
+            last = max(i for i, p in enumerate(order) if packets.get(p) is not None and not packets[p].empty())
+            order = order[:last + 1]
+        for p in order:
             a = 0
-            if not p in packets or packets[p] is None:
+            if packets.get(p) is None:
                 errors.append((data._eq_word, data._eq_bit))
             else:
                 a = packets[p].dequeue(a, 0)
             data.enqueue(a, 0)
+            chunks += 1
+
+    # The data has whole words, so whatever is missing from the last one was lost
+    while chunks * word_size % BitQueue.WORD_SIZE != 0:
+        errors.append((data._eq_word, data._eq_bit))
+        data.enqueue(0, 0)
+        chunks += 1
 
     return (data.get_bytes(), errors)
 
-- 
2.43.0


From 931fe8215273fb7eae36c8b29c39982de8421e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 15/55] fix: the discarding score eliminated every push and pop

---
 semantic_codec/metadata/recuperator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 38f1bdf..3d1980e 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -109,7 +109,7 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Conditional register score
     pc = scores_dict['pc'] if 'pc' in scores_dict else 1
     # Register score
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
+    pr = scores_dict['pr'] if 'pr' in scores_dict else 1
     # Register distance score
     prd = scores_dict['prd'] if 'prd' in scores_dict else 1
     # Opcode score
@@ -122,9 +122,6 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
     hi = max(pc, po, pr)
-    # Register score again
-    pr = scores_dict['pr'] if 'pr' in scores_dict else 0
-
     if hi == 1 and lo != 0:
         score = 1
     elif lo == 0 or inst.ignore:
-- 
2.43.0


From a3d0695570e3f3e6c284cab9a3f068bbdbdbc8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 16/55] fix: the discarding score could be one for ignored
 candidates

---
 semantic_codec/metadata/recuperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 3d1980e..5868e69 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -122,10 +122,10 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
     hi = max(pc, po, pr)
-    if hi == 1 and lo != 0:
-        score = 1
-    elif lo == 0 or inst.ignore:
+    if lo == 0 or inst.ignore:
         score = 0
+    elif hi == 1:
+        score = 1
     else:
         # The basic score all instructions must abide to
         score = pc * po * pcf
-- 
2.43.0


From 948cc4c11bdc05d5cd12452212fab39ab1fbaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 17/55] fix: candidates were taken as certain because of their
 registers, eliminating originals

---
 semantic_codec/metadata/recuperator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 5868e69..65708af 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -121,7 +121,10 @@ def probabilistic_rules_remove_step(scores_dict, inst):
     # Branch distance score
     pbd = scores_dict['pbd'] if 'pbd' in scores_dict else 1
 
-    hi = max(pc, po, pr)
+    # Every address having a candidate with a certain condition or opcode is known to have it. The same cannot be said
+    # of the registers: the original may use registers that other candidates do not
+    hi = max(pc, po)
+
     if lo == 0 or inst.ignore:
         score = 0
     elif hi == 1:
-- 
2.43.0


From 4138b277c8795e801559b46cc39ab45a38cc43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 18/55] fix: the push/pop probability was stored under a name
 the scores do not read

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 65708af..42ba5ac 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -326,7 +326,7 @@ class ProbabilisticRecuperator(Recuperator):
         if p2 > 0:
             p2 = self._model.push_given_pop_at_fn_middle
 
-        inst.scores_by_rule['popu'] = max(p1, p2, p3)
+        inst.scores_by_rule['pupo'] = max(p1, p2, p3)
 
     def _compute_proper_cfg(self, inst, cpmd, addr):
         """
-- 
2.43.0


From 7da93c5ccfae72dae99156c49d7804847f3ed5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 19/55] fix: scoring a branch failed in programs that do not
 start with a known function

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 42ba5ac..660202d 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -514,7 +514,7 @@ class ProbabilisticRecuperator(Recuperator):
             # therefore the jmp_address will be unknown
             inst.scores_by_rule['pbd'] = self._model.just_any_jump_is_valid * 2
         # Award high prob to addresses inside this method or to the begin of other methods
-        elif jmp_addr >= current_fn and jmp_addr <= self._functions[current_fn][1]:
+        elif current_fn in self._functions and current_fn <= jmp_addr <= self._functions[current_fn][1]:
             inst.scores_by_rule['pbd'] = self._model.branch_to_this_method
         # Award medium-high prob to a branch to the start of other method
         elif jmp_addr in self._functions:
-- 
2.43.0


From 7449b1179a0e650f278561d76ee8c598afd72c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 20/55] fix: scoring a push or pop failed when the other end of
 the function has only ignored candidates

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 660202d..7496b2c 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -261,7 +261,7 @@ class ProbabilisticRecuperator(Recuperator):
                                 break
                         if a:
                             reg_equals_inst = True
-        p1 = c / t
+        p1 = c / t if t > 0 else 0
         return p1, reg_equals_inst
 
     def _compute_push_pop(self, inst, cpmd, addr, current_fn):
-- 
2.43.0


From ff819f3fe3e629f050056ed2e5e166739dd730fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 21/55] fix: scoring a push failed in functions with gaps

---
 semantic_codec/metadata/recuperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 7496b2c..adff698 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -298,6 +298,8 @@ class ProbabilisticRecuperator(Recuperator):
                 for a in range(last_addr, addr, -4):
                     cb2 = cb1
                     tb2 = tb1
+                    if a not in self._program:
+                        continue
                     for i in self._program[a]:
                         if not i.ignore:
                             tb1 += 1
-- 
2.43.0


From c45e232601390d01fa5acede8828dac53d4234f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 22/55] fix: counting rules missed the only valid candidate of
 an address unless it was the first

---
 .../metadata/probabilistic_rules/counting_rules.py         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index e7d51df..d93e854 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -28,9 +28,10 @@ class CountingRule(Rule):
             len_inst = self.candidate_count(instructions)
             if len_inst == 1:
                 # Remove one of the available elements
-                if not instructions[0].ignore:
-                    for v in self._counting_field(instructions[0]):
-                        remaining[v] -= 1
+                for c in instructions:
+                    if not c.ignore:
+                        for v in self._counting_field(c):
+                            remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 750093323776432f0fdf3c83d8f4ee1eebc0980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 23/55] fix: counting rules failed when the only valid
 candidate has a value absent from the metadata

---
 semantic_codec/metadata/probabilistic_rules/counting_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/counting_rules.py b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
index d93e854..e1ea6d4 100644
--- a/semantic_codec/metadata/probabilistic_rules/counting_rules.py
+++ b/semantic_codec/metadata/probabilistic_rules/counting_rules.py
@@ -31,7 +31,8 @@ class CountingRule(Rule):
                 for c in instructions:
                     if not c.ignore:
                         for v in self._counting_field(c):
-                            remaining[v] -= 1
+                            if v in remaining:
+                                remaining[v] -= 1
             else:
                 # Count the candidates to obtain that element
                 for c in instructions:
-- 
2.43.0


From 1d9eda4e3546cdd17d26792047cd5c1099dcbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 24/55] fix: the exact sum constraint failed when two fields of
 a candidate exceed the metadata

---
 semantic_codec/solution/solution_builders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index be581f1..eda3043 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -61,6 +61,7 @@ class ExactFieldSumConstraint(Constraint):
                             for v in vv:
                                 if not v in exactsum or sum[v] + 1 > exactsum[v]:
                                     domain.hideValue(value)
+                                    break
                     if not domain:
                         return False
         if missing:
-- 
2.43.0


From 4e33b08c2c2b46a9c64be06d83f1e43cd17c1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 25/55] fix: solutions were stored in too few bits when the
 candidates are not a power of two

---
 semantic_codec/solution/solution_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_builders.py b/semantic_codec/solution/solution_builders.py
index eda3043..ab00f72 100644
--- a/semantic_codec/solution/solution_builders.py
+++ b/semantic_codec/solution/solution_builders.py
@@ -252,7 +252,7 @@ class ForwardConstraintSolutionBuilder(AbstractForwardConstraintSolutionBuilder)
         :return:
         """
         if index is not None:
-            size = int(log(ln, 2)) if ln > 1 else 0
+            size = (ln - 1).bit_length()
             # Compute the size of the solution
             self._solution_size += size
             # Enqueue some bits to the solution
-- 
2.43.0


From 508a7364e72a129b492689073b2900e353fa7cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 26/55] fix: the number of solutions was a sum instead of a
 product

---
 semantic_codec/solution/solution_quality.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d45f28f..d7ef1f4 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -68,10 +68,9 @@ class SolutionQuality(object):
             else:
                 bins[k] = 1
 
-        i = 1
-        amount = 0
+        amount = 1
         for i in bins.keys():
-            amount += i ** bins[i]
+            amount *= i ** bins[i]
 
         self._solution_count = amount
         self._solution_count_bins = bins
-- 
2.43.0


From 6446d6e0824ed058f38a650b5a8ae133c5ef4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 27/55] fix: evaluating the quality forgot the number of
 solutions

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index d7ef1f4..386c55d 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -81,7 +81,7 @@ class SolutionQuality(object):
                 self._solution_size += (log(k, 2)) * bins[k]
 
     def evaluate(self):
-        self._solution_count = self._count_solutions(self._program)
+        self._count_solutions(self._program)
 
         # Change the probabilistic function to one more continous
         self._highest_depth = 0
-- 
2.43.0


From 542e4ba22bb55ce385cc643524ce233bc1a10e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 28/55] fix: evaluating the quality failed at addresses without
 candidates

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index 386c55d..cf5cdb0 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -110,8 +110,8 @@ class SolutionQuality(object):
             if not ln in self._highest_depth_bin:
                 self._highest_depth_bin[ln] = 0
 
-            r = (i+1) / ln
             if ln > 0:
+                r = (i+1) / ln
                 if r > self._highest_depth_bin[ln]:
                     self._highest_depth_bin[ln] = r
                     max_addr_bin[ln] = addr
-- 
2.43.0


From ec9334e28ff8b15aed146285ef1a78b48db0884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 29/55] fix: candidates were not sorted by score when one of
 them is all zeros

---
 semantic_codec/solution/solution_quality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/solution/solution_quality.py b/semantic_codec/solution/solution_quality.py
index cf5cdb0..6e5af45 100644
--- a/semantic_codec/solution/solution_quality.py
+++ b/semantic_codec/solution/solution_quality.py
@@ -97,7 +97,7 @@ class SolutionQuality(object):
             for inst in v:
                 if inst.encoding < min_encoding:
                     min_encoding = inst.encoding
-            v.sort(key=lambda x: 0 if min_encoding == 0 else (x.score() * 1000000000 + min_encoding/ x.encoding), reverse=True)
+            v.sort(key=lambda x: x.score() * 1000000000 + (min_encoding / x.encoding if x.encoding != 0 else 1), reverse=True)
             #v.sort(key=lambda x: x.score(), reverse=True)# * 1000000000 + x.encoding / max_encoding, reverse=True)
 
             # Count the depth bin
-- 
2.43.0


From b06d25cfc295b16b1225e9ace2c4dcdc7da4cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 30/55] fix: the range of a function with gaps ended before its
 last instruction

---
 semantic_codec/architecture/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/functions.py b/semantic_codec/architecture/functions.py
index 76a92e7..eb31547 100644
--- a/semantic_codec/architecture/functions.py
+++ b/semantic_codec/architecture/functions.py
@@ -16,7 +16,7 @@ class ElfFunction(object):
 
     def final_addr(self):
         if len(self.instructions) > 0:
-            return self.instructions[0].address + self.length_in_bytes() - 4
+            return self.instructions[-1].address
         else:
             return 0
 
-- 
2.43.0


From a64660b33d3ed5e7692a7d737b07e36258859171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 31/55] fix: the dominators could not be computed in graphs
 with unreachable nodes

---
 semantic_codec/static_analysis/dominators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index ab8e497..36b395b 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -25,6 +25,10 @@ def build_dominator_tree(graph, root):
     # Initialization
     vertex = dominator_tree_dfs(graph, root, [])
 
+    # Nodes that cannot be reached from the root do not take part in the dominance
+    for w in vertex:
+        w.predecessors = [p for p in w.predecessors if p in vertex]
+
     for i in range(len(vertex) - 1, 0, -1):
         w = vertex[i]
         p = w.dom_parent
-- 
2.43.0


From 658d9776c1216f560072433cf40552db5c7f26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:39 +0000
Subject: [PATCH 32/55] fix: computing the dominators a second time gave wrong
 results

---
 semantic_codec/static_analysis/cfg.py        | 6 ++++++
 semantic_codec/static_analysis/dominators.py | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 806d0ca..56817ae 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -334,6 +334,12 @@ class CFGBlock(object):
         # i.e. phi_functions[key] <- phi( phi_functions[key][0], ... phi_functions[key][n])
         self.phi_functions = {}
 
+        self.reset_dominance()
+
+    def reset_dominance(self):
+        """
+        Forgets all data computed by the dominance analysis
+        """
         # Data relative to the Dominator tree
         self.dom_idx = -1
         # Parent in the DFS tree needed to find the dominator
diff --git a/semantic_codec/static_analysis/dominators.py b/semantic_codec/static_analysis/dominators.py
index 36b395b..a17f9a7 100644
--- a/semantic_codec/static_analysis/dominators.py
+++ b/semantic_codec/static_analysis/dominators.py
@@ -22,7 +22,10 @@ def build_dominator_tree(graph, root):
     """
     Builds the Lengauer Tarjan dominator tree algorithm
     """
-    # Initialization
+    # Initialization. Forget the results of previous computations
+    for n in graph:
+        n.reset_dominance()
+        n.predecessors, n.successors = [], []
     vertex = dominator_tree_dfs(graph, root, [])
 
     # Nodes that cannot be reached from the root do not take part in the dominance
-- 
2.43.0


From 0af0a32c66e3bcfeef0ac3ed6509184e3d92f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 33/55] fix: the control-flow graph missed the jumps ahead

---
 semantic_codec/static_analysis/cfg.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 56817ae..a133590 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -131,6 +131,9 @@ class ARMControlFlowGraph(digraph):
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
                 r.add_edge((last_conditional, b))
 
+            if inst in self._pending_jumps:
+                self._add_multiple_edges(b, self._pending_jumps[inst])
+
             # There no need for a last conditional node since the last block was not conditionally executed
             return b, None
 
@@ -187,7 +190,7 @@ class ARMControlFlowGraph(digraph):
             to_node = self._get_node_with_inst(instruction_to_branch)
             if to_node is None:
                 # the node is not built yet
-                self._add_pending_jump(inst, branch)
+                self._add_pending_jump(instruction_to_branch, branch)
             elif to_node.kind == CFGBlock.COND:
                 # the node is a conditional
                 self.add_edge(branch, to_node)
@@ -261,18 +264,13 @@ class ARMControlFlowGraph(digraph):
             inst = self._instructions[i]
             if inst.is_undefined:
                 continue  # Ignore undefined instructions
-            if inst.conditional_field == last_cond_field:
-                last_cond_field = inst.conditional_field
+            # An instruction other jumps to starts a new block
+            if inst.conditional_field == last_cond_field and inst not in self._pending_jumps:
                 # First case, just add the instruction to the current block
                 # unless the current instruction is a branch:
                 if inst.is_branch:
                     cb = self._branch_instruction(cb, None, inst, end)
                     last_cond_field = None
-                elif inst in self._pending_jumps:
-                    b = self._add_node(CFGBlock([inst]))
-                    self._add_multiple_edges(b, self._pending_jumps[inst])
-                    r.add_edge((cb, b))
-                    cb = b
                 else:
                     cb.instructions.append(inst)
             else:
-- 
2.43.0


From 546cc9ab92f9d5fad38eb2140f56a1b7fc0576d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 34/55] fix: the control-flow graph had wrong transfers after
 branches and at the end

---
 semantic_codec/static_analysis/cfg.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index a133590..09aace7 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -108,9 +108,8 @@ class ARMControlFlowGraph(digraph):
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
 
-            # if the last block is a branch, we cannot receive control from it
-            # therefore only add and edge if is not a branch
-            if not cb.last_is_branch:
+            # if the last block does not pass control to the next, there is no edge
+            if cb is not None:
                 r.add_edge((cb, new_cond))
 
             # if a previous conditional existed, we must connect them both
@@ -125,7 +124,7 @@ class ARMControlFlowGraph(digraph):
         else:
             # If the new conditional is ALWAYS, then, there is no need for a conditional node,
             # just jump to here, unless of course the previous node was a branch
-            if not cb.last_is_branch:
+            if cb is not None:
                 r.add_edge((cb, b))
             # Make the last conditional jump here
             if last_conditional is not None and not r.has_edge((last_conditional, b)):
@@ -155,6 +154,7 @@ class ARMControlFlowGraph(digraph):
     def _branch_instruction(self, cb, branch, inst, end):
         """
         Creates a branch in the CFG due to a branching instruction
+        :return: The node passing control to the instruction after the branch, None if there is not such a node
         """
         # ----------------------------
         # Third case, the BRANCHES
@@ -166,6 +166,9 @@ class ARMControlFlowGraph(digraph):
             branch = self._add_node(CFGBlock([inst]))
         if cb is not None:
             r.add_edge((cb, branch))
+            if inst.conditional_field == AOpType.COND_ALWAYS:
+                # The branch is always taken
+                cb = None
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
@@ -279,10 +282,14 @@ class ARMControlFlowGraph(digraph):
                 #  created node and the last conditional the current inst conditional
                 cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
                 if inst.is_branch:
-                    self._branch_instruction(None, cb, inst, end)
+                    cb = self._branch_instruction(None, cb, inst, end)
+                    last_cond_field = None
 
-        if not r.has_edge((cb, end)):
+        if cb is not None and not r.has_edge((cb, end)):
             r.add_edge((cb, end))
+        # The last conditional instructions can be skipped
+        if last_cond_node is not None and not r.has_edge((last_cond_node, end)):
+            r.add_edge((last_cond_node, end))
         return self
 
 
-- 
2.43.0


From 3dc86086ca3390e32787ce1ed12b8a992ca36ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 35/55] fix: jumps to conditional instructions could not skip
 them in the control-flow graph

---
 semantic_codec/static_analysis/cfg.py | 68 ++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index 09aace7..bf17ae8 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -12,6 +12,9 @@ class ARMControlFlowGraph(digraph):
         self._instructions = instructions
         self._root_node = CFGBlock([], kind=CFGBlock.ROOT)
         self._pending_jumps = {}
+        # Conditional node of each conditional block and last conditional node seen while building
+        self._cond_nodes = {}
+        self._last_conditional = None
         self._has_computed_dominators = False
         self._has_computed_dominance_frontier = False
         self._last_idx = 0
@@ -76,22 +79,55 @@ class ARMControlFlowGraph(digraph):
         #  len(inst.registers_used()) > 0 or not in_memory
         pass
 
-    def _split_node(self, split, branch, instruction):
+    def _split_node(self, split, instruction):
         """
-        Split a node that receives in the middle a jump from a jumping instruction
+        Split a node that receives in the middle a jump from a jumping instruction, so the instruction is the first of it
         """
         index = split.instructions.index(instruction)
         if index > 0:
             up = self._add_node(CFGBlock(split.instructions[:index]))
             split.instructions = split.instructions[index:]
-            successors = []
-            successors.extend(self.incidents(split))
-            for i in successors:
-                self.del_edge((i, split))
-                self.add_edge((i, up))
+            self._move_incidents(split, up)
             self.add_edge((up, split))
+            if split in self._cond_nodes:
+                self._cond_nodes[up] = self._cond_nodes[split]
 
-        self.add_edge((branch, split))
+    def _move_incidents(self, node, dest):
+        """
+        Makes all the edges that go to a node go to another one
+        """
+        for i in list(self.incidents(node)):
+            self.del_edge((i, node))
+            self._add_multiple_edges(dest, [i])
+
+    def _jump_receiver(self, node, instruction):
+        """
+        Obtains the node receiving the jumps to an instruction of a given node. Conditional instructions can be
+        skipped, therefore is a conditional node who receives the jumps to them
+        """
+        self._split_node(node, instruction)
+        cond = self._cond_nodes.get(node)
+        if cond is None:
+            return node
+        if self.has_edge((cond, node)):
+            return cond
+
+        # The instruction is in the middle of a conditional block, so it needs a conditional node of its own
+        new_cond = self._add_node(CFGBlock([], kind=CFGBlock.COND))
+        self._move_incidents(node, new_cond)
+        self.add_edge((new_cond, node))
+        # Whoever skips the beginning of the conditional block decides now on the rest of it
+        for s in list(self.neighbors(cond)):
+            if self._cond_nodes.get(s) != cond:
+                self.del_edge((cond, s))
+                self._add_multiple_edges(s, [new_cond])
+        self._add_multiple_edges(new_cond, [cond])
+        for n, c in self._cond_nodes.items():
+            if c == cond and n.first.address >= instruction.address:
+                self._cond_nodes[n] = new_cond
+        if self._last_conditional == cond:
+            self._last_conditional = new_cond
+        return new_cond
 
     def _branch_conditional(self, inst, cb, last_conditional):
         """
@@ -107,6 +143,7 @@ class ARMControlFlowGraph(digraph):
             new_cond = self._add_node(CFGBlock([], kind=CFGBlock.COND))
             # Add an outgoing edge to the new block from the conditional
             r.add_edge((new_cond, b))
+            self._cond_nodes[b] = new_cond
 
             # if the last block does not pass control to the next, there is no edge
             if cb is not None:
@@ -164,6 +201,8 @@ class ARMControlFlowGraph(digraph):
         # Create the node with the explicit branch
         if branch is None:
             branch = self._add_node(CFGBlock([inst]))
+            if inst.conditional_field != AOpType.COND_ALWAYS:
+                self._cond_nodes[branch] = self._last_conditional
         if cb is not None:
             r.add_edge((cb, branch))
             if inst.conditional_field == AOpType.COND_ALWAYS:
@@ -194,12 +233,9 @@ class ARMControlFlowGraph(digraph):
             if to_node is None:
                 # the node is not built yet
                 self._add_pending_jump(instruction_to_branch, branch)
-            elif to_node.kind == CFGBlock.COND:
-                # the node is a conditional
-                self.add_edge(branch, to_node)
             else:
                 # the node is a block of instructions
-                self._split_node(to_node, branch, instruction_to_branch)
+                self._add_multiple_edges(self._jump_receiver(to_node, instruction_to_branch), [branch])
 
         return cb
 
@@ -258,7 +294,7 @@ class ARMControlFlowGraph(digraph):
         # Addresses of the jumps ahead, last conditional found,
         last_cond_field = None
         # Last "conditional" node created and last "unknown" node created
-        last_cond_node, unkwon_node = None, None
+        self._last_conditional, unkwon_node = None, None
         # Add ROOT and END to the graph
         cb = self._add_node(self.root_node)  # Make ROOT the current block
         end = self._add_node(CFGBlock([], kind=CFGBlock.END))
@@ -280,7 +316,7 @@ class ARMControlFlowGraph(digraph):
                 last_cond_field = inst.conditional_field
                 # Second case, the conditional is different. Make the current node the last
                 #  created node and the last conditional the current inst conditional
-                cb, last_cond_node = self._branch_conditional(inst, cb, last_cond_node)
+                cb, self._last_conditional = self._branch_conditional(inst, cb, self._last_conditional)
                 if inst.is_branch:
                     cb = self._branch_instruction(None, cb, inst, end)
                     last_cond_field = None
@@ -288,8 +324,8 @@ class ARMControlFlowGraph(digraph):
         if cb is not None and not r.has_edge((cb, end)):
             r.add_edge((cb, end))
         # The last conditional instructions can be skipped
-        if last_cond_node is not None and not r.has_edge((last_cond_node, end)):
-            r.add_edge((last_cond_node, end))
+        if self._last_conditional is not None and not r.has_edge((self._last_conditional, end)):
+            r.add_edge((self._last_conditional, end))
         return self
 
 
-- 
2.43.0


From 98f557a0cf9527dfcd9cb1a6b03fa9a02617effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 36/55] fix: branches to undefined instructions or beyond the
 analysed ones led nowhere in the control-flow graph

---
 semantic_codec/static_analysis/cfg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/static_analysis/cfg.py b/semantic_codec/static_analysis/cfg.py
index bf17ae8..31fd6a1 100644
--- a/semantic_codec/static_analysis/cfg.py
+++ b/semantic_codec/static_analysis/cfg.py
@@ -12,6 +12,8 @@ class ARMControlFlowGraph(digraph):
         self._instructions = instructions
         self._root_node = CFGBlock([], kind=CFGBlock.ROOT)
         self._pending_jumps = {}
+        # Number of instructions in the graph
+        self._count = len(instructions)
         # Conditional node of each conditional block and last conditional node seen while building
         self._cond_nodes = {}
         self._last_conditional = None
@@ -211,7 +213,9 @@ class ARMControlFlowGraph(digraph):
 
         # Find the instruction where we are going to branch to
         # It may be None as is not possible to find out using an static analysis
-        instruction_to_branch = inst.branch_to(self._instructions)
+        instruction_to_branch = inst.branch_to(self._instructions[:self._count])
+        if instruction_to_branch is not None and instruction_to_branch.is_undefined:
+            instruction_to_branch = None
         if instruction_to_branch is None:
             unknown_node = self._add_node(CFGBlock([], kind=CFGBlock.UNKNOWN_BRANCH))
             r.add_edge((branch, unknown_node))
@@ -285,6 +289,7 @@ class ARMControlFlowGraph(digraph):
             3.3 - If the branch has link, then the UNKWNON node returns to the next created Node
         """
         count = len(self._instructions) if count == -1 else count
+        self._count = count
 
         # TODO: Missing the jumps due to MOVs writing to PC
         r = self #
-- 
2.43.0


From 10783f322d374a3d9ccf812e28732ea89f8c3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 37/55] fix: bx and other writes to the program counter were
 taken as calls

---
 semantic_codec/architecture/capstone_instruction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 341e99d..213de02 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -150,6 +150,11 @@ class CAPSInstruction(Instruction):
         return self.opcode_field in [ARM_INS_B, ARM_INS_BX, ARM_INS_BL, ARM_INS_BLX] or \
                AReg.PC in self.registers_written()
 
+    @property
+    def is_branch_with_link(self):
+        # The link bit has another meaning in the rest of the instructions that branch
+        return self.opcode_field in [ARM_INS_BL, ARM_INS_BLX]
+
     @property
     def is_push_pop(self):
         return self._inst_is('push') or self._inst_is('pop')
-- 
2.43.0


From f81583492166caaa8f97305014dd80e777227d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 38/55] fix: the names given in a node remained in use in the
 nodes it does not dominate

---
 semantic_codec/static_analysis/ssa.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 6708f3e..3970a5e 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -195,16 +195,15 @@ class SSAFormBuilder(object):
                 val.append((var, stack[var][0]))
 
         # Continue the renaming process in the successors
-        for n in n.dom_successors:
-            self._rename_node(n, counter, stack)
+        for d in n.dom_successors:
+            self._rename_node(d, counter, stack)
 
         # Roll back the indexing
-        for phi in n.phi_functions:
-            var = phi[0]
-            for inst in n.instructions:
-                if var in inst.storages_written():
-                    stack[var].pop()
-            stack[var].pop()
+        for var, index in n.phi_functions:
+            stack[var].pop(0)
+        for inst in n.instructions:
+            for w in inst.storages_written():
+                stack[w].pop(0)
 
     def _remove_dead_phi(self):
         """
-- 
2.43.0


From 44e5a54d02ccf4984d9a2959e0e88872166497d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 39/55] fix: the SSA form failed in programs using floating
 point registers

---
 semantic_codec/static_analysis/ssa.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/semantic_codec/static_analysis/ssa.py b/semantic_codec/static_analysis/ssa.py
index 3970a5e..974cd2f 100644
--- a/semantic_codec/static_analysis/ssa.py
+++ b/semantic_codec/static_analysis/ssa.py
@@ -1,6 +1,7 @@
+from collections import defaultdict
+
 from pygraph.classes.digraph import digraph
 
-from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.static_analysis.cfg import CFGBlock
 from semantic_codec.static_analysis.dominators import build_dominator_tree
 
@@ -159,11 +160,9 @@ class SSAFormBuilder(object):
         """
         Rename the variables in the SSA
         """
-        counter = {}
-        stack = {}
-        for v in range(0, AReg.STORAGE_COUNT):
-            counter[v] = 0
-            stack[v] = [0]
+        # Besides the registers with a number of their own there are others (e.g. the floating point ones)
+        counter = defaultdict(int)
+        stack = defaultdict(lambda: [0])
 
         self._rename_node(self._root, counter, stack)
 
-- 
2.43.0


From 4f1c0148f10c427488cb10a7afde1fda00e202a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 40/55] fix: the first lost group of bits was never compressed

---
 semantic_codec/compressor/shiftcompressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 46366e9..010b67c 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -30,7 +30,7 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             k = r[0] * BitQueue.WORD_SIZE + r[1]
             del a[k:k + self._shift_count]
@@ -53,7 +53,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, 0, -1):
+        for i in range(len(self._remove_bits) - 1, -1, -1):
             r = self._remove_bits[i]
             if len(r) > 2:
                 continue
-- 
2.43.0


From 7a17e3ef86a33cd20d610d5ee6c2d91ec4cdb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 41/55] fix: the compressors ignored the size of the lost
 groups of bits

---
 semantic_codec/compressor/shiftcompressor.py | 33 ++++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 010b67c..7465547 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -14,6 +14,18 @@ class BitCompressor(object):
         self._data = data
         self.compressed_buffer = None
 
+    def _lost_positions(self):
+        """
+        Obtains the positions in the data of all bits to remove. Groups are (word, bit) or (word, bit, size) tuples, as
+        given by predict_corruption
+        :return: A sorted list with the position of each bit inside the data, once
+        """
+        total_bits = len(self._data) * BitQueue.WORD_SIZE
+        result = set()
+        for r in self._remove_bits:
+            k = r[0] * BitQueue.WORD_SIZE + r[1]
+            result.update(range(k, k + (r[2] if len(r) > 2 else self._shift_count)))
+        return sorted(k for k in result if k < total_bits)
 
 
 class ShiftCompressor(BitCompressor):
@@ -30,10 +42,8 @@ class ShiftCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, -1, -1):
-            r = self._remove_bits[i]
-            k = r[0] * BitQueue.WORD_SIZE + r[1]
-            del a[k:k + self._shift_count]
+        for k in reversed(self._lost_positions()):
+            del a[k]
 
         self.compressed_buffer = a.tobytes()
 
@@ -53,18 +63,7 @@ class SwapCompressor(BitCompressor):
         buf = struct.pack('%sI' % len(self._data), *self._data)
         a = bitarray(endian='big')
         a.frombytes(buf)
-        for i in range(len(self._remove_bits) - 1, -1, -1):
-            r = self._remove_bits[i]
-            if len(r) > 2:
-                continue
-            k = r[0] * BitQueue.WORD_SIZE + r[1]
-            if k >= len(a):
-                continue
-            for i in range(len(a) - self._shift_count, len(a)):
-                    a[k] = 0
-                    # k += 1
-                    # a[k] = a[i]
-                    # k += 1
-            #del a[-self._shift_count:]
+        for k in self._lost_positions():
+            a[k] = 0
 
         self.compressed_buffer = a.tobytes()
\ No newline at end of file
-- 
2.43.0


From a27032f168917297ca577ae29158aebd5009f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 42/55] fix: the compressors took the bits of each byte in the
 opposite order

---
 semantic_codec/compressor/shiftcompressor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantic_codec/compressor/shiftcompressor.py b/semantic_codec/compressor/shiftcompressor.py
index 7465547..f92c53e 100644
--- a/semantic_codec/compressor/shiftcompressor.py
+++ b/semantic_codec/compressor/shiftcompressor.py
@@ -39,8 +39,8 @@ class ShiftCompressor(BitCompressor):
         super(ShiftCompressor, self).__init__(remove_bits, data, default_shift_count)
 
     def compress(self):
-        buf = struct.pack('%sI' % len(self._data), *self._data)
-        a = bitarray(endian='big')
+        buf = struct.pack('<%sI' % len(self._data), *self._data)
+        a = bitarray(endian='little')
         a.frombytes(buf)
         for k in reversed(self._lost_positions()):
             del a[k]
@@ -60,8 +60,8 @@ class SwapCompressor(BitCompressor):
         super(SwapCompressor, self).__init__(remove_bits, data, default_shift_count)
 
     def compress(self):
-        buf = struct.pack('%sI' % len(self._data), *self._data)
-        a = bitarray(endian='big')
+        buf = struct.pack('<%sI' % len(self._data), *self._data)
+        a = bitarray(endian='little')
         a.frombytes(buf)
         for k in self._lost_positions():
             a[k] = 0
-- 
2.43.0


From bd3315636d4ecfb14b3f4d4d7ac0653f074231a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 43/55] fix: pops were never found to have the registers of the
 push of their function

---
 semantic_codec/metadata/recuperator.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index adff698..b918c28 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -233,10 +233,11 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
         return c / t if t > 0 else 0
 
-    def _op_prob_and_check_equal_registers(self, opcode, addr, push_reg_readed):
+    def _op_prob_and_check_equal_registers(self, opcode, addr, regs):
         """
         This method computes the probability of a instruction with a given opcode of existing in an address.
-        It also checks if it has the same registers than the ones given in push_reg_readed.
+        It also checks if it has the same registers than the ones given in regs: the registers read by a push
+        when looking for a pop, the registers written by a pop when looking for a push.
         Is ONLY meant for being called from _compute_push_pop
         """
         reg_equals_inst = False
@@ -250,13 +251,17 @@ class ProbabilisticRecuperator(Recuperator):
                     c += 1
                     if not reg_equals_inst:
                         a = True
-                        pop_reg_read = i.registers_written()
-                        for r in pop_reg_read:
-                            if not (r in push_reg_readed or r is AReg.PC):
+                        # A push reads the registers that the pop writes
+                        if opcode == 'pop':
+                            push_regs, pop_regs = regs, i.registers_written()
+                        else:
+                            push_regs, pop_regs = i.registers_read(), regs
+                        for r in pop_regs:
+                            if not (r in push_regs or r == AReg.PC or r == AReg.SP):
                                 a = False
                                 break
-                        for r in push_reg_readed:
-                            if not (r in pop_reg_read or r is AReg.LR or r is AReg.SP):
+                        for r in push_regs:
+                            if not (r in pop_regs or r == AReg.LR or r == AReg.SP):
                                 a = False
                                 break
                         if a:
-- 
2.43.0


From d44d48efa8931a1bb97e6293cfee84623bf19bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 44/55] fix: a push was rewarded by any branch before a pop in
 the middle of its function

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b918c28..180ef89 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -297,18 +297,18 @@ class ProbabilisticRecuperator(Recuperator):
                 p1, reg_equals = self._op_prob_and_check_equal_registers('pop', last_addr, push_reg_readed)
 
                 # If a pop at the end was found, try to find another pop follow by a branch in previous inst
-                cb1, cp1, tb1, tp1 = 0, 0, 0, 0
+                cb1, cp1, tb1 = 0, 0, 0
                 cb2, tb2 = 0, 0
                 p2 = 0
                 for a in range(last_addr, addr, -4):
                     cb2 = cb1
                     tb2 = tb1
+                    cb1, cp1, tb1 = 0, 0, 0
                     if a not in self._program:
                         continue
                     for i in self._program[a]:
                         if not i.ignore:
                             tb1 += 1
-                            tp1 += 1
                             if i.is_branch:
                                 cb1 += 1
                             if i.is_a('pop'):
-- 
2.43.0


From 188595ca1e0e2f71d51a0fa14787e9fb5bda3994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 45/55] fix: candidates that are not instructions changed the
 score of pushes and pops

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 180ef89..9fd79a4 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -325,7 +325,7 @@ class ProbabilisticRecuperator(Recuperator):
         else:
             return None
 
-        p3 = 1 / len(self._program[addr])
+        p3 = 1 / sum(1 for i in self._program[addr] if not i.ignore)
         if reg_equals:
             p3 = self._model.push_given_pop_at_fn_end_equal_registers
         if p1 > 0:
-- 
2.43.0


From 4105347d7dbde98610c9ac89d383c56cfdb56c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 46/55] fix: candidates that are not instructions changed the
 score of the following conditions

---
 semantic_codec/metadata/recuperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 9fd79a4..54bf3d3 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -411,7 +411,7 @@ class ProbabilisticRecuperator(Recuperator):
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
 
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
 
@@ -432,7 +432,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if after_same_cond > 0:
                     p1 = same_cond * after_same_cond / (ln_prev * ln_post)
                     p1 *= self._model.both_conditionals_are_equals
-                p2 = same_cond / len(prev_inst)
+                p2 = same_cond / ln_prev
                 p2 *= self._model.prev_conditionals_are_equals
                 result = max(p1, p2)
             elif after_same_cond > 0:
-- 
2.43.0


From f152504561e8279dbcf621f59152e18ef58d9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 47/55] fix: writes at less than the maximum distance were not
 found

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index 54bf3d3..b26349d 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -483,7 +483,7 @@ class ProbabilisticRecuperator(Recuperator):
                             count += 1
                 if t > 0:
                     p *= 1 - count / t
-                    if p == 1:
+                    if p == 0:
                         break
 
             prd = min(p, prd)
-- 
2.43.0


From 060e94d38bd06dd92bc2c75066435f914afc5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 48/55] fix: instructions that write the flags were never found
 when scoring conditions

---
 semantic_codec/metadata/recuperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/metadata/recuperator.py b/semantic_codec/metadata/recuperator.py
index b26349d..9c6f21a 100644
--- a/semantic_codec/metadata/recuperator.py
+++ b/semantic_codec/metadata/recuperator.py
@@ -373,7 +373,7 @@ class ProbabilisticRecuperator(Recuperator):
                 if not i.ignore:
                     ln_prev += 1
                     a = i.conditional_field == inst.conditional_field
-                    b = AReg.CPSR in i.registers_written()
+                    b = i.modifies_flags()
                     if a:
                         same_cond += 1
                     if b:
-- 
2.43.0


From 5034ac8c7575d5f534897f3ab8c4128231877eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 49/55] fix: the report failed when no instruction is ambiguous

The share of recovered instructions was a division by zero when every
address has one candidate, as after a complete recovery, so the solution
was never written.
---
 recover_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recover_program.py b/recover_program.py
index d773027..62bbc63 100644
--- a/recover_program.py
+++ b/recover_program.py
@@ -116,7 +116,7 @@ def print_report(instructions_output_file, original_program, recovered_program):
     print("------------")
 
     print("ERRORS: {} -- LOSING: {} -- TIDE: {} --RECOVERED: {} -- RATIO: {} ".format(
-        errors, fail_looses, fail_tide, recovered, recovered / errors))
+        errors, fail_looses, fail_tide, recovered, recovered / errors if errors > 0 else 1))
 
     print("DEPTHS: {}".format(depths))
 
-- 
2.43.0


From 17c671125753be8e71fce7761d37fbacab82db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 50/55] fix: the Blaum interleaving put the same packet in
 neighbouring cells

---
 semantic_codec/interleaver/interleaver2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic_codec/interleaver/interleaver2d.py b/semantic_codec/interleaver/interleaver2d.py
index d81b751..2ac9d36 100644
--- a/semantic_codec/interleaver/interleaver2d.py
+++ b/semantic_codec/interleaver/interleaver2d.py
@@ -159,7 +159,7 @@ def build_2d_interleave_matrix_blaum(message_size, packet_size, data_width=-1, d
     m = round(message_size / packet_size)
     b = round(sqrt(2 * m - 1))
 
-    return [[int(abs(fmod(x - y * b, m))) for x in range(data_width)] for y in range(data_height)]
+    return [[(x - y * b) % m for x in range(data_width)] for y in range(data_height)]
 
 
 def interleave(data, interleave_order, word_size=8):
-- 
2.43.0


From 5d5661ec823479d9bac4a2a78b6da676ad9dbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 51/55] fix: store_packets failed with programs that do not
 fill the last packet

---
 store_packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store_packets.py b/store_packets.py
index a9a7b76..12734fa 100644
--- a/store_packets.py
+++ b/store_packets.py
@@ -5,6 +5,7 @@ Program to store packets into a file
 import os
 import struct
 import sys
+from math import ceil
 
 from bitarray import bitarray
 
@@ -42,7 +43,7 @@ if __name__ == '__main__':
     # Interleave the file using the SP algorithm
     bits_per_interlave = 2
     packet_size = 16
-    packet_count = len(original_program) * 4 / packet_size  # <- Total bytes in data divided by packet_size
+    packet_count = ceil(len(original_program) * 4 / packet_size)  # <- Total bytes in data divided by packet_size
 
     # Build the 2D interleave order
     m = build_2d_interleave_sp(packet_count, flat=True)
-- 
2.43.0


From 7024c3dcbf295e55d22618b98677ce32d0213b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 52/55] fix: the register with the amount of a shift was not
 among the registers used

---
 semantic_codec/architecture/capstone_instruction.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/semantic_codec/architecture/capstone_instruction.py b/semantic_codec/architecture/capstone_instruction.py
index 213de02..be2d5a6 100644
--- a/semantic_codec/architecture/capstone_instruction.py
+++ b/semantic_codec/architecture/capstone_instruction.py
@@ -2,7 +2,7 @@ import struct
 
 from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM, CS_MODE_LITTLE_ENDIAN, CS_MODE_BIG_ENDIAN
 from capstone.arm_const import ARM_OP_REG, ARM_OP_MEM, ARM_INS_B, ARM_INS_BX, ARM_INS_BLX, ARM_INS_BL, ARM_INS_STR, \
-    ARM_INS_STRT, ARM_OP_IMM
+    ARM_INS_STRT, ARM_OP_IMM, ARM_SFT_ASR_REG, ARM_SFT_RRX_REG
 
 from semantic_codec.architecture.arm_constants import AReg
 from semantic_codec.architecture.instruction import Instruction
@@ -67,6 +67,11 @@ class CAPSInstruction(Instruction):
                     register = AReg.CAPSTONE_REGS[i.value.reg]
                 if not register in result:
                     result.append(register)
+                # The amount of the shift of an operand may be in a register too
+                if ARM_SFT_ASR_REG <= i.shift.type <= ARM_SFT_RRX_REG:
+                    register = AReg.CAPSTONE_REGS[i.shift.value]
+                    if not register in result:
+                        result.append(register)
             if i.type == ARM_OP_MEM:
                 # Zero means there is no register, do not confuse it with R0
                 register = AReg.CAPSTONE_REGS[i.value.mem.base]
-- 
2.43.0


From 1087e1602da7b88dcb8a56bbf046dce376c3fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 53/55] fix: the register distance rule looked for writes one
 instruction too near

---
 semantic_codec/metadata/probabilistic_rules/distance_rule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index da06ebe..00fe03f 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -91,8 +91,9 @@ class RegisterReadDistance(RegisterDistanceRule):
 
             # We are going backwards, so in fact prev_max is < than prev
             # Go backwards searching for registers writting to the registers we read_instructions from
-            prev_pos = position - INST_SIZE * min_d # Position of the first previous instruction
-            prev_pos_max = position - INST_SIZE * max_d # Position of the last previous instruction (going backwards)
+            # The distance is the number of instructions between the write and the read
+            prev_pos = position - INST_SIZE * (min_d + 1) # Position of the first previous instruction
+            prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
             register_score = [EPSILON] * AReg.STORAGE_COUNT
 
             candidate_score = 0
-- 
2.43.0


From 41e539f245a129bfd03bab77e2d4f44ae025e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 54/55] fix: the register distance rule only counted the last
 storage that a candidate writes

---
 .../metadata/probabilistic_rules/distance_rule.py          | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index 00fe03f..831f1db 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -115,12 +115,7 @@ class RegisterReadDistance(RegisterDistanceRule):
                     for w in prev_w:
                         if w in storages:
                             c_reg_score[w] += 1 / (len(prev_w) * self.candidate_count(prev_candidates))
-                    try:
-                        register_score[w] = max(register_score[w], c_reg_score[w])
-                    except UnboundLocalError:
-                        print("What??")
-                    except IndexError:
-                        print("W:"+str(w))
+                            register_score[w] = max(register_score[w], c_reg_score[w])
 
                 # Find the score of the candidate so far
                 s = 0
-- 
2.43.0


From 877afbf32cb0ec2b071f161da008e93798de49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 55/55] fix: the register distance rule reported changes when
 no score changed

---
 .../probabilistic_rules/distance_rule.py      | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/semantic_codec/metadata/probabilistic_rules/distance_rule.py b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
index 831f1db..6a40c0f 100644
--- a/semantic_codec/metadata/probabilistic_rules/distance_rule.py
+++ b/semantic_codec/metadata/probabilistic_rules/distance_rule.py
@@ -76,7 +76,7 @@ class RegisterReadDistance(RegisterDistanceRule):
         for c in candidates:
             # Assume all instructions are well defined
             if c.ignore:
-                self._update_candidate_score(c, 0.0)
+                updated |= self._update_candidate_score(c, 0.0)
                 continue
             elif len(c.storages_used()) == 0:
                 updated |= self._update_candidate_score(c, EPSILON)
@@ -96,9 +96,9 @@ class RegisterReadDistance(RegisterDistanceRule):
             prev_pos_max = position - INST_SIZE * (max_d + 1) # Position of the last previous instruction (going backwards)
             register_score = [EPSILON] * AReg.STORAGE_COUNT
 
-            candidate_score = 0
+            candidate_score = None
 
-            while prev_pos >= prev_pos_max and candidate_score < 1:
+            while prev_pos >= prev_pos_max and (candidate_score is None or candidate_score < 1):
                 if prev_pos not in self._program:
                     prev_pos -= 4
                     continue
@@ -125,15 +125,12 @@ class RegisterReadDistance(RegisterDistanceRule):
                     except IndexError:
                         print("R:"+str(r))
 
-                candidate_score = max(s / len(storages), candidate_score)
+                candidate_score = max(s / len(storages), candidate_score or 0)
+                # Keep going backwards
+                prev_pos -= INST_SIZE
 
-                if candidate_score >= 1:
-                    updated |= self._update_candidate_score(c, 1)
-                    break
-                else:
-                    # Keep going backwards
-                    prev_pos -= INST_SIZE
-                    # Have we updated any score so far?
-                    updated |= self._update_candidate_score(c, candidate_score)
+            # Have we updated any score so far?
+            if candidate_score is not None:
+                updated |= self._update_candidate_score(c, min(candidate_score, 1))
 
         return updated
-- 
2.43.0

