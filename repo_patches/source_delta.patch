From ddad563f9f57cc9263675b9439d3ceb09d786893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:38 +0000
Subject: [PATCH 01/21] fix: drop the closure when its thunk cannot be created

The constructors boxed the closure before asking for executable memory and
never freed the box when that failed or the template could not be relocated.
---
 src/bare_closure.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/bare_closure.rs b/src/bare_closure.rs
index 5cd6772..d26626a 100644
--- a/src/bare_closure.rs
+++ b/src/bare_closure.rs
@@ -215,6 +215,28 @@ macro_rules! bare_hrtb {
 #[cfg(feature = "proc_macros")]
 pub use bare_hrtb;
 
+/// Frees a boxed closure unless ownership of it is taken with [`StorageGuard::into_raw`].
+///
+/// This makes sure that the closure is dropped if no thunk can be created for it.
+struct StorageGuard<S: ?Sized>(*mut S);
+
+impl<S: ?Sized> StorageGuard<S> {
+    fn new(storage: Box<S>) -> Self {
+        Self(Box::into_raw(storage))
+    }
+
+    fn into_raw(self) -> *mut S {
+        ManuallyDrop::new(self).0
+    }
+}
+
+impl<S: ?Sized> Drop for StorageGuard<S> {
+    fn drop(&mut self) {
+        // SAFETY: The pointer was obtained from `Box::into_raw` and has not been freed yet
+        drop(unsafe { Box::from_raw(self.0) })
+    }
+}
+
 #[allow(unused_macros)]
 macro_rules! cc_shorthand {
     ($fn_name:ident, $trait_ident:ident, $cc_ty:ty, $cc_name:literal $(,$cfg:meta)?) => {
@@ -592,7 +614,7 @@ macro_rules! bare_closure_impl {
                 F: ToBoxedDyn<S>,
                 (CC, F): $trait_ident<B>,
             {
-                let storage = Box::into_raw(F::to_boxed_unsize(fun));
+                let storage = StorageGuard::new(F::to_boxed_unsize(fun));
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -600,14 +622,14 @@ macro_rules! bare_closure_impl {
                 let thunk = unsafe {
                     AllocatedThunk::new(
                         <(CC, F)>::$thunk_template,
-                        storage as *const _, size_of::<F>(),
+                        storage.0 as *const _, size_of::<F>(),
                         jit_alloc
                     )?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-                        storage
+                        storage: storage.into_raw()
                     },
                     phantom: PhantomData,
                 })
@@ -664,7 +686,7 @@ macro_rules! bare_closure_impl {
             where T: $trait_ident<B> + ToBoxedDyn<S>
             {
                 // SAFETY: All implementors of `Fn*Thunk` are #[repr(transparent)] with the closure
-                let storage = Box::into_raw(T::to_boxed_unsize(thunk));
+                let storage = StorageGuard::new(T::to_boxed_unsize(thunk));
 
                 // SAFETY:
                 // - thunk_template pointer obtained from the correct source
@@ -673,14 +695,14 @@ macro_rules! bare_closure_impl {
                 let thunk = unsafe {
                     AllocatedThunk::new(
                         T::$thunk_template,
-                        storage as *const _, size_of::<T>(),
+                        storage.0 as *const _, size_of::<T>(),
                         jit_alloc
                     )?
                 };
                 Ok(Self {
                     untyped: $erased_ty_name {
                         thunk,
-                        storage
+                        storage: storage.into_raw()
                     },
                     phantom: PhantomData,
                 })
-- 
2.43.0


From 1ed30440cc9369cd826c67dd43f834a84a00f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:12 +0000
Subject: [PATCH 02/21] fix: do not overflow on operands located before the
 thunk template

The distance of an instruction pointer relative operand from the template
was computed with a checked subtraction. With overflow checks enabled,
relocating a prologue that refers to data below the template panicked.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index fe9e237..5a65412 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -47,7 +47,7 @@ pub fn try_reloc_thunk_template<'a>(
         let needs_reloc = instruction.is_ip_rel_memory_operand();
         if needs_reloc {
             let closure_ptr_offset = magic_offset.wrapping_add_signed(consts::CLOSURE_ADDR_OFFSET);
-            if (instruction.memory_displacement64() - ip) as usize == closure_ptr_offset {
+            if instruction.memory_displacement64().wrapping_sub(ip) as usize == closure_ptr_offset {
                 thunk_asm_offset = Some(decoder.position() - instruction.len());
                 break;
             }
-- 
2.43.0


From 73eaa2e3ce53a098c56663396b4dea6932170dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:12 +0000
Subject: [PATCH 03/21] fix: use the index of the closure lookup when choosing
 a scratch register

The register overwritten by the lookup was recorded with the byte length of
the lookup instruction instead of its index. Longer prologues were refused
although that register was available.
---
 src/safe_jit/x86_64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 5a65412..ee61ba0 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -89,7 +89,7 @@ pub fn try_reloc_thunk_template<'a>(
     let cl_read_reg = decoder.decode().op0_register();
 
     let mut gpr_ops = [GprOp::None; 16];
-    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instruction.len());
+    gpr_ops[cl_read_reg as usize - Register::RAX as usize] = GprOp::Write(instructions.len());
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
-- 
2.43.0


From b7cf338045d0b9ca3da5550885f66d3306c6813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:47 +0000
Subject: [PATCH 04/21] fix: adjust conditional jumps when relocating x86-64
 prologues

Relocating an operand inserts an instruction. Conditional jumps across it
kept their old displacement and landed in the middle of other code. The
search for a scratch register also ignored that a jump can skip the write
that makes a register available. Jumps are now re-encoded with their new
distance, and a register has to be overwritten on both paths.
---
 src/safe_jit/x86_64.rs | 59 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index ee61ba0..42c41c4 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -1,7 +1,7 @@
-use alloc::vec::Vec;
+use alloc::{vec, vec::Vec};
 
 use iced_x86::{
-    Code, Decoder, DecoderOptions, Encoder, FlowControl, Instruction, InstructionInfoFactory,
+    Code, ConditionCode, Decoder, DecoderOptions, Encoder, FlowControl, Instruction, InstructionInfoFactory,
     InstructionInfoOptions, OpAccess, Register,
 };
 
@@ -93,7 +93,25 @@ pub fn try_reloc_thunk_template<'a>(
 
     let mut info_factory = InstructionInfoFactory::new();
     let mut chosen_registers = Vec::with_capacity(num_ip_rel_reloc);
+    // operations visible before each instruction, so that branches can be followed
+    let mut gpr_ops_before = vec![gpr_ops; instructions.len() + 1];
     for (i, &(instr, needs_reloc)) in instructions.iter().enumerate().rev() {
+        if instr.is_jcc_short_or_near() {
+            // a register is only clobbered if it is on both paths. We don't try to analyze loops
+            let target = instr.near_branch_target();
+            let target_ops = instructions
+                .iter()
+                .position(|(t, _)| t.ip() == target)
+                .or((target == ip + thunk_asm_offset as u64).then_some(instructions.len()))
+                .filter(|&t| t > i)
+                .map(|t| gpr_ops_before[t]);
+            for (gpr, op) in gpr_ops.iter_mut().enumerate() {
+                if !target_ops.is_some_and(|ops| matches!(ops[gpr], GprOp::Write(_))) {
+                    *op = GprOp::Read(i);
+                }
+            }
+        }
+
         let info = info_factory.info_options(&instr, InstructionInfoOptions::NO_MEMORY_USAGE);
         for used_gpr in info.used_registers().iter().filter(|u| u.register().is_gpr()) {
             let full_register = used_gpr.register().full_register();
@@ -119,6 +137,8 @@ pub fn try_reloc_thunk_template<'a>(
             };
             chosen_registers.push(Register::RAX + i_avail_gpr as u32)
         }
+
+        gpr_ops_before[i] = gpr_ops;
     }
 
     // now that we know which registers to use, re-encode the instructions
@@ -127,8 +147,15 @@ pub fn try_reloc_thunk_template<'a>(
     let min_new_size = thunk_template.len() + MOV_R64_IMM64_SIZE * num_ip_rel_reloc;
     let mut encoder = Encoder::try_with_capacity(64, min_new_size).unwrap();
 
+    const JCC_REL32_SIZE: usize = 6;
+    let mut new_offsets = Vec::with_capacity(instructions.len());
+    let mut jccs = Vec::new();
+
     let mut offset = 0;
+    let mut new_offset = 0;
     for (mut instr, needs_reloc) in instructions {
+        new_offsets.push((instr.ip(), new_offset));
+
         if needs_reloc {
             // cannot fail as one was pushed for each instr that needs a reloc
             let register = chosen_registers.pop().unwrap();
@@ -136,24 +163,46 @@ pub fn try_reloc_thunk_template<'a>(
 
             // cannot fail as register is a 64-bit gpr
             let mov = Instruction::with2(Code::Mov_r64_imm64, register, address).unwrap();
-            encoder.encode(&mov, 0).map_err(|_| JitError::EncodingError)?;
+            new_offset += encoder.encode(&mov, 0).map_err(|_| JitError::EncodingError)?;
 
             instr.set_memory_base(register);
             instr.set_memory_index(Register::None); // shouldn't be necessary
             instr.set_memory_displacement64(0);
-            encoder.encode(&instr, 0).map_err(|_| JitError::EncodingError)?;
+            new_offset += encoder.encode(&instr, 0).map_err(|_| JitError::EncodingError)?;
+        }
+        else if instr.is_jcc_short_or_near() {
+            // the distance to the target may change, it is written once all offsets are known
+            let opcode = 0x80 | instr.condition_code() as u8 - ConditionCode::o as u8;
+            let mut buffer = encoder.take_buffer();
+            buffer.extend_from_slice(&[0x0F, opcode, 0, 0, 0, 0]);
+            encoder.set_buffer(buffer);
+
+            new_offset += JCC_REL32_SIZE;
+            jccs.push((new_offset, instr.near_branch_target()));
         }
         else {
             let mut buffer = encoder.take_buffer();
             buffer.extend_from_slice(&thunk_template[offset..offset + instr.len()]);
             encoder.set_buffer(buffer);
+            new_offset += instr.len();
         }
 
         offset += instr.len();
     }
 
-    // add the part that includes the thunk_asm block
     let mut new_bytes = encoder.take_buffer();
+
+    new_offsets.push((ip + thunk_asm_offset as u64, new_offset));
+    for (next_offset, target) in jccs {
+        let &(_, target_offset) = new_offsets
+            .iter()
+            .find(|(instr_ip, _)| *instr_ip == target)
+            .ok_or(JitError::UnsupportedControlFlow)?;
+        let rel32 = (target_offset as i32).wrapping_sub(next_offset as i32);
+        new_bytes[next_offset - 4..next_offset].copy_from_slice(&rel32.to_le_bytes());
+    }
+
+    // add the part that includes the thunk_asm block
     new_bytes.extend_from_slice(&thunk_template[thunk_asm_offset..]);
 
     Ok(RelocThunk {
-- 
2.43.0


From da84071f23ec384f4f126d596b2aa72ea929b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:01 +0000
Subject: [PATCH 05/21] fix: sign-extend the full ADR/ADRP immediate on AArch64

The immediate has 21 bits, but only 20 were kept. Targets more than 512 KiB
(ADR) or 2 GiB (ADRP) away were relocated to a wrong address.
---
 src/safe_jit/arm_util/encoding_aarch64.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 167531e..0d6541d 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -104,7 +104,7 @@ impl Adr {
 
     pub fn target_pc(&self, pc: usize) -> usize {
         let unsigned_imm = self.imm_hi() << 2 | self.imm_lo();
-        let signed_imm = ((unsigned_imm << 12) as i32 >> 12) as isize;
+        let signed_imm = ((unsigned_imm << 11) as i32 >> 11) as isize;
 
         if self.is_adrp() {
             (pc & !0xFFF).wrapping_add_signed(signed_imm * 0x1000)
-- 
2.43.0


From 2556f9c16a939a48403adf016b9c08b6373b8bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 06/21] fix: refuse to relocate SIMD literal loads on AArch64

LDR (literal, SIMD&FP) was copied unchanged and loaded from a wrong address
after relocation.
---
 src/safe_jit/aarch64.rs                   | 4 +++-
 src/safe_jit/arm_util/encoding_aarch64.rs | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/aarch64.rs b/src/safe_jit/aarch64.rs
index 3c60a6e..86f7440 100644
--- a/src/safe_jit/aarch64.rs
+++ b/src/safe_jit/aarch64.rs
@@ -74,7 +74,9 @@ pub fn try_reloc_thunk_template<'a>(
                 return Err(JitError::UnsupportedInstruction);
             }
         }
-        else if has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups()) {
+        else if LdrImm::from_raw(instr_u32).is_simd()
+            || has_unsupported_insn_group(cs.insn_detail(&instr).unwrap().groups())
+        {
             return Err(JitError::UnsupportedInstruction);
         }
     }
diff --git a/src/safe_jit/arm_util/encoding_aarch64.rs b/src/safe_jit/arm_util/encoding_aarch64.rs
index 0d6541d..30eeeba 100644
--- a/src/safe_jit/arm_util/encoding_aarch64.rs
+++ b/src/safe_jit/arm_util/encoding_aarch64.rs
@@ -54,6 +54,12 @@ impl LdrImm {
         self.fixed() == 0b11000 && self.opc_raw() != 3
     }
 
+    /// SIMD&FP version of the instruction, which can't be turned into a load through its target
+    /// register.
+    pub fn is_simd(&self) -> bool {
+        self.fixed() == 0b11100
+    }
+
     pub fn new(opc: LdrImmOpc, reg: u32, imm: i32) -> Result<Self, Error> {
         let mut ins = Self::from_raw(0);
         ins.try_set_reg(reg)?;
-- 
2.43.0


From 4307fcd784181816554018289fc715b4065f2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 07/21] fix: only follow unconditional forward branches on ARM

Conditional branches were followed as if always taken, so the code after them
was not relocated. Backward branches made the relocation loop forever, and
Thumb branches leaving the thunk were copied unchanged.
---
 src/safe_jit/arm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 8e3e2d4..30572c1 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -51,10 +51,14 @@ pub fn try_reloc_thunk_template<'a>(
                 unreachable!()
             };
             let target = target as usize;
-            if (pc..thunk_template_end).contains(&target) {
+            // follow unconditional forward branches that stay within the thunk
+            if arm_detail.cc() == ArmCC::ARM_CC_AL
+                && (instr_pc + instr.len()..thunk_template_end).contains(&target)
+            {
                 disasm_iter.reset(&thunk_template[target - pc..], target as u64);
                 continue;
             }
+            return Err(JitError::UnsupportedInstruction);
         }
         // error on other instruction writing to PC or from unsupported groups
         else if detail.regs_write().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
-- 
2.43.0


From 0a46aa7995672a19c42e0d6175de7e362ac1d665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 08/21] fix: refuse PC-relative loads with a register offset on
 ARM

The register operand was decoded as an immediate, so the relocated load read
from an unrelated address.
---
 src/safe_jit/arm_util/encoding_arm.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_arm.rs b/src/safe_jit/arm_util/encoding_arm.rs
index 44822cb..f327456 100644
--- a/src/safe_jit/arm_util/encoding_arm.rs
+++ b/src/safe_jit/arm_util/encoding_arm.rs
@@ -62,7 +62,8 @@ bitflags! {
         imm set_imm: 0..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
-        u set_u: 23..24
+        u set_u: 23..24,
+        reg_form: 25..26
     }
 
     /// Operands for extra load instructions with immediates
@@ -73,6 +74,7 @@ bitflags! {
         imm_hi set_imm_hi: 8..12,
         rt set_rt: 12..16,
         rn set_rn: 16..20,
+        imm_form: 22..23,
         u set_u: 23..24
     }
 }
@@ -92,10 +94,14 @@ impl LoadImm {
         let raw = u32::from_ne_bytes(bytes.try_into().ok()?);
         match instr_id {
             ARM_INS_LDR | ARM_INS_LDRT | ARM_INS_LDRB | ARM_INS_LDRBT => {
-                Some(Self::WB(LoadWBImm::from_raw(raw)))
+                let ins = LoadWBImm::from_raw(raw);
+                (ins.reg_form() == 0).then_some(Self::WB(ins))
             }
             ARM_INS_LDRH | ARM_INS_LDRD | ARM_INS_LDRSB | ARM_INS_LDRSH | ARM_INS_LDRHT
-            | ARM_INS_LDRSBT | ARM_INS_LDRSHT => Some(Self::Ex(LoadExImm::from_raw(raw))),
+            | ARM_INS_LDRSBT | ARM_INS_LDRSHT => {
+                let ins = LoadExImm::from_raw(raw);
+                (ins.imm_form() == 1).then_some(Self::Ex(ins))
+            }
             _ => None,
         }
     }
-- 
2.43.0


From c2a6e8cf07c1d4a01340a20c28752083d9b6d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 09/21] fix: accept the wide encodings of ADR on Thumb

The two sign bits are equal in both the T2 and T3 encodings, but they were
required to differ.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index ed9cfb6..f2d38b7 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -247,7 +247,7 @@ impl Adr {
             }
 
             let ins = AdrT23::from_raw(raw);
-            (ins.s1() != ins.s2()).then_some(Self::T23(ins))
+            (ins.s1() == ins.s2()).then_some(Self::T23(ins))
         }
     }
 
-- 
2.43.0


From 7eaa0aee23b74dbefbf5b90763a337ec6187069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 10/21] fix: respect the offset sign of Thumb literal loads

Wide LDR literals with a negative offset were treated as positive, and the sign
of LDRD literals was inverted.
---
 src/safe_jit/arm_util/encoding_thumb.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm_util/encoding_thumb.rs b/src/safe_jit/arm_util/encoding_thumb.rs
index f2d38b7..db666be 100644
--- a/src/safe_jit/arm_util/encoding_thumb.rs
+++ b/src/safe_jit/arm_util/encoding_thumb.rs
@@ -166,11 +166,14 @@ impl LoadImm {
         let pc = effective_pc(instr_pc);
         match self {
             Self::LdrLitT1(ldr) => Some(pc + ldr.imm() as usize * 4),
-            Self::LdrW(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
+            Self::LdrW(ldr) if ldr.rn() == 0b1111 => {
+                let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
+                Some(pc.wrapping_add_signed(imm))
+            }
             Self::LdrT(ldr) if ldr.rn() == 0b1111 => Some(pc + ldr.imm() as usize),
             Self::LdrD(ldr) if ldr.rn() == 0b1111 => {
                 let imm = if ldr.u() == 1 { ldr.imm() as isize } else { -(ldr.imm() as isize) };
-                Some(pc.wrapping_sub_signed(imm * 4))
+                Some(pc.wrapping_add_signed(imm * 4))
             }
             _ => None,
         }
-- 
2.43.0


From 6316294626eb9bb0464d8e8f181e1828049f1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:31 +0000
Subject: [PATCH 11/21] fix: use the final alignment when emitting Thumb
 literal loads

Widening an odd number of 16-bit instructions moves the code by two bytes
relative to its word-aligned data. Offsets were computed with the alignment of
the template, so the loads read two bytes off.
---
 src/safe_jit/arm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 30572c1..05a5399 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -130,9 +130,13 @@ pub fn try_reloc_thunk_template<'a>(
 
         // write the absolute addresses to the literal pool and emit LDR instructions
         // referring to them.
+        //
+        // offsets depend on the alignment of the instructions. This can differ from that of the
+        // template, as the magic offset is kept aligned.
+        let new_pc = pc + magic_offset - new_magic_offset;
         for (instr_offset, reg, addr) in extra_ldrs {
-            let addr_pc = pc + new_bytes.len();
-            let ldr = LdrImm::new_lit(pc + instr_offset, reg, addr_pc)?;
+            let addr_pc = new_pc + new_bytes.len();
+            let ldr = LdrImm::new_lit(new_pc + instr_offset, reg, addr_pc)?;
 
             new_bytes.extend_from_slice(&addr.to_ne_bytes());
             new_bytes[instr_offset..instr_offset + 4].copy_from_slice(&ldr.bytes());
-- 
2.43.0


From 20864f2efbeb2ef11dd0ae8457f3d7e45b9b8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:35 +0000
Subject: [PATCH 12/21] fix: relocate the 16-bit encoding of ADR on Thumb

The disassembler does not report this instruction as reading the PC, so it was
copied unchanged and produced a wrong address.
---
 src/safe_jit/arm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/safe_jit/arm.rs b/src/safe_jit/arm.rs
index 05a5399..985fb54 100644
--- a/src/safe_jit/arm.rs
+++ b/src/safe_jit/arm.rs
@@ -67,8 +67,11 @@ pub fn try_reloc_thunk_template<'a>(
             return Err(JitError::UnsupportedInstruction);
         }
         // if the instruction doesn't read the PC, we don't care about it at this point.
-        // it's OK to relocate it.
-        if !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC) {
+        // it's OK to relocate it. capstone doesn't report the PC as read by the Thumb ADR.
+        let adr = Adr::try_from_raw(instr.bytes());
+        if adr.is_none()
+            && !detail.regs_read().iter().any(|r| r.0 as u32 == ArmReg::ARM_REG_PC)
+        {
             continue;
         }
         // We don't support relocating instructions that conditionally read the PC.
@@ -77,7 +80,7 @@ pub fn try_reloc_thunk_template<'a>(
         }
 
         // ADR reg, label => LDR reg, =label_address
-        if let Some(adr) = Adr::try_from_raw(instr.bytes()) {
+        if let Some(adr) = adr {
             new_magic_offset += 4 - instr.len();
 
             // allocate space for a new LDR
-- 
2.43.0


From e25d899f6d91c62f5a30a280d74383d412a408e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:21 +0000
Subject: [PATCH 13/21] fix: align emitted code by its executable address

The alignment was taken from the writable view. The literal loads of the thunk
need it for the address the code runs at, which can differ when the allocator
hands out two unrelated views.
---
 src/arch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch.rs b/src/arch.rs
index 44ed717..6f55611 100644
--- a/src/arch.rs
+++ b/src/arch.rs
@@ -249,7 +249,7 @@ impl<J: JitAlloc> AllocatedThunk<J> {
 
         // Skip initial bytes for proper alignment
         let (rx, rw) = jit.alloc(thunk.len() + MAGIC_ALIGN - 1)?;
-        let align_offset = rw.add(magic_offset).align_offset(MAGIC_ALIGN);
+        let align_offset = rx.add(magic_offset).align_offset(MAGIC_ALIGN);
         let (thunk_rx, rw) = (rx.add(align_offset), rw.add(align_offset));
 
         jit.protect_jit_memory(thunk_rx, thunk.len(), ProtectJitAccess::ReadWrite);
-- 
2.43.0


From 44303a9dc0929bb94b3839e3c9005e8e0fc9ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:03 +0000
Subject: [PATCH 14/21] fix: do not require Send in thunk_factory::make_once

---
 src/thunk_factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index 1abd653..e475052 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -15,7 +15,7 @@ use crate::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk, PackedFn, PackedFnM
 #[inline(always)]
 pub fn make_once<B: FnPtr, F>(fun: F) -> impl FnOnceThunk<B>
 where
-    F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
+    F: for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     B::make_once_thunk(fun)
 }
-- 
2.43.0


From 41a8acdb3591ef7def937b80b6cbe20fc0269774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:54 +0000
Subject: [PATCH 15/21] fix: thunk factories no longer add a Send or Sync
 marker that was not asked for

---
 src/thunk_factory.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/thunk_factory.rs b/src/thunk_factory.rs
index e475052..8004224 100644
--- a/src/thunk_factory.rs
+++ b/src/thunk_factory.rs
@@ -28,7 +28,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, false>(thunk)
 }
 
 /// Creates a [Sync] [`FnOnceThunk`] implementation from a closure taking the same arguments as
@@ -39,7 +39,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, false, true>(thunk)
 }
 
 /// Creates a [Send] and [Sync] [`FnOnceThunk`] implementation from a closure taking the same
@@ -50,7 +50,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnOnce<'x, 'y, 'z, B>,
 {
     let thunk = B::make_once_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, true>(thunk)
 }
 
 /// Creates a [`FnMutThunk`] implementation from a closure taking the same arguments as this
@@ -73,7 +73,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, false>(thunk)
 }
 
 /// Creates a [Sync] [`FnMutThunk`] implementation from a closure taking the same arguments as
@@ -84,7 +84,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, false, true>(thunk)
 }
 
 /// Creates a [Send] and [Sync] [`FnMutThunk`] implementation from a closure taking the same
@@ -95,7 +95,7 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFnMut<'x, 'y, 'z, B>,
 {
     let thunk = B::make_mut_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, true>(thunk)
 }
 
 /// Creates a [`FnThunk`] implementation from a closure taking the same arguments as this
@@ -117,7 +117,7 @@ where
     F: Send + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, false>(thunk)
 }
 
 /// Creates a [Sync] [`FnThunk`] implementation from a closure taking the same arguments as
@@ -128,7 +128,7 @@ where
     F: Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, false, true>(thunk)
 }
 
 /// Creates a [Send] and [Sync] [`FnThunk`] implementation from a closure taking the same
@@ -139,14 +139,19 @@ where
     F: Send + Sync + for<'x, 'y, 'z> PackedFn<'x, 'y, 'z, B>,
 {
     let thunk = B::make_thunk(fun);
-    SendSyncWrapper(thunk)
+    SendSyncWrapper::<_, true, true>(thunk)
 }
 
 #[repr(transparent)]
-struct SendSyncWrapper<T>(T);
-unsafe impl<T> Send for SendSyncWrapper<T> {}
-unsafe impl<T> Sync for SendSyncWrapper<T> {}
-unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
+struct SendSyncWrapper<T, const SEND: bool, const SYNC: bool>(T);
+// Opaque types leak auto traits: a marker that was not asked for must come from the thunk itself.
+unsafe impl<T, const SYNC: bool> Send for SendSyncWrapper<T, true, SYNC> {}
+unsafe impl<T: Send, const SYNC: bool> Send for SendSyncWrapper<T, false, SYNC> {}
+unsafe impl<T, const SEND: bool> Sync for SendSyncWrapper<T, SEND, true> {}
+unsafe impl<T: Sync, const SEND: bool> Sync for SendSyncWrapper<T, SEND, false> {}
+unsafe impl<B: FnPtr, T: FnOnceThunk<B>, const SEND: bool, const SYNC: bool> FnOnceThunk<B>
+    for SendSyncWrapper<T, SEND, SYNC>
+{
     const THUNK_TEMPLATE_ONCE: *const u8 = T::THUNK_TEMPLATE_ONCE;
     unsafe fn call_once<'a, 'b, 'c>(
         self,
@@ -155,7 +160,9 @@ unsafe impl<B: FnPtr, T: FnOnceThunk<B>> FnOnceThunk<B> for SendSyncWrapper<T> {
         self.0.call_once(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnMutThunk<B>, const SEND: bool, const SYNC: bool> FnMutThunk<B>
+    for SendSyncWrapper<T, SEND, SYNC>
+{
     const THUNK_TEMPLATE_MUT: *const u8 = T::THUNK_TEMPLATE_MUT;
     unsafe fn call_mut<'a, 'b, 'c>(
         &mut self,
@@ -164,7 +171,9 @@ unsafe impl<B: FnPtr, T: FnMutThunk<B>> FnMutThunk<B> for SendSyncWrapper<T> {
         self.0.call_mut(args)
     }
 }
-unsafe impl<B: FnPtr, T: FnThunk<B>> FnThunk<B> for SendSyncWrapper<T> {
+unsafe impl<B: FnPtr, T: FnThunk<B>, const SEND: bool, const SYNC: bool> FnThunk<B>
+    for SendSyncWrapper<T, SEND, SYNC>
+{
     const THUNK_TEMPLATE: *const u8 = T::THUNK_TEMPLATE;
     unsafe fn call<'a, 'b, 'c>(
         &self,
-- 
2.43.0


From a9a35d14d844ab430acb18b650958eb9fc2022dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:54 +0000
Subject: [PATCH 16/21] fix: support const generics in bare_hrtb aliases

---
 proc_macros/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 44ace28..90b7881 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -324,7 +324,11 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         thunk_sig.generics.params.extend(generics.params.clone());
 
         let (impl_generics, _, where_clause) = generics.split_for_impl();
-        let sig_tys = generics.type_params().map(|t| &t.ident);
+        let sig_tys = generics.params.iter().filter_map(|p| match p {
+            syn::GenericParam::Lifetime(_) => None,
+            syn::GenericParam::Type(t) => Some(&t.ident),
+            syn::GenericParam::Const(c) => Some(&c.ident),
+        });
 
         let thunk_impl = quote! {
             unsafe impl #impl_generics #thunk_trait<#alias_ident #alias_ty_params>
-- 
2.43.0


From 4f531908bb7de3d5e3448037d746445d0d186a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:54 +0000
Subject: [PATCH 17/21] fix: carry the where clause of a bare_hrtb alias over
 to the generated thunks

---
 proc_macros/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 90b7881..36a3129 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -322,6 +322,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
 
         let mut thunk_sig = thunk_sig.clone();
         thunk_sig.generics.params.extend(generics.params.clone());
+        thunk_sig.generics.where_clause = generics.where_clause.clone();
 
         let (impl_generics, _, where_clause) = generics.split_for_impl();
         let sig_tys = generics.params.iter().filter_map(|p| match p {
@@ -329,6 +330,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
             syn::GenericParam::Type(t) => Some(&t.ident),
             syn::GenericParam::Const(c) => Some(&c.ident),
         });
+        let coerce_tys = sig_tys.clone().filter(|&t| *t != f_ident);
 
         let thunk_impl = quote! {
             unsafe impl #impl_generics #thunk_trait<#alias_ident #alias_ty_params>
@@ -368,7 +370,7 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
                     fun
                 }
 
-                let coerced = coerce(move |#(#arg_idents,)*| fun((#(#arg_idents,)*)));
+                let coerced = coerce::<#(#coerce_tys,)* _>(move |#(#arg_idents,)*| fun((#(#arg_idents,)*)));
                 (#cc_marker_ident, coerced)
             }
         };
-- 
2.43.0


From fe3f675ba38a33bbac6a6416bd2606cd79b7d6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:54 +0000
Subject: [PATCH 18/21] fix: allow bare_hrtb aliases with a type parameter
 named F

---
 proc_macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 36a3129..866d463 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -361,9 +361,9 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         let thunk_factory_impl = quote! {
             #[inline(always)]
             #[allow(unused_mut)]
-            fn #factory_ident<F>(mut fun: F) -> impl #thunk_trait<Self>
+            fn #factory_ident<_Fun>(mut fun: _Fun) -> impl #thunk_trait<Self>
             where
-                F: for<'_x, '_y, '_z> #crate_path::#factory_bound_path<'_x, '_y, '_z, Self>
+                _Fun: for<'_x, '_y, '_z> #crate_path::#factory_bound_path<'_x, '_y, '_z, Self>
             {
                 #[inline(always)]
                 fn coerce #impl_generics (fun: #f_ident) -> #f_ident #where_clause {
-- 
2.43.0


From 533a128e634a1f5b02db4f415407ff7a137d25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:59 +0000
Subject: [PATCH 19/21] fix: allow default type parameters on bare_hrtb aliases

---
 proc_macros/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proc_macros/src/lib.rs b/proc_macros/src/lib.rs
index 866d463..ae1bae5 100644
--- a/proc_macros/src/lib.rs
+++ b/proc_macros/src/lib.rs
@@ -311,6 +311,14 @@ pub fn bare_hrtb(tokens: TokenStream) -> TokenStream {
         thunk_trait.segments.extend(path_from_str(impl_block.thunk_trait_path).segments);
 
         let mut generics = input.alias.generics.clone();
+        // Only the alias itself can have default parameters
+        for param in &mut generics.params {
+            match param {
+                syn::GenericParam::Lifetime(_) => {}
+                syn::GenericParam::Type(t) => (t.eq_token, t.default) = (None, None),
+                syn::GenericParam::Const(c) => (c.eq_token, c.default) = (None, None),
+            }
+        }
         generics.params.push(syn::GenericParam::Type(syn::TypeParam {
             attrs: Default::default(),
             ident: f_ident.clone(),
-- 
2.43.0


From 2a14ac14c9077e5cf7130daef1d62ca7715e512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:52 +0000
Subject: [PATCH 20/21] fix: ThreadJitAlloc reports an error instead of
 panicking once its thread is ending

---
 src/jit_alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jit_alloc.rs b/src/jit_alloc.rs
index 6109db5..e24c2c7 100644
--- a/src/jit_alloc.rs
+++ b/src/jit_alloc.rs
@@ -189,13 +189,15 @@ mod default_jit_alloc {
         impl JitAlloc for ThreadJitAlloc {
             fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .try_with(|a| unsafe { &mut *a.get() }.alloc(size))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
             unsafe fn release(&self, rx_ptr: *const u8) -> Result<(), JitAllocError> {
                 THREAD_JIT_ALLOC
-                    .with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .try_with(|a| unsafe { &mut *a.get() }.release(rx_ptr))
+                    .map_err(|_| JitAllocError)?
                     .map_err(|_| JitAllocError)
             }
 
-- 
2.43.0


From 06e21ec41f8ad3bc5f9753b85d21bcb7529b3f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:49 +0000
Subject: [PATCH 21/21] fix: relocation no longer takes the operand of rdssp as
 overwritten

The instruction does nothing when shadow stacks are off, so its operand
was clobbered when it was picked to hold an address.
---
 src/safe_jit/x86_64.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/safe_jit/x86_64.rs b/src/safe_jit/x86_64.rs
index 42c41c4..1a82069 100644
--- a/src/safe_jit/x86_64.rs
+++ b/src/safe_jit/x86_64.rs
@@ -2,7 +2,7 @@ use alloc::{vec, vec::Vec};
 
 use iced_x86::{
     Code, ConditionCode, Decoder, DecoderOptions, Encoder, FlowControl, Instruction, InstructionInfoFactory,
-    InstructionInfoOptions, OpAccess, Register,
+    InstructionInfoOptions, Mnemonic, OpAccess, Register,
 };
 
 use super::{JitError, RelocThunk};
@@ -112,12 +112,15 @@ pub fn try_reloc_thunk_template<'a>(
             }
         }
 
+        // without shadow stacks this leaves its operand alone
+        let may_not_write = matches!(instr.mnemonic(), Mnemonic::Rdsspd | Mnemonic::Rdsspq);
+
         let info = info_factory.info_options(&instr, InstructionInfoOptions::NO_MEMORY_USAGE);
         for used_gpr in info.used_registers().iter().filter(|u| u.register().is_gpr()) {
             let full_register = used_gpr.register().full_register();
             let last_op = &mut gpr_ops[full_register as usize - Register::RAX as usize];
 
-            if used_gpr.access() == OpAccess::Write {
+            if used_gpr.access() == OpAccess::Write && !may_not_write {
                 if used_gpr.register().size() >= 4 && *last_op != GprOp::Read(i) {
                     *last_op = GprOp::Write(i);
                 }
-- 
2.43.0

