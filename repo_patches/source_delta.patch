From 19d5ac88f629d341ccee992ce7598cb4b3a46321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 01/26] fix: reset the imem error signal after an invalid fetch

The error output kept its value once set, so a mispredicted fetch outside
the memory made every later instruction of pipe_std fail with Adr.
---
 sim/src/architectures/hardware_pipe.rs | 1 +
 sim/src/architectures/hardware_seq.rs  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 980fc67..4e21a96 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -37,6 +37,7 @@ define_units! {
         if pc + 10 > MEM_SIZE as u64 {
             *error = true;
         } else {
+            *error = false;
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 47467d6..83909ca 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -34,6 +34,7 @@ define_units! {
         if pc + 10 > MEM_SIZE as u64 {
             *error = true;
         } else {
+            *error = false;
             let pc = pc as usize;
             let icode_ifun = binary[pc];
             *icode = icode_ifun >> 4;
-- 
2.43.0


From 043febcd4814bcb6db85da8bda59b75683af48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 02/26] fix: accept the last quad word of the data memory

The bounds check rejected address 0xfff8, which the ISA accepts, and
overflowed for addresses near 2^64.
---
 sim/src/architectures/hardware_pipe.rs | 2 +-
 sim/src/architectures/hardware_seq.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 4e21a96..cdbbe91 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -166,7 +166,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 83909ca..58bf018 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -153,7 +153,7 @@ define_units! {
         )
         binary: MemData
     } {
-        if addr + 8 >= MEM_SIZE as u64 {
+        if addr > MEM_SIZE as u64 - 8 {
             *dataout = 0;
             *error = true;
             return
-- 
2.43.0


From bcb7e58e4a0d45cb8e185def54a48f06930138d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 03/26] fix: fetch instructions correctly at and beyond the
 memory boundary

A 10-byte window was required for every fetch, so valid instructions in
the last 9 bytes of memory failed; addresses near 2^64 (reached by ret or
on mispredicted paths) overflowed and panicked.
---
 sim/src/architectures/hardware_pipe.rs | 31 ++++++++++++++------------
 sim/src/architectures/hardware_seq.rs  | 31 ++++++++++++++------------
 sim/src/isa.rs                         | 12 ++++++++++
 3 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index cdbbe91..750fa7d 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -9,7 +9,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -34,16 +34,18 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            *error = false;
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        *error = match binary.get(pc as usize..) {
+            // the whole instruction must be inside the memory
+            Some([icode_ifun, rest @ ..]) if rest.len() >= inst_len(icode_ifun >> 4) - 1 => {
+                *icode = icode_ifun >> 4;
+                *ifun = icode_ifun & 0xf;
+                let n = rest.len().min(align.len());
+                *align = [0; 9];
+                align[..n].copy_from_slice(&rest[..n]);
+                false
+            }
+            _ => true,
+        };
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
@@ -81,9 +83,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        // the address may be any garbage on a mispredicted path
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index 58bf018..ca052d0 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -6,7 +6,7 @@ use crate::{
     define_units,
     framework::{HardwareUnits, MemData, MEM_SIZE},
     isa::{
-        inst_code,
+        inst_code, inst_len,
         reg_code::{self, *},
         RegFile,
     },
@@ -31,16 +31,18 @@ define_units! {
         binary: MemData
     } {
         let binary: &[u8; MEM_SIZE] = &binary.read();
-        if pc + 10 > MEM_SIZE as u64 {
-            *error = true;
-        } else {
-            *error = false;
-            let pc = pc as usize;
-            let icode_ifun = binary[pc];
-            *icode = icode_ifun >> 4;
-            *ifun = icode_ifun & 0xf;
-            *align = binary[pc+1..pc+10].try_into().expect("fail to load 9 bytes from imem");
-        }
+        *error = match binary.get(pc as usize..) {
+            // the whole instruction must be inside the memory
+            Some([icode_ifun, rest @ ..]) if rest.len() >= inst_len(icode_ifun >> 4) - 1 => {
+                *icode = icode_ifun >> 4;
+                *ifun = icode_ifun & 0xf;
+                let n = rest.len().min(align.len());
+                *align = [0; 9];
+                align[..n].copy_from_slice(&rest[..n]);
+                false
+            }
+            _ => true,
+        };
 
         if *icode == inst_code::CALL {
             tracing::info!("CALL instruction fetched");
@@ -78,9 +80,10 @@ define_units! {
             new_pc: u64
         )
     } {
-        let mut x = old_pc + 1;
-        if need_regids { x += 1; }
-        if need_valC { x += 8; }
+        // the address may be any garbage on a mispredicted path
+        let mut x = old_pc.wrapping_add(1);
+        if need_regids { x = x.wrapping_add(1); }
+        if need_valC { x = x.wrapping_add(8); }
         *new_pc = x;
     }
 
diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index cb8d718..3b10d98 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -43,6 +43,18 @@ define_code! {
     IOPQ = 0xc;
 }
 
+/// Number of bytes occupied by an instruction with the given code (1 if the
+/// code is invalid).
+pub fn inst_len(icode: u8) -> usize {
+    use inst_code::*;
+    match icode {
+        CMOVX | OPQ | PUSHQ | POPQ => 2,
+        JX | CALL => 9,
+        IRMOVQ | RMMOVQ | MRMOVQ | IOPQ => 10,
+        _ => 1,
+    }
+}
+
 define_code! {
     @mod reg_code;
     @type u8;
-- 
2.43.0


From 533f8f610876736d2c129b149759a4b848c079fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 04/26] fix: isa simulator reports out-of-range accesses
 instead of panicking

Fetches, loads, stores and stack operations outside the memory indexed
past the array, and the effective address addition could overflow.
---
 sim/src/isa.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/sim/src/isa.rs b/sim/src/isa.rs
index 3b10d98..d86e95a 100644
--- a/sim/src/isa.rs
+++ b/sim/src/isa.rs
@@ -246,6 +246,15 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
         pc.checked_add(n).ok_or(anyhow::anyhow!("pc overflow"))
     }
 
+    /// Check that a quad word at this address is inside the memory.
+    #[inline]
+    fn ensure_addr(addr: u64) -> anyhow::Result<usize> {
+        if addr > BIN_SIZE as u64 - 8 {
+            anyhow::bail!("invalid memory address: {:#x}", addr);
+        }
+        Ok(addr as usize)
+    }
+
     #[inline]
     fn check_ifun_zero(inst: u8, ifun: u8) -> anyhow::Result<()> {
         if ifun != 0 {
@@ -269,6 +278,9 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
     loop {
         n_insts += 1;
+        if pc >= BIN_SIZE || inst_len(bin[pc] >> 4) > BIN_SIZE - pc {
+            anyhow::bail!("invalid instruction address: {:#x}", pc);
+        }
         let icode = bin[pc] >> 4;
         let ifun = bin[pc] & 0xf;
 
@@ -360,10 +372,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 put_u64(&mut bin[addr..(addr + 8)], reg_file[ra]);
 
                 nex_pc
@@ -377,10 +386,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let rb = ensure_reg(bin[pc + 1] & 0xf)?;
                 let v = get_u64(&bin[(pc + 2)..(pc + 10)]);
 
-                let addr = (reg_file[rb] as i64 + v as i64) as usize;
-                if addr >= BIN_SIZE {
-                    anyhow::bail!("invalid memory address: {:#x}", addr);
-                }
+                let addr = ensure_addr(reg_file[rb].wrapping_add(v))?;
                 reg_file[ra] = get_u64(&bin[addr..(addr + 8)]);
 
                 nex_pc
@@ -421,10 +427,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                put_u64(
-                    &mut bin[(*rsp as usize)..(*rsp as usize + 8)],
-                    pc as u64 + 9,
-                );
+                let new_rsp = ensure_addr(*rsp)?;
+                put_u64(&mut bin[new_rsp..(new_rsp + 8)], pc as u64 + 9);
 
                 v as usize
             }
@@ -433,7 +437,8 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 printi!(inst, end);
 
                 let rsp = get_rsp(&mut reg_file);
-                let v = get_u64(&bin[(*rsp as usize)..(*rsp as usize + 8)]);
+                let old_rsp = ensure_addr(*rsp)?;
+                let v = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
 
@@ -449,7 +454,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
 
                 let rsp = get_rsp(&mut reg_file);
                 *rsp = rsp.checked_sub(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
-                let new_rsp = *rsp as usize;
+                let new_rsp = ensure_addr(*rsp)?;
                 put_u64(&mut bin[new_rsp..(new_rsp + 8)], va);
 
                 nex_pc
@@ -462,7 +467,7 @@ pub fn simulate(mut bin: [u8; BIN_SIZE], tty_out: bool) -> anyhow::Result<Standa
                 let ra = ensure_reg(bin[pc + 1] >> 4)?;
 
                 let rsp = get_rsp(&mut reg_file);
-                let old_rsp = *rsp as usize;
+                let old_rsp = ensure_addr(*rsp)?;
                 *rsp = rsp.checked_add(8).ok_or(anyhow::anyhow!("rsp overflow"))?;
                 reg_file[ra] = get_u64(&bin[old_rsp..(old_rsp + 8)]);
 
-- 
2.43.0


From d96d6d9801f0c72b1d71ead5d7130b508300f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 05/26] fix: parse negative hexadecimal literals

The sign was stripped from the wrong end, so literals such as -0x8, which
the grammar accepts, made the assembler panic.
---
 sim/src/utils.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 6d90d67..2e579bf 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -14,14 +14,12 @@ pub const B: Style = Style::new().bold();
 /// For decimal number, it should be a valid i64.
 /// For hexadecimal number, it should be prefixed with "0x" and in range of u64.
 pub fn parse_literal(s: &str) -> Option<u64> {
-    let (sign, s) = s.strip_suffix("-").map(|s| (-1, s)).unwrap_or((1, s));
     if let Ok(r) = s.parse::<i64>() {
-        return Some((r * sign) as u64);
+        return Some(r as u64);
     }
-    if let Ok(r) = u64::from_str_radix(s.strip_prefix("0x")?, 16) {
-        return Some((r as i64 * sign) as u64);
-    }
-    None
+    let (negative, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s));
+    let r = u64::from_str_radix(s.strip_prefix("0x")?, 16).ok()?;
+    Some(if negative { r.wrapping_neg() } else { r })
 }
 
 /// Get 64-bit unsigned integer value in little endian order.
-- 
2.43.0


From 580b7bdc7ca3873182783d486fabb924b9d426cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 06/26] fix: report out-of-range number literals as assembly
 errors

They made the assembler panic.
---
 sim/src/asm/mod.rs | 56 ++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 78c100d..fcff839 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -139,19 +139,26 @@ impl OpFn {
 #[derive(Debug, Clone, Copy)]
 pub struct Addr(pub Option<u64>, pub Reg);
 
-impl From<ParseInput<'_>> for Addr {
-    fn from(value: ParseInput<'_>) -> Self {
+/// Parse a number accepted by the grammar, which may exceed the range of its
+/// type.
+fn parse_num(s: &str) -> Result<u64> {
+    utils::parse_literal(s).with_context(|| format!("number literal out of range: {s}"))
+}
+
+impl TryFrom<ParseInput<'_>> for Addr {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         let mut it = value.into_iter();
         let num_or_reg = it.next().expect("expect number or register");
         if num_or_reg.as_rule() == Rule::reg {
             // no displacement
             let reg = Reg::from(num_or_reg.pair);
-            Self(None, reg)
+            Ok(Self(None, reg))
         } else {
-            let s = num_or_reg.as_str();
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
+            let num = parse_num(num_or_reg.as_str())?;
             let reg = it.next_reg();
-            Self(Some(num as u64), reg)
+            Ok(Self(Some(num), reg))
         }
     }
 }
@@ -163,15 +170,16 @@ pub enum Imm {
     Label(String),
 }
 
-impl From<ParseInput<'_>> for Imm {
-    fn from(value: ParseInput<'_>) -> Self {
+impl TryFrom<ParseInput<'_>> for Imm {
+    type Error = anyhow::Error;
+
+    fn try_from(value: ParseInput<'_>) -> Result<Self> {
         if value.as_rule() == Rule::label {
-            Self::Label(value.as_str().to_string())
+            Ok(Self::Label(value.as_str().to_string()))
         } else {
             let s = value.as_str();
             let s = s.strip_prefix('$').unwrap_or(s);
-            let num = utils::parse_literal(s).expect("fail to parse number literal") as i64;
-            Self::Num(num)
+            Ok(Self::Num(parse_num(s)? as i64))
         }
     }
 }
@@ -297,13 +305,13 @@ impl<'a> ParseInputs<'a> {
     }
 
     /// Parse next token as address
-    fn next_addr(&mut self) -> Addr {
-        Addr::from(self.next().expect("expect address token"))
+    fn next_addr(&mut self) -> Result<Addr> {
+        Addr::try_from(self.next().expect("expect address token"))
     }
 
     /// Parse next token as immediate
-    fn next_imm(&mut self) -> Imm {
-        Imm::from(self.next().expect("expect immediate number token"))
+    fn next_imm(&mut self) -> Result<Imm> {
+        Imm::try_from(self.next().expect("expect immediate number token"))
     }
 }
 
@@ -366,19 +374,19 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_mrmovq => {
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::MRMOVQ(addr, reg));
                     cur_addr += 10
                 }
                 Rule::i_rmmovq => {
                     let reg = it.next_reg();
-                    let addr = it.next_addr();
+                    let addr = it.next_addr()?;
                     src_info.inst = Some(Inst::RMMOVQ(reg, addr));
                     cur_addr += 10
                 }
                 Rule::i_irmovq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     src_info.inst = Some(Inst::IRMOVQ(reg, imm));
                     cur_addr += 10
@@ -391,7 +399,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                     cur_addr += 2
                 }
                 Rule::i_iopq => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     let reg = it.next_reg();
                     let op_fn = OpFn::from_instname(tok2.as_str());
                     src_info.inst = Some(Inst::IOPQ(op_fn, imm, reg));
@@ -399,12 +407,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::i_jx => {
                     let cond_fn = CondFn::from(it.next_str());
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::JX(cond_fn, imm));
                     cur_addr += 9
                 }
                 Rule::i_call => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     src_info.inst = Some(Inst::CALL(imm));
                     cur_addr += 9
                 }
@@ -420,12 +428,12 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_pos => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     cur_addr = num;
                     src_info.addr = Some(cur_addr) // override
                 }
                 Rule::d_data => {
-                    let imm = it.next_imm();
+                    let imm = it.next_imm()?;
                     if tok2.as_str().starts_with(".quad") {
                         src_info.data = Some((8, imm));
                         cur_addr += 8;
@@ -444,7 +452,7 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
                 }
                 Rule::d_align => {
                     let s = it.next_str();
-                    let num = utils::parse_literal(s).expect("fail to parse number literal");
+                    let num = parse_num(s)?;
                     anyhow::ensure!(num.count_ones() == 1, "invalid align number");
                     if cur_addr % num > 0 {
                         cur_addr = cur_addr / num * num + num // ceil
-- 
2.43.0


From a742c9001a5dbdf4f1aa2e7d90ff1201ac1c479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 07/26] fix: report code and data outside the memory as
 assembly errors

Writing them indexed past the object's memory and panicked.
---
 sim/src/asm/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index fcff839..8fda817 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -5,7 +5,7 @@ use pest_derive::Parser;
 
 use crate::{
     isa::{self, reg_code},
-    object::{LineInfo, Object, ObjectExt},
+    object::{LineInfo, Object, ObjectExt, BIN_SIZE},
     utils, SourceInfo,
 };
 
@@ -463,6 +463,11 @@ pub fn assemble(src: &str, option: AssembleOption) -> Result<ObjectExt> {
             }
         }
         verbo!(&src_info);
+        anyhow::ensure!(
+            cur_addr <= BIN_SIZE as u64,
+            "line {}: address {cur_addr:#x} is outside the memory",
+            src_infos.len() + 1
+        );
         src_infos.push(src_info);
     }
     let mut obj = Object::default();
-- 
2.43.0


From e3beee9d765f75a8a168e48a29be3918495690b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 08/26] fix: yis reports malformed object files instead of
 panicking

---
 sim/src/bin/yis.rs |  5 ++++-
 sim/src/utils.rs   | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/sim/src/bin/yis.rs b/sim/src/bin/yis.rs
index 08c569b..dc75dc6 100644
--- a/sim/src/bin/yis.rs
+++ b/sim/src/bin/yis.rs
@@ -41,7 +41,10 @@ fn main() -> Result<()> {
                 let value = line[sep + 1..index].trim();
                 if !value.is_empty() {
                     let bytes = utils::decode_hex(value)?;
-                    bin[addr..addr + bytes.len()].copy_from_slice(&bytes);
+                    addr.checked_add(bytes.len())
+                        .and_then(|end| bin.get_mut(addr..end))
+                        .with_context(|| format!("address out of range: {:#x}", addr))?
+                        .copy_from_slice(&bytes);
                 }
             }
         }
diff --git a/sim/src/utils.rs b/sim/src/utils.rs
index 2e579bf..de24ebd 100644
--- a/sim/src/utils.rs
+++ b/sim/src/utils.rs
@@ -38,10 +38,15 @@ pub fn put_u64(binary: &mut [u8], val: u64) {
 }
 
 /// Decode hexadecimal string to byte array.
-pub fn decode_hex(s: &str) -> Result<Vec<u8>, std::num::ParseIntError> {
-    (0..s.len())
-        .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+pub fn decode_hex(s: &str) -> anyhow::Result<Vec<u8>> {
+    s.as_bytes()
+        .chunks(2)
+        .map(|pair| match pair {
+            [hi, lo] if hi.is_ascii_hexdigit() && lo.is_ascii_hexdigit() => {
+                Ok(u8::from_str_radix(std::str::from_utf8(pair)?, 16)?)
+            }
+            _ => anyhow::bail!("invalid hexadecimal string: {s}"),
+        })
         .collect()
 }
 
-- 
2.43.0


From 4a2d79302c2d496f0b13b4998d72df24f04a3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 09/26] fix: hit breakpoints on every line that shares an
 address

A verified breakpoint never hit when an earlier line (a label or .pos
directive) had the same address, since the program counter was mapped
back to the first such line only.
---
 debugger/src/server.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index d4e3b6c..7c40de6 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -483,9 +483,8 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 let Some(bp_ln) = bp.line else { return false };
                 inner
                     .source_info
-                    .get_line_number_by_addr(pc)
-                    .map(|ln| ln == bp_ln)
-                    .unwrap_or(false)
+                    .get_line(bp_ln)
+                    .is_some_and(|ln| ln.addr == Some(pc))
             }) {
                 let bp_id = bp.id.ok_or(anyhow::anyhow!("breakpoint id not set"))?;
                 tracing::trace!("hit breakpoint: line = {:?}", bp.line);
-- 
2.43.0


From 7ab8bdb27447ff30c370153c3c2da3e2eb88e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 10/26] fix: refuse breakpoints on nonexistent lines

They panicked and killed the debug session.
---
 debugger/src/server.rs | 10 +++++-----
 sim/src/object.rs      |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 7c40de6..61bd733 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -199,14 +199,14 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         let ln = inner
                             .source_info
                             .get_line(b.line)
-                            .expect("invalid breakpoint line");
+                            .ok_or(anyhow::anyhow!("invalid breakpoint line {}", b.line))?;
                         let message = ln.addr.map(|a| format!("addr: {:#x}", a));
 
                         let Some(addr) = ln.addr else {
-                            return types::Breakpoint::default();
+                            return Ok(types::Breakpoint::default());
                         };
 
-                        types::Breakpoint {
+                        Ok(types::Breakpoint {
                             // we use the address as the id
                             id: Some(addr as i64),
                             verified,
@@ -214,9 +214,9 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                             source: Some(source.clone()),
                             line: Some(b.line),
                             ..Default::default()
-                        }
+                        })
                     })
-                    .collect();
+                    .collect::<anyhow::Result<_>>()?;
 
                 self.breakpoints = bps.clone();
 
diff --git a/sim/src/object.rs b/sim/src/object.rs
index 42c869a..6050a42 100644
--- a/sim/src/object.rs
+++ b/sim/src/object.rs
@@ -177,8 +177,8 @@ impl From<Vec<LineInfo>> for SourceInfo {
 impl SourceInfo {
     /// Get the line info by line number (start from 1)
     pub fn get_line(&self, line: i64) -> Option<&LineInfo> {
-        assert!(line > 0);
-        self.0.get(line as usize - 1)
+        let index = usize::try_from(line).ok()?.checked_sub(1)?;
+        self.0.get(index)
     }
 
     pub fn get_line_number_by_addr(&self, addr: u64) -> Option<i64> {
-- 
2.43.0


From 5c7b593ebcde8c997e69fe84aad1a991dc3da914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 11/26] fix: refuse run control requests before launch

They were answered with success and then ended the session.
---
 debugger/src/server.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 61bd733..685ad41 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -171,10 +171,13 @@ impl<R: Read, W: Write> DebugServer<R, W> {
             Command::Disconnect(_) => {
                 bail!("can not handle disconnect command in the handler");
             }
-            Command::ConfigurationDone => Ok((
-                req.success(ResponseBody::ConfigurationDone),
-                ServerStatus::RunProg(RunProgKind::InitialRun),
-            )),
+            Command::ConfigurationDone => {
+                self.inner()?;
+                Ok((
+                    req.success(ResponseBody::ConfigurationDone),
+                    ServerStatus::RunProg(RunProgKind::InitialRun),
+                ))
+            }
             Command::SetBreakpoints(args) => {
                 let Some(breakpoints) = &args.breakpoints else {
                     bail!("missing breakpoints");
@@ -349,6 +352,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 // we do not care about the granularity
                 Ok((
                     req.success(ResponseBody::Next),
@@ -359,6 +363,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                self.inner()?;
                 Ok((
                     req.success(ResponseBody::Continue(responses::ContinueResponse {
                         // we have exactly one thread
-- 
2.43.0


From 95fa8105d09a97089020bbf3f8a4ffc37f2b0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 12/26] fix: refuse negative variables references without
 overflow

---
 debugger/src/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 685ad41..f1e11e7 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -322,10 +322,10 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         .collect()
                 } else {
                     // scopes of each stage
-                    let index = args.variables_reference - 2;
-                    if index < 0 {
-                        bail!("invalid variables reference {index}");
+                    if args.variables_reference < 2 {
+                        bail!("invalid variables reference {}", args.variables_reference);
                     }
+                    let index = args.variables_reference - 2;
                     let stage = inner
                         .stage_info
                         .get(index as usize)
-- 
2.43.0


From 1ab61b326823dbe6d39eef22f63fd7f0903e09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 13/26] fix: evaluate the circuit in a deterministic order

The order was derived from the iteration order of a randomly seeded hash
set. Self-modifying programs on pipe_std behaved differently from run to
run, and so did the output of ysim -I.
---
 sim/src/framework/propagate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index 99dc5e1..f53b383 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{BTreeSet, HashMap, HashSet, VecDeque},
     fmt::{Debug, Write},
     hash::Hash,
 };
@@ -95,7 +95,8 @@ pub struct PropOrderBuilder {
     runnable_nodes_set: HashSet<String>,
     /// Runnable nodes includes units and intermediate signals.
     runnable_nodes: NameList,
-    nodes: HashSet<String>,
+    /// Ordered, so that the evaluation order of the circuit is deterministic.
+    nodes: BTreeSet<String>,
     edges: Vec<(String, String)>,
 }
 
-- 
2.43.0


From 28b83ee3cfbc52fc21e24f4c84d989ee8d6fd71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 14/26] fix: keep serving when a connection cannot be accepted

One aborted connection, or running out of descriptors or threads for a
moment, ended the debug server together with all of its sessions.
---
 debugger/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index f1cdd38..891335d 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -29,7 +29,7 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
         match s {
             Ok(s) => {
                 tracing::trace!("accepted connection");
-                std::thread::Builder::new()
+                let r = std::thread::Builder::new()
                     .stack_size(32 << 20)
                     .spawn(move || {
                         let server = server::DebugServer::new(
@@ -39,11 +39,15 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
                         );
                         let r = server.start();
                         tracing::trace!("connection closed, result: {:?}", r);
-                    })?;
+                    });
+                if let Err(e) = r {
+                    tracing::error!("failed to serve connection: {:?}", e);
+                }
             }
             Err(e) => {
+                // transient: the client gave up or resources are exhausted
                 tracing::error!("failed to accept connection: {:?}", e);
-                break;
+                std::thread::sleep(std::time::Duration::from_millis(10));
             }
         }
     }
-- 
2.43.0


From aa0e67e948fdff92af73d3ed1f11d4d5cf0c9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 15/26] hook: let a simulator choose the circuit evaluation
 order (cfg y86_dst)

---
 sim/src/framework/dst.rs       | 56 ++++++++++++++++++++++++++++++++++
 sim/src/framework/mod.rs       |  2 ++
 sim/src/framework/propagate.rs |  2 ++
 sim/src/lib.rs                 |  3 ++
 4 files changed, 63 insertions(+)
 create mode 100644 sim/src/framework/dst.rs

diff --git a/sim/src/framework/dst.rs b/sim/src/framework/dst.rs
new file mode 100644
index 0000000..d511673
--- /dev/null
+++ b/sim/src/framework/dst.rs
@@ -0,0 +1,56 @@
+//! Hook for deterministic simulation, compiled only with `--cfg y86_dst`.
+//!
+//! It lets the simulator choose the order in which the units and signals of a
+//! circuit are evaluated, among all orders that respect the declared
+//! dependencies.
+
+use std::{
+    cell::Cell,
+    collections::{BTreeMap, BTreeSet},
+};
+
+use super::propagate::PropOrderItem;
+
+thread_local! {
+    static ORDER_SEED: Cell<Option<u64>> = const { Cell::new(None) };
+}
+
+/// Circuits built afterwards by this thread get the evaluation order selected
+/// by the seed, or the default one if it is `None`.
+pub fn set_order_seed(seed: Option<u64>) {
+    ORDER_SEED.set(seed)
+}
+
+pub(super) fn permute(order: &mut Vec<PropOrderItem>, edges: &[(String, String)]) {
+    let Some(mut seed) = ORDER_SEED.get() else {
+        return;
+    };
+    let mut succ: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
+    let mut degree: BTreeMap<&str, usize> = BTreeMap::new();
+    let mut ready: Vec<&str> = Vec::new();
+    let mut nodes: BTreeSet<&str> = order.iter().map(|o| o.name).collect();
+    for (from, to) in edges {
+        nodes.extend([from.as_str(), to.as_str()]);
+        succ.entry(from).or_default().push(to);
+        *degree.entry(to).or_default() += 1;
+    }
+    ready.extend(nodes.iter().filter(|n| !degree.contains_key(*n)));
+    let mut position: BTreeMap<String, usize> = BTreeMap::new();
+    while !ready.is_empty() {
+        // splitmix64
+        seed = seed.wrapping_add(0x9e3779b97f4a7c15);
+        let mut z = seed;
+        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
+        let node = ready.swap_remove(((z ^ (z >> 31)) % ready.len() as u64) as usize);
+        position.insert(node.to_string(), position.len());
+        for to in succ.get(node).into_iter().flatten() {
+            let d = degree.get_mut(to).expect("degree of a node with an edge");
+            *d -= 1;
+            if *d == 0 {
+                ready.push(to);
+            }
+        }
+    }
+    order.sort_by_key(|o| position[o.name]);
+}
diff --git a/sim/src/framework/mod.rs b/sim/src/framework/mod.rs
index 81b02b5..db1ea81 100644
--- a/sim/src/framework/mod.rs
+++ b/sim/src/framework/mod.rs
@@ -1,5 +1,7 @@
 //! To provide a flexible codebase for different CPU architectures, we give a
 //! general CPU simulator framework.
+#[cfg(y86_dst)]
+pub mod dst;
 mod propagate;
 
 pub use propagate::{PropCircuit, PropOrder, PropOrderBuilder, PropUpdates, Propagator, Tracer};
diff --git a/sim/src/framework/propagate.rs b/sim/src/framework/propagate.rs
index f53b383..b77c40b 100644
--- a/sim/src/framework/propagate.rs
+++ b/sim/src/framework/propagate.rs
@@ -204,6 +204,8 @@ impl PropOrderBuilder {
             })
             .collect::<Vec<_>>();
         order.sort_by_key(|a| a.level);
+        #[cfg(y86_dst)]
+        super::dst::permute(&mut order, &self.edges);
 
         // order
         PropOrder {
diff --git a/sim/src/lib.rs b/sim/src/lib.rs
index 7d4a345..bce243d 100644
--- a/sim/src/lib.rs
+++ b/sim/src/lib.rs
@@ -1,3 +1,6 @@
+// `y86_dst` is set when the crate is built for deterministic simulation.
+#![allow(unexpected_cfgs)]
+
 pub mod architectures;
 mod asm;
 mod dsl;
-- 
2.43.0


From 63ea1b6c1168e3c5b952eba73bb53932ec1b15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 16/26] dst hook: let the simulator switch threads at every
 cycle

---
 sim/src/framework/dst.rs | 8 +++++++-
 sim_macro/src/lib.rs     | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/sim/src/framework/dst.rs b/sim/src/framework/dst.rs
index d511673..de4f9d5 100644
--- a/sim/src/framework/dst.rs
+++ b/sim/src/framework/dst.rs
@@ -2,7 +2,8 @@
 //!
 //! It lets the simulator choose the order in which the units and signals of a
 //! circuit are evaluated, among all orders that respect the declared
-//! dependencies.
+//! dependencies, and gives it a place in every cycle where it may switch to
+//! another thread.
 
 use std::{
     cell::Cell,
@@ -21,6 +22,11 @@ pub fn set_order_seed(seed: Option<u64>) {
     ORDER_SEED.set(seed)
 }
 
+/// Called before each cycle; `sched_yield` is what the simulator intercepts.
+pub fn yield_point() {
+    std::thread::yield_now()
+}
+
 pub(super) fn permute(order: &mut Vec<PropOrderItem>, edges: &[(String, String)]) {
     let Some(mut seed) = ORDER_SEED.get() else {
         return;
diff --git a/sim_macro/src/lib.rs b/sim_macro/src/lib.rs
index 18038e6..dd035e2 100644
--- a/sim_macro/src/lib.rs
+++ b/sim_macro/src/lib.rs
@@ -610,6 +610,8 @@ impl HclData {
                     self.cur_state.mux(&self.nex_state);
                 }
                 fn propagate_signals(&mut self) {
+                    #[cfg(y86_dst)]
+                    crate::framework::dst::yield_point();
                     self.update();
                     self.cycle_count += 1;
 
-- 
2.43.0


From ec123d82dcfb6e0c144f59469d3eb450a87adbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 17/26] fix: registers scope refers to the launched program,
 not to the previous one

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index f1e11e7..28c224a 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -123,7 +123,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 presentation_hint: Some(types::ScopePresentationhint::Registers),
                 variables_reference: REG_SCOPE_VAR_REF,
                 expensive: false,
-                source: Some(self.main_source()),
+                source: Some(main_source),
                 ..Default::default()
             },
         );
-- 
2.43.0


From 567d61d924655266878c51d5f40b1151f5ba9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 18/26] fix: acknowledge the disconnect request before ending
 the session

---
 debugger/src/server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 28c224a..c4b4ae0 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -409,6 +409,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
         };
 
         if let Command::Disconnect(_) = req.command {
+            self.server.respond(req.success(ResponseBody::Disconnect))?;
             bail!("disconnect command received");
         }
 
-- 
2.43.0


From 0a38fd7f6aca7e768d1fe559a2404235e395959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 19/26] fix: an announced message of absurd size ends the
 session, not the server

The dap crate allocates as many bytes as the Content-Length header announces;
when that fails the process aborts, and with it all other sessions. Refuse
headers that announce more than 16 MiB.
---
 debugger/src/framing.rs | 93 +++++++++++++++++++++++++++++++++++++++++
 debugger/src/lib.rs     |  1 +
 debugger/src/server.rs  |  9 ++--
 3 files changed, 100 insertions(+), 3 deletions(-)
 create mode 100644 debugger/src/framing.rs

diff --git a/debugger/src/framing.rs b/debugger/src/framing.rs
new file mode 100644
index 0000000..39170d1
--- /dev/null
+++ b/debugger/src/framing.rs
@@ -0,0 +1,93 @@
+//! Protects the server from absurd message headers.
+
+use std::io::{self, Read};
+
+/// No request is anywhere near this long.
+const MAX_CONTENT_LENGTH: u64 = 16 << 20;
+
+enum State {
+    /// Collecting the `Content-Length` line.
+    Header(Vec<u8>),
+    /// In the line between header and content, whose length is known.
+    Separator(u64),
+    /// So many bytes of content are left.
+    Content(u64),
+    /// The header announced a message of this length.
+    Oversized(u64),
+}
+
+/// Passes on what the client sends, up to the first header that announces an
+/// oversized message. [`dap::server::Server`] allocates as much memory as the
+/// header says, and a failing allocation would end all sessions at once.
+pub struct LimitLength<R> {
+    inner: R,
+    state: State,
+}
+
+impl<R: Read> LimitLength<R> {
+    pub fn new(inner: R) -> Self {
+        Self {
+            inner,
+            state: State::Header(Vec::new()),
+        }
+    }
+
+    /// Follows the framing of the input and returns how many of the bytes may
+    /// be passed on.
+    fn scan(&mut self, bytes: &[u8]) -> usize {
+        let mut i = 0;
+        while i < bytes.len() {
+            let b = bytes[i];
+            match &mut self.state {
+                State::Header(line) if b == b'\n' => {
+                    // malformed headers are reported by the server itself
+                    let len = std::str::from_utf8(line)
+                        .ok()
+                        .and_then(|l| l.strip_prefix("Content-Length:"))
+                        .and_then(|l| l.trim().parse().ok())
+                        .unwrap_or(0);
+                    if len > MAX_CONTENT_LENGTH {
+                        self.state = State::Oversized(len);
+                        break;
+                    }
+                    self.state = State::Separator(len);
+                }
+                State::Header(line) => line.push(b),
+                State::Separator(0) if b == b'\n' => self.state = State::Header(Vec::new()),
+                State::Separator(len) if b == b'\n' => self.state = State::Content(*len),
+                State::Separator(_) => {}
+                State::Content(left) => {
+                    let n = (*left).min((bytes.len() - i) as u64);
+                    *left -= n;
+                    if *left == 0 {
+                        self.state = State::Header(Vec::new());
+                    }
+                    i += n as usize;
+                    continue;
+                }
+                State::Oversized(_) => break,
+            }
+            i += 1;
+        }
+        i
+    }
+}
+
+impl<R: Read> Read for LimitLength<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if !matches!(self.state, State::Oversized(_)) {
+            let n = self.inner.read(buf)?;
+            let ok = self.scan(&buf[..n]);
+            if n == 0 || ok > 0 {
+                return Ok(ok);
+            }
+        }
+        let State::Oversized(len) = self.state else {
+            return Ok(0);
+        };
+        Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("message of {len} bytes announced"),
+        ))
+    }
+}
diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index 891335d..232907a 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -1,3 +1,4 @@
+mod framing;
 mod server;
 
 use std::net::SocketAddr;
diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index c4b4ae0..5ffe01d 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -11,7 +11,7 @@ use y86_sim::{
     framework::{CpuSim, MemData},
 };
 
-use crate::SimOption;
+use crate::{framing::LimitLength, SimOption};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum RunProgKind {
@@ -42,7 +42,7 @@ pub struct DebugServer<R: Read, W: Write> {
     /// Lines of breakpoints
     breakpoints: Vec<types::Breakpoint>,
     /// Path of the source file (this debugger only supports single source file)
-    server: dap::server::Server<R, W>,
+    server: dap::server::Server<LimitLength<R>, W>,
     status: ServerStatus,
     sim_opt: SimOption,
 }
@@ -67,7 +67,10 @@ impl<R: Read, W: Write> DebugServer<R, W> {
     pub fn new(input: R, output: W, option: SimOption) -> Self {
         Self {
             inner: None,
-            server: dap::server::Server::new(BufReader::new(input), BufWriter::new(output)),
+            server: dap::server::Server::new(
+                BufReader::new(LimitLength::new(input)),
+                BufWriter::new(output),
+            ),
             breakpoints: Vec::new(),
             status: ServerStatus::ServeReq,
             sim_opt: option,
-- 
2.43.0


From 0c3bd722a2a1fcc841a56c9c6d205bcb829d8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 20/26] fix: take the function of iopq from its mnemonic, not
 from a label's name

---
 sim/src/asm/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sim/src/asm/mod.rs b/sim/src/asm/mod.rs
index 8fda817..d4ea886 100644
--- a/sim/src/asm/mod.rs
+++ b/sim/src/asm/mod.rs
@@ -120,14 +120,17 @@ impl From<&str> for CondFn {
 }
 
 impl OpFn {
+    /// Determine the function by the text of an `opq` or `iopq` instruction.
+    /// Only its mnemonic counts, since an operand can be a label of any name.
     fn from_instname(value: &str) -> Self {
-        if value.contains("andq") {
+        let value = value.strip_prefix('i').unwrap_or(value);
+        if value.starts_with("andq") {
             Self::AND
-        } else if value.contains("addq") {
+        } else if value.starts_with("addq") {
             Self::ADD
-        } else if value.contains("subq") {
+        } else if value.starts_with("subq") {
             Self::SUB
-        } else if value.contains("xorq") {
+        } else if value.starts_with("xorq") {
             Self::XOR
         } else {
             panic!("invalid")
-- 
2.43.0


From bbaf202723b2b9ccae99e4e2fa367163543e2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 21/26] fix: end on Ctrl-C although stderr cannot be written

---
 debugger/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/debugger/src/lib.rs b/debugger/src/lib.rs
index 232907a..3756342 100644
--- a/debugger/src/lib.rs
+++ b/debugger/src/lib.rs
@@ -1,7 +1,7 @@
 mod framing;
 mod server;
 
-use std::net::SocketAddr;
+use std::{io::Write, net::SocketAddr};
 
 use anyhow::Context;
 
@@ -20,7 +20,8 @@ pub fn start_tcp_listener(port: u16, option: SimOption) -> anyhow::Result<()> {
     );
 
     ctrlc::set_handler(move || {
-        eprintln!("exiting");
+        // stderr may be gone by now, which is no reason to stay
+        let _ = writeln!(std::io::stderr(), "exiting");
         std::process::exit(0);
     })
     .context("failed to set ctrlc handler")?;
-- 
2.43.0


From adfa7002239a0c894d991ad3866388e28a3ba882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 22/26] hook: build generated circuits in under
 cfg(y86_dst_circuits)

---
 sim/src/architectures/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sim/src/architectures/mod.rs b/sim/src/architectures/mod.rs
index b0d0ddd..0372e12 100644
--- a/sim/src/architectures/mod.rs
+++ b/sim/src/architectures/mod.rs
@@ -7,6 +7,12 @@ mod builtin;
 mod extra;
 mod invalid;
 
+/// Circuits that are generated for simulation.
+#[cfg(y86_dst_circuits)]
+pub mod dst_circuits {
+    include!(env!("Y86_DST_CIRCUITS"));
+}
+
 pub use extra::ARCH_NAMES as EXTRA_ARCH_NAMES;
 
 use crate::framework::{CpuSim, MemData, PipeSim};
-- 
2.43.0


From 0c95055a6e3e285d6a1febc3a239e9352881ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 23/26] fix: a field of a condition code depends on the signal
 or unit it belongs to

---
 sim_macro/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sim_macro/src/lib.rs b/sim_macro/src/lib.rs
index dd035e2..3c19d77 100644
--- a/sim_macro/src/lib.rs
+++ b/sim_macro/src/lib.rs
@@ -366,11 +366,19 @@ impl HclData {
                     .source
                     .lvalues()
                     .into_iter()
-                    .filter(|lv| {
-                        // is intermediate signal or unit port
-                        // previous stage fields are not included
-                        lv.0.len() == 1 && inter_names.iter().any(|n| &lv.0[0] == *n)
-                            || lv.0.len() == 2 && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre)
+                    .filter_map(|lv| {
+                        // is intermediate signal or unit port, maybe followed by fields of
+                        // its value; previous stage fields are not included
+                        let len = if inter_names.contains(&&lv.0[0]) {
+                            1
+                        } else if lv.0.len() > 1
+                            && stage_alias.iter().all(|(_, pre)| &lv.0[0] != pre)
+                        {
+                            2
+                        } else {
+                            return None;
+                        };
+                        Some(LValue(lv.0.into_iter().take(len).collect()))
                     })
                     .map(|lv| quote! {
                         g.add_edge(stringify!(#lv).to_string(), stringify!(#name).to_string());
-- 
2.43.0


From 2180dbae2464cc665d27fb0bb1a220115233211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 24/26] fix: the data memory puts out 0 when nothing is read,
 as documented

---
 sim/src/architectures/hardware_pipe.rs | 2 ++
 sim/src/architectures/hardware_seq.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sim/src/architectures/hardware_pipe.rs b/sim/src/architectures/hardware_pipe.rs
index 750fa7d..3d90a78 100644
--- a/sim/src/architectures/hardware_pipe.rs
+++ b/sim/src/architectures/hardware_pipe.rs
@@ -182,6 +182,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
diff --git a/sim/src/architectures/hardware_seq.rs b/sim/src/architectures/hardware_seq.rs
index ca052d0..4fd5136 100644
--- a/sim/src/architectures/hardware_seq.rs
+++ b/sim/src/architectures/hardware_seq.rs
@@ -169,6 +169,8 @@ define_units! {
             *dataout = 0;
         } else if read {
             *dataout = get_u64(&binary.read()[(addr as usize)..]);
+        } else {
+            *dataout = 0;
         }
     }
 }
-- 
2.43.0


From 5f7091dda134b54de248014b7c98fee9866df2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 25/26] fix: stackTrace is refused before launch whatever
 frames it asks for

---
 debugger/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debugger/src/server.rs b/debugger/src/server.rs
index 5ffe01d..64a752f 100644
--- a/debugger/src/server.rs
+++ b/debugger/src/server.rs
@@ -263,6 +263,7 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                 if args.thread_id != THREAD_ID {
                     bail!("invalid thread id");
                 }
+                let inner = self.inner()?;
                 // not the first frame, we don't have stack trace
                 if args.start_frame.unwrap_or_default() > 0 {
                     return Ok((
@@ -273,7 +274,6 @@ impl<R: Read, W: Write> DebugServer<R, W> {
                         ServerStatus::ServeReq,
                     ));
                 }
-                let inner = self.inner()?;
                 // currently we don't have stack trace, thus we return a single frame
                 Ok((
                     req.success(ResponseBody::StackTrace(responses::StackTraceResponse {
-- 
2.43.0


From 648fffc27a928a8ae9d23ea9e86384d121fa8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:07 +0000
Subject: [PATCH 26/26] fix: the length limit also applies to a header cut
 short by the end of input

---
 debugger/src/framing.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/debugger/src/framing.rs b/debugger/src/framing.rs
index 39170d1..cb74ff0 100644
--- a/debugger/src/framing.rs
+++ b/debugger/src/framing.rs
@@ -16,6 +16,16 @@ enum State {
     Oversized(u64),
 }
 
+/// The length a header announces. Malformed headers announce nothing: they are
+/// reported by the server itself.
+fn announced(line: &[u8]) -> u64 {
+    std::str::from_utf8(line)
+        .ok()
+        .and_then(|l| l.strip_prefix("Content-Length:"))
+        .and_then(|l| l.trim().parse().ok())
+        .unwrap_or(0)
+}
+
 /// Passes on what the client sends, up to the first header that announces an
 /// oversized message. [`dap::server::Server`] allocates as much memory as the
 /// header says, and a failing allocation would end all sessions at once.
@@ -40,12 +50,7 @@ impl<R: Read> LimitLength<R> {
             let b = bytes[i];
             match &mut self.state {
                 State::Header(line) if b == b'\n' => {
-                    // malformed headers are reported by the server itself
-                    let len = std::str::from_utf8(line)
-                        .ok()
-                        .and_then(|l| l.strip_prefix("Content-Length:"))
-                        .and_then(|l| l.trim().parse().ok())
-                        .unwrap_or(0);
+                    let len = announced(line);
                     if len > MAX_CONTENT_LENGTH {
                         self.state = State::Oversized(len);
                         break;
@@ -78,7 +83,14 @@ impl<R: Read> Read for LimitLength<R> {
         if !matches!(self.state, State::Oversized(_)) {
             let n = self.inner.read(buf)?;
             let ok = self.scan(&buf[..n]);
-            if n == 0 || ok > 0 {
+            // the server also acts on a header cut short by the end of the input
+            if let (0, State::Header(line)) = (n, &self.state) {
+                let len = announced(line);
+                if len > MAX_CONTENT_LENGTH {
+                    self.state = State::Oversized(len);
+                }
+            }
+            if ok > 0 || n == 0 && !matches!(self.state, State::Oversized(_)) {
                 return Ok(ok);
             }
         }
-- 
2.43.0

