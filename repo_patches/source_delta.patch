From 818b9f5b9f7e8bd8da256d97447fbed519b98c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:48 +0000
Subject: [PATCH 01/12] fix: cvttsd2siq must use REX.W

The 64-bit conversion was encoded without REX.W, so values outside the
32-bit range gave the 32-bit integer indefinite value.
---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From c2aedf0fa9f5b77a1ab077ff5f8c81e7ccff3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 02/12] fix: roundpd with a rip-relative label must count its
 immediate

The relocation was recorded as if the displacement were the last field of
the instruction, so the operand was one byte off.
---
 monoasm/src/jit_memory.rs | 5 +++++
 monoasm_macro/src/asm.rs  | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..afcd706 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,11 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..2816969 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,8 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                let imm: u8 = #op3;
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(imm as i8));
             }
         }
 
-- 
2.43.0


From a32bc224da9641f36198f990bec64ace1b03b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:52 +0000
Subject: [PATCH 03/12] fix: include() must not depend on the selected page

---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index afcd706..238a374 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let top = self.pages[0].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From e99f8e8203927a2e659e8a9547a57d28eee3b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:53 +0000
Subject: [PATCH 04/12] fix: refuse rsp as index and labels outside [rip +
 label]

These have no encoding; the index or the base was dropped silently.
---
 monoasm/src/lib.rs         | 6 ++++++
 monoasm_macro/src/parse.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..a44cd37 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -226,6 +226,12 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        if let Scale::S1(_, index) = scale {
+            assert!(index.0 != 4, "rsp can not be used as an index register.");
+        }
+        if let Disp::Label(_) = disp {
+            assert!(base.is_rip(), "a label is only allowed as [rip + label].");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..98decfc 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -445,7 +445,7 @@ impl Disp {
         match self {
             Disp::Imm(disp) => Disp::Imm(-disp),
             Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Label(label) => panic!("label '{}' can not be subtracted.", label),
         }
     }
 }
-- 
2.43.0


From eb16c17f29cf77144271cc8fba8e595c71fceb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 05/12] fix: refuse register numbers that do not exist

R(17), xmm(20), R(256).. were truncated and encoded as another register.
---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index a44cd37..25aedf2 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "Illegal register number.");
         Reg(num as u8)
     }
 
-- 
2.43.0


From bed72329d80e6eeac4812a43e7fbc53d17598064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:56 +0000
Subject: [PATCH 06/12] fix: displacement expressions must be cast as a whole
 and not truncated

'[rax + (a * 8)]' cast only its last operand, and values beyond 32 bits
were truncated silently.
---
 monoasm_macro/src/asm.rs   | 5 +++--
 monoasm_macro/src/parse.rs | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 2816969..8ba86c5 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -286,11 +286,12 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    let imm = (#imm) as i64;
+                    if let Ok(imm) = i32::try_from(imm) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #imm);
+                        panic!("'CALL ({})' out of range.", imm);
                     }
                 }
             }
diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 98decfc..4dcd4d4 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -457,7 +457,7 @@ impl ToTokens for Disp {
                 Disp::from_disp(#disp)
             ),
             Disp::Expr(ts) => quote!(
-                Disp::from_disp(#ts)
+                Disp::from_disp(i32::try_from(#ts).expect("displacement should be 32 bit."))
             ),
             Disp::Label(label) => quote!(
                 Disp::from_label(#label)
@@ -484,7 +484,7 @@ impl Parse for Disp {
             let content;
             syn::parenthesized!(content in input);
             let expr = content.parse::<Expr>()?;
-            let expr = quote!(#expr as i32);
+            let expr = quote!((#expr) as i64);
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-- 
2.43.0


From 7ec6f4373812a8e48ab2bd2ff9cbe71a60180015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 07/12] fix: evaluate operand expressions once

movq/testq/testb reg, imm and xchgq reg, reg repeated the register
expression in the generated code.
---
 monoasm_macro/src/asm.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 8ba86c5..ee4519a 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -33,16 +33,18 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
                 (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
+                    let r1 = #r1;
+                    let r2 = #r2;
+                    if r1 == Reg::from(0) {
+                        if r2 == Reg::from(0) {
                             jit.emitb(0x90);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_o(0x90, r2);
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
+                    } else if r2 == Reg::from(0) {
+                        jit.enc_rexw_o(0x90, r1);
                     } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
+                        jit.enc_rexw_mr(&[0x87], r2, Rm::reg(r1));
                     }
                 },
                 (op1, RmOperand::Reg(op2)) => quote! {
@@ -62,15 +64,16 @@ pub fn compile(inst: Inst) -> TokenStream {
             RiOperand::Imm(i) => {
                 let op1_str = format!("{}", op1);
                 match &op1 {
-                    RmOperand::Reg(reg) => {
+                    RmOperand::Reg(_) => {
                         quote! {
                             let imm = (#i) as i64;
+                            let rm_op = #op1;
                             if let Ok(imm) = i32::try_from(imm)  {
-                                if #reg.is_rax() {
+                                if rm_op.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, rm_op, Imm::L(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -95,15 +98,16 @@ pub fn compile(inst: Inst) -> TokenStream {
             RiOperand::Imm(i) => {
                 let op1_str = format!("{}", op1);
                 match &op1 {
-                    RmOperand::Reg(reg) => {
+                    RmOperand::Reg(_) => {
                         quote! {
                             let imm = (#i) as i64;
+                            let rm_op = #op1;
                             if let Ok(imm) = i8::try_from(imm)  {
-                                if #reg.is_rax() {
+                                if rm_op.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, rm_op, Imm::B(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -373,7 +377,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
                     jit.emitq(imm as u64);
@@ -381,7 +384,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             } else {
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
@@ -793,7 +795,7 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
                 if let Ok(imm) = i8::try_from(imm) {
                     jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
                 } else {
-                    panic!("{} is out of 8bit.", #i);
+                    panic!("{} is out of 8bit.", imm);
                 }
             }
         }
-- 
2.43.0


From fde216cbf8e8abff5bb7acdb8ac8e171be24d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:00 +0000
Subject: [PATCH 08/12] fix: variables of generated code must not capture the
 caller's

'movq rax, (1); addq rax, (imm)' read the macro's own 'imm' (or 'jit',
'op1', ..) instead of the caller's variable.
---
 monoasm_macro/src/asm.rs | 9 +++++++--
 monoasm_macro/src/lib.rs | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index ee4519a..5e732ce 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,6 +1,11 @@
 use super::inst::*;
-use proc_macro2::TokenStream;
-use quote::quote;
+use proc_macro2::{Span, TokenStream};
+use quote::quote_spanned;
+
+/// Variables of the generated code must not capture those of the caller's expressions.
+macro_rules! quote {
+    ($($tt:tt)*) => { quote_spanned!(Span::mixed_site() => $($tt)*) };
+}
 
 pub fn compile(inst: Inst) -> TokenStream {
     match inst {
diff --git a/monoasm_macro/src/lib.rs b/monoasm_macro/src/lib.rs
index 6f4b08d..cbf1420 100644
--- a/monoasm_macro/src/lib.rs
+++ b/monoasm_macro/src/lib.rs
@@ -6,7 +6,7 @@ extern crate proc_macro;
 extern crate quote;
 extern crate syn;
 use proc_macro::TokenStream;
-use quote::quote;
+use quote::quote_spanned;
 use syn::parse_macro_input;
 mod asm;
 mod inst;
@@ -23,7 +23,8 @@ use asm::*;
 pub fn monoasm(tokens: TokenStream) -> TokenStream {
     let stmts = parse_macro_input!(tokens as inst::Stmts);
     let base = stmts.base;
-    let mut ts = quote!(let mut jit = #base;);
+    let span = proc_macro2::Span::mixed_site();
+    let mut ts = quote_spanned!(span => let mut jit = #base;);
     ts.extend(stmts.contents.into_iter().map(compile));
-    quote!({ #ts }).into()
+    quote_spanned!(span => { #ts }).into()
 }
-- 
2.43.0


From f4a66ef36ddd431b66d79fb5d65eabe203f929f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 09/12] fix: xchgl, xchgw and xchgb

The README lists them and they are parsed, but they panicked.
---
 monoasm_macro/src/asm.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 5e732ce..b139051 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -62,7 +62,21 @@ pub fn compile(inst: Inst) -> TokenStream {
                     panic!("'Xchg {op1}, {op2}' does not exists.")
                 }
             },
-            _ => panic!("'Xchg {:?} {op1}, {op2}' does not exists.", size),
+            size => {
+                let (reg, rm) = match (op1, op2) {
+                    (op1, RmOperand::Reg(op2)) => (op2, op1),
+                    (RmOperand::Reg(op1), op2) => (op1, op2),
+                    (op1, op2) => panic!("'Xchg {op1}, {op2}' does not exists."),
+                };
+                match size {
+                    OperandSize::WORD => quote! {
+                        jit.emitb(0x66);
+                        jit.enc_mr(&[0x87], #reg, #rm);
+                    },
+                    OperandSize::BYTE => quote!( jit.enc_mr_byte(&[0x86], #reg, #rm); ),
+                    _ => quote!( jit.enc_mr(&[0x87], #reg, #rm); ),
+                }
+            }
         },
 
         Inst::Testq(op1, op2) => match op2 {
-- 
2.43.0


From 66e32f85672273d48102e6969f41f896bd99d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:09 +0000
Subject: [PATCH 10/12] fix: dq with a float-suffixed literal such as 1f64
 emitted the integer

---
 monoasm_macro/src/inst.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/inst.rs b/monoasm_macro/src/inst.rs
index c25690e..dc94b57 100644
--- a/monoasm_macro/src/inst.rs
+++ b/monoasm_macro/src/inst.rs
@@ -457,9 +457,14 @@ impl Parse for Inst {
                         input.parse::<Token![;]>()?;
                         Ok(Inst::F64(f))
                     } else if input.peek(LitInt) {
-                        let i = input.parse::<LitInt>()?.base10_parse()?;
+                        let lit = input.parse::<LitInt>()?;
                         input.parse::<Token![;]>()?;
-                        Ok(Inst::I64(i))
+                        // e.g. "1f64": a float literal without a fractional part.
+                        if matches!(lit.suffix(), "f32" | "f64") {
+                            Ok(Inst::F64(lit.base10_parse()?))
+                        } else {
+                            Ok(Inst::I64(lit.base10_parse()?))
+                        }
                     } else {
                         Err(input.error("unimplemented literal."))
                     }
-- 
2.43.0


From 44fa29d09f95c0f8eba8ab99f2e56934dca13659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 11/12] fix: literal displacement of -2^31 was refused or
 negated with overflow

---
 monoasm_macro/src/parse.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 4dcd4d4..6d0b963 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -435,7 +435,7 @@ pub fn is_single(input: ParseStream) -> bool {
 ///----------------------------------------------------------------------
 #[derive(Clone, Debug)]
 pub enum Disp {
-    Imm(i32),
+    Imm(i64),
     Expr(TokenStream),
     Label(Ident),
 }
@@ -453,9 +453,10 @@ impl Disp {
 impl ToTokens for Disp {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let ts = match self {
-            Disp::Imm(disp) => quote!(
-                Disp::from_disp(#disp)
-            ),
+            Disp::Imm(disp) => {
+                let disp = i32::try_from(*disp).expect("displacement should be 32 bit.");
+                quote!( Disp::from_disp(#disp) )
+            }
             Disp::Expr(ts) => quote!(
                 Disp::from_disp(i32::try_from(#ts).expect("displacement should be 32 bit."))
             ),
@@ -488,7 +489,7 @@ impl Parse for Disp {
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-            let disp: i32 = input.parse::<LitInt>()?.base10_parse()?;
+            let disp: i64 = input.parse::<LitInt>()?.base10_parse()?;
             Ok(Disp::Imm(disp))
         } else if input.peek(Ident) {
             let label = input.parse::<Ident>().unwrap();
-- 
2.43.0


From cbfd01284eee32295fa2590b513f72ab7e5e0d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 12/12] fix: dq with a negative float literal did not compile

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index b139051..0449728 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -11,7 +11,7 @@ pub fn compile(inst: Inst) -> TokenStream {
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
-            quote!( jit.emit(&#f.to_ne_bytes()); )
+            quote!( jit.emit(&(#f).to_ne_bytes()); )
         }
         Inst::I64(i) => {
             quote!( jit.emitq(#i as u64); )
-- 
2.43.0

