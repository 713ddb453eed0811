From 67936b00148fac90f61c368331a353300bc20b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 01/16] fix: cvttsd2siq converts to the full 64-bit register

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index a7ff5c2..61159e4 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -218,7 +218,7 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Cvttsd2siq(op1, op2) => {
             quote! {
                 jit.emitb(0xf2);
-                jit.enc_mr(&[0x0f, 0x2c], #op1, #op2);
+                jit.enc_rexw_mr(&[0x0f, 0x2c], #op1, #op2);
             }
         }
 
-- 
2.43.0


From 2304b2350567f8be016aff2014e2033eca641441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 02/16] fix: account for the immediate in rip-relative operands
 of roundpd

---
 monoasm/src/jit_memory.rs | 6 ++++++
 monoasm_macro/src/asm.rs  | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index 8cfc567..f263c11 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -629,6 +629,12 @@ impl JitMemory {
         self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, Imm::None);
     }
 
+    /// REX Op ModRM imm
+    /// RMI-> ModRM:reg(r) ModRM:r/m(w) imm
+    pub fn enc_mr_imm(&mut self, op: &[u8], reg: Reg, rm_op: Rm, imm: Imm) {
+        self.encode(op, Rex::None, ModRM::Reg(reg), rm_op, imm);
+    }
+
     pub fn enc_mr_byte(&mut self, op: &[u8], reg: Reg, rm_op: Rm) {
         self.encode(op, Rex::Byte, ModRM::Reg(reg), rm_op, Imm::None);
     }
diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 61159e4..2816969 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -239,8 +239,8 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Roundpd(Xmm(op1), op2, ImmOperand(op3)) => {
             quote! {
                 jit.emitb(0x66);
-                jit.enc_mr(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2);
-                jit.emitb(#op3);
+                let imm: u8 = #op3;
+                jit.enc_mr_imm(&[0x0f, 0x3a, 0x09], Reg::from(#op1), #op2, Imm::B(imm as i8));
             }
         }
 
-- 
2.43.0


From 867926872a2f1a04033a4d45b1273f8fda6bf077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 03/16] fix: JitMemory::include does not depend on the selected
 page

---
 monoasm/src/jit_memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoasm/src/jit_memory.rs b/monoasm/src/jit_memory.rs
index f263c11..77eb063 100644
--- a/monoasm/src/jit_memory.rs
+++ b/monoasm/src/jit_memory.rs
@@ -272,7 +272,8 @@ impl JitMemory {
     }
 
     pub fn include(&self, ptr: *mut u8) -> bool {
-        self.contents() <= ptr && ptr < unsafe { self.contents().add(PAGE_SIZE * 2) }
+        let top = self.pages[0].contents();
+        top <= ptr && ptr < unsafe { top.add(PAGE_SIZE * 2) }
     }
 
     /// Resolve all relocations and return the top addresss of generated machine code as a function pointer.
-- 
2.43.0


From 83b5f2a036e65d660ae75bf202bfe37772c5b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 04/16] fix: reject register numbers outside the register file

---
 monoasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index f36aeab..92df8a7 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -47,6 +47,7 @@ pub struct Reg(u8);
 
 impl Reg {
     pub fn from(num: u64) -> Self {
+        assert!(num <= 16, "Illegal register number. {}", num);
         Reg(num as u8)
     }
 
-- 
2.43.0


From c9b3a522fcbb77d2f99bdbde4e29bcbe12134988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 05/16] fix: reject rsp as an index register

---
 monoasm/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index 92df8a7..b34b181 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -227,6 +227,9 @@ impl Rm {
     }
 
     pub fn ind(base: Reg, disp: Disp, scale: Scale) -> Self {
+        if let Scale::S1(_, index) = scale {
+            assert!(index.0 != 4, "rsp can not be used as an index register.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
-- 
2.43.0


From 7dbb17d3fdf8fe7087270cf6d84868e4c8d258ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 06/16] fix: displacement expressions keep their operators and
 are not truncated to 32 bit

---
 monoasm_macro/src/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 073c872..169cd5c 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -457,7 +457,7 @@ impl ToTokens for Disp {
                 Disp::from_disp(#disp)
             ),
             Disp::Expr(ts) => quote!(
-                Disp::from_disp(#ts)
+                Disp::from_disp(i32::try_from(#ts).expect("displacement should be 32 bit."))
             ),
             Disp::Label(label) => quote!(
                 Disp::from_label(#label)
@@ -484,7 +484,7 @@ impl Parse for Disp {
             let content;
             syn::parenthesized!(content in input);
             let expr = content.parse::<Expr>()?;
-            let expr = quote!(#expr as i32);
+            let expr = quote!((#expr) as i64);
             Ok(Disp::Expr(expr))
         } else if input.peek(LitInt) {
             // e.g. "[rax + 4]"
-- 
2.43.0


From 8d9962418428a3a6e48ed464a4d28ae85244a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 07/16] fix: keep operators in the offset expression of call

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 2816969..8f3abc2 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -286,7 +286,7 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from(#imm as i64) {
+                    if let Ok(imm) = i32::try_from((#imm) as i64) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
                     } else {
-- 
2.43.0


From ac4f382e747bc11a2f6b04b9ef60fb784c1f1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 08/16] fix: reject subtraction of a label in memory operands

---
 monoasm_macro/src/parse.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 169cd5c..7268825 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -275,7 +275,7 @@ impl Parse for IndAddr {
                 Ok(IndAddr {
                     base,
                     scale: Scale::None,
-                    disp: disp.neg(),
+                    disp: disp.neg()?,
                 })
             } else if content.peek(Ident) {
                 let ident = content.parse::<Ident>().unwrap();
@@ -301,7 +301,7 @@ impl Parse for IndAddr {
                             };
                             let disp = content.parse::<Disp>()?;
                             if negate {
-                                disp.neg()
+                                disp.neg()?
                             } else {
                                 disp
                             }
@@ -441,11 +441,11 @@ pub enum Disp {
 }
 
 impl Disp {
-    fn neg(self) -> Self {
+    fn neg(self) -> Result<Self, Error> {
         match self {
-            Disp::Imm(disp) => Disp::Imm(-disp),
-            Disp::Expr(ts) => Disp::Expr(quote!(-(#ts))),
-            disp => disp,
+            Disp::Imm(disp) => Ok(Disp::Imm(-disp)),
+            Disp::Expr(ts) => Ok(Disp::Expr(quote!(-(#ts)))),
+            Disp::Label(label) => Err(Error::new(label.span(), "label can not be subtracted.")),
         }
     }
 }
-- 
2.43.0


From 285856fefcb51097f042ac81439eee287a6659ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:13 +0000
Subject: [PATCH 09/16] fix: reject label displacements relative to a register
 other than rip

---
 monoasm/src/lib.rs         |  3 +++
 monoasm_macro/src/parse.rs | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/monoasm/src/lib.rs b/monoasm/src/lib.rs
index b34b181..5d545ea 100644
--- a/monoasm/src/lib.rs
+++ b/monoasm/src/lib.rs
@@ -230,6 +230,9 @@ impl Rm {
         if let Scale::S1(_, index) = scale {
             assert!(index.0 != 4, "rsp can not be used as an index register.");
         }
+        if let Disp::Label(_) = disp {
+            assert!(base.is_rip(), "label is only allowed with rip.");
+        }
         let mode = Mode::Ind(scale, disp);
         Self { base, mode }
     }
diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 7268825..6923315 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -260,6 +260,22 @@ impl IndAddr {
 
 impl Parse for IndAddr {
     fn parse(input: ParseStream) -> Result<Self, Error> {
+        let ind = Self::parse_ind(input)?;
+        match (&ind.disp, &ind.base, &ind.scale) {
+            (Disp::Label(label), Register::Reg(base), _) if *base != Reg::RIP as u8 => Err(
+                Error::new(label.span(), "label is only allowed with rip."),
+            ),
+            (Disp::Label(label), _, Scale::S1(..)) => Err(Error::new(
+                label.span(),
+                "label is not allowed with scaled index.",
+            )),
+            _ => Ok(ind),
+        }
+    }
+}
+
+impl IndAddr {
+    fn parse_ind(input: ParseStream) -> Result<Self, Error> {
         let content;
         syn::bracketed!(content in input);
         let base = content.parse::<Register>()?;
-- 
2.43.0


From 6268d303821cc3d32929a2ab5e7a65c93b916115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 10/16] fix: evaluate operand expressions only once

---
 monoasm_macro/src/asm.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 8f3abc2..ebcf3f8 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -33,16 +33,18 @@ pub fn compile(inst: Inst) -> TokenStream {
         Inst::Xchg(size, op1, op2) => match size {
             OperandSize::QWORD => match (&op1, &op2) {
                 (RmOperand::Reg(r1), RmOperand::Reg(r2)) => quote! {
-                    if #r1 == Reg::from(0) {
-                        if #r2 == Reg::from(0) {
+                    let op1 = #r1;
+                    let op2 = #r2;
+                    if op1 == Reg::from(0) {
+                        if op2 == Reg::from(0) {
                             jit.emitb(0x90);
                         } else {
-                            jit.enc_rexw_o(0x90, #r2);
+                            jit.enc_rexw_o(0x90, op2);
                         }
-                    } else if #r2 == Reg::from(0) {
-                        jit.enc_rexw_o(0x90, #r1);
+                    } else if op2 == Reg::from(0) {
+                        jit.enc_rexw_o(0x90, op1);
                     } else {
-                        jit.enc_rexw_mr(&[0x87], #r2, #op1);
+                        jit.enc_rexw_mr(&[0x87], op2, Rm::reg(op1));
                     }
                 },
                 (op1, RmOperand::Reg(op2)) => quote! {
@@ -66,11 +68,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i32::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let op1 = #reg;
+                                if op1.is_rax() {
                                     jit.emit(&[0x48, 0xa9]);
                                     jit.emitl(imm as u32);
                                 } else {
-                                    jit.enc_rexw_mi(0xf7, #op1, Imm::L(imm));
+                                    jit.enc_rexw_mi(0xf7, Rm::reg(op1), Imm::L(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -99,11 +102,12 @@ pub fn compile(inst: Inst) -> TokenStream {
                         quote! {
                             let imm = (#i) as i64;
                             if let Ok(imm) = i8::try_from(imm)  {
-                                if #reg.is_rax() {
+                                let op1 = #reg;
+                                if op1.is_rax() {
                                     jit.emit(&[0xa8]);
                                     jit.emitb(imm as u8);
                                 } else {
-                                    jit.enc_mi_byte(0xf6, #op1, Imm::B(imm));
+                                    jit.enc_mi_byte(0xf6, Rm::reg(op1), Imm::B(imm));
                                 }
                             } else {
                                 panic!("'TEST {}, imm64' does not exists.", #op1_str);
@@ -286,11 +290,12 @@ pub fn compile(inst: Inst) -> TokenStream {
             }
             Dest::Disp(imm) => {
                 quote! {
-                    if let Ok(imm) = i32::try_from((#imm) as i64) {
+                    let imm = (#imm) as i64;
+                    if let Ok(imm) = i32::try_from(imm) {
                         jit.emitb(0xe8);
                         jit.emitl(imm as u32);
                     } else {
-                        panic!("'CALL ({})' out of range.", #imm);
+                        panic!("'CALL ({})' out of range.", imm);
                     }
                 }
             }
@@ -372,7 +377,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
                 assert_eq!(OperandSize::QWORD, size);
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     // MOV r64, imm64
                     jit.enc_rexw_o(0xb8, #expr);
                     jit.emitq(imm as u64);
@@ -380,7 +384,6 @@ fn movq(op1: MovOperand, op2: MovOperand) -> TokenStream {
             } else {
                 quote!(
                     let imm = (#i) as i64;
-                    let rm_op = Rm::reg(#expr);
                     //if let Ok(imm) = i32::try_from(imm) {
                     //    // MOV r/m64, imm32
                     //    jit.enc_rexw_mi(0xc7, rm_op, Imm::L(imm));
@@ -792,7 +795,7 @@ fn binary_opb(op_name: &str, op_mr: u8, digit: u8, op1: RmOperand, op2: RmiOpera
                 if let Ok(imm) = i8::try_from(imm) {
                     jit.enc_digit_imm_byte(&[0x80], #op_al, #op1, #digit, Imm::B(imm));
                 } else {
-                    panic!("{} is out of 8bit.", #i);
+                    panic!("{} is out of 8bit.", imm);
                 }
             }
         }
-- 
2.43.0


From 3e16cf79ab0ead39825758e2d6b3de1fbb3407f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 11/16] fix: hygiene of the local variables in generated code

---
 monoasm_macro/src/asm.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index ebcf3f8..1b3f135 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -1,8 +1,33 @@
 use super::inst::*;
-use proc_macro2::TokenStream;
-use quote::quote;
+use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
+
+/// Local variables introduced by generated code are invisible to the Rust expressions in operands.
+macro_rules! quote {
+    ($($tt:tt)*) => { quote::quote_spanned!(Span::mixed_site() => $($tt)*) };
+}
 
 pub fn compile(inst: Inst) -> TokenStream {
+    expose_jit(compile_inst(inst))
+}
+
+/// `jit` is defined by the caller of `compile()` and is visible to the expressions.
+fn expose_jit(ts: TokenStream) -> TokenStream {
+    ts.into_iter()
+        .map(|tt| match tt {
+            TokenTree::Ident(ident) if ident == "jit" => {
+                TokenTree::Ident(Ident::new("jit", Span::call_site()))
+            }
+            TokenTree::Group(group) => {
+                let mut new = Group::new(group.delimiter(), expose_jit(group.stream()));
+                new.set_span(group.span());
+                TokenTree::Group(new)
+            }
+            tt => tt,
+        })
+        .collect()
+}
+
+fn compile_inst(inst: Inst) -> TokenStream {
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
-- 
2.43.0


From 812c2d517c89d68a636df33d114714ca43d17d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:03 +0000
Subject: [PATCH 12/16] fix: parenthesised xmm numbers and roundpd modes must
 be one expression

Trailing tokens after the expression, e.g. `xmm(3,)` or `(3; 4)`, were accepted silently.
---
 monoasm_macro/src/inst.rs  | 12 ++++++++----
 monoasm_macro/src/parse.rs |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/monoasm_macro/src/inst.rs b/monoasm_macro/src/inst.rs
index c25690e..70849e1 100644
--- a/monoasm_macro/src/inst.rs
+++ b/monoasm_macro/src/inst.rs
@@ -694,8 +694,10 @@ impl Parse for ImmOperand {
             Ok(ImmOperand::new(imm))
         } else if input.peek(token::Paren) {
             // e.g. "(42)"
-            let gr = input.parse::<Group>()?;
-            Ok(ImmOperand(gr.stream()))
+            let content;
+            syn::parenthesized!(content in input);
+            let expr = content.parse::<Expr>()?;
+            Ok(ImmOperand(quote!(#expr)))
         } else {
             Err(input.error("Expected integer literal or Rust expression with parenthesis."))
         }
@@ -731,8 +733,10 @@ fn parse_xmm(input: ParseStream, ident: &String) -> Result<TokenStream, Error> {
     assert!(ident.starts_with("xmm"));
     if ident.len() == 3 {
         if input.peek(token::Paren) {
-            let gr = input.parse::<Group>()?;
-            Ok(gr.stream())
+            let content;
+            syn::parenthesized!(content in input);
+            let expr = content.parse::<Expr>()?;
+            Ok(quote!(#expr))
         } else {
             Err(input.error(format!(
                 "Expected xmm register number. e.g. xmm0 or xmm(0) actual:{}",
diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index 6923315..deea739 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -192,8 +192,10 @@ fn parse_xmm(input: ParseStream, ident: &String) -> Result<TokenStream, Error> {
     assert!(ident.starts_with("xmm"));
     if ident.len() == 3 {
         if input.peek(token::Paren) {
-            let gr = input.parse::<Group>()?;
-            Ok(gr.stream())
+            let content;
+            syn::parenthesized!(content in input);
+            let expr = content.parse::<Expr>()?;
+            Ok(quote!(#expr))
         } else {
             Err(input.error(format!(
                 "Expected xmm register number. e.g. xmm0 or xmm(0) actual:{}",
-- 
2.43.0


From 52ccf341bda45314bab77e130b1ae11964dcd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 13/16] fix: negative floating point literals in dq

---
 monoasm_macro/src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index 1b3f135..b3a055b 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -31,7 +31,7 @@ fn compile_inst(inst: Inst) -> TokenStream {
     match inst {
         Inst::Label(ident) => quote!( jit.bind_label(#ident); ),
         Inst::F64(f) => {
-            quote!( jit.emit(&#f.to_ne_bytes()); )
+            quote!( jit.emit(&(#f).to_ne_bytes()); )
         }
         Inst::I64(i) => {
             quote!( jit.emitq(#i as u64); )
-- 
2.43.0


From 7fe45605891fc310c10c8194d2d26e2f6c0b0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 14/16] fix: a float by its type suffix in dq is a float

---
 monoasm_macro/src/inst.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/monoasm_macro/src/inst.rs b/monoasm_macro/src/inst.rs
index 70849e1..94e06de 100644
--- a/monoasm_macro/src/inst.rs
+++ b/monoasm_macro/src/inst.rs
@@ -457,9 +457,14 @@ impl Parse for Inst {
                         input.parse::<Token![;]>()?;
                         Ok(Inst::F64(f))
                     } else if input.peek(LitInt) {
-                        let i = input.parse::<LitInt>()?.base10_parse()?;
+                        let lit = input.parse::<LitInt>()?;
                         input.parse::<Token![;]>()?;
-                        Ok(Inst::I64(i))
+                        if matches!(lit.suffix(), "f32" | "f64") {
+                            // e.g. "5f64"
+                            Ok(Inst::F64(lit.base10_parse()?))
+                        } else {
+                            Ok(Inst::I64(lit.base10_parse()?))
+                        }
                     } else {
                         Err(input.error("unimplemented literal."))
                     }
-- 
2.43.0


From 2eff91139ff5c7939396722daa1e13dfd5670f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 15/16] fix: reject a displacement that overflows when negated

---
 monoasm_macro/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/monoasm_macro/src/parse.rs b/monoasm_macro/src/parse.rs
index deea739..b5bc537 100644
--- a/monoasm_macro/src/parse.rs
+++ b/monoasm_macro/src/parse.rs
@@ -1,5 +1,6 @@
 use proc_macro2::Group;
 use proc_macro2::Punct;
+use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use syn::parse::ParseBuffer;
@@ -461,7 +462,13 @@ pub enum Disp {
 impl Disp {
     fn neg(self) -> Result<Self, Error> {
         match self {
-            Disp::Imm(disp) => Ok(Disp::Imm(-disp)),
+            Disp::Imm(disp) => match disp.checked_neg() {
+                Some(disp) => Ok(Disp::Imm(disp)),
+                None => Err(Error::new(
+                    Span::call_site(),
+                    "displacement should be 32 bit.",
+                )),
+            },
             Disp::Expr(ts) => Ok(Disp::Expr(quote!(-(#ts)))),
             Disp::Label(label) => Err(Error::new(label.span(), "label can not be subtracted.")),
         }
-- 
2.43.0


From a9e18d194e6a943611e20c3881acc3477f325b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:39 +0000
Subject: [PATCH 16/16] fix: assemble the documented xchgl, xchgw and xchgb

---
 monoasm_macro/src/asm.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/monoasm_macro/src/asm.rs b/monoasm_macro/src/asm.rs
index b3a055b..2324d9d 100644
--- a/monoasm_macro/src/asm.rs
+++ b/monoasm_macro/src/asm.rs
@@ -82,7 +82,27 @@ fn compile_inst(inst: Inst) -> TokenStream {
                     panic!("'Xchg {op1}, {op2}' does not exists.")
                 }
             },
-            _ => panic!("'Xchg {:?} {op1}, {op2}' does not exists.", size),
+            size => {
+                let (reg, rm) = match (&op1, &op2) {
+                    (op1, RmOperand::Reg(op2)) => (op2, op1),
+                    (RmOperand::Reg(op1), op2) => (op1, op2),
+                    (op1, op2) => panic!("'Xchg {:?} {op1}, {op2}' does not exists.", size),
+                };
+                match size {
+                    // XCHG r/m8, r8
+                    // 86 /r
+                    OperandSize::BYTE => quote!( jit.enc_mr_byte(&[0x86], #reg, #rm); ),
+                    // XCHG r/m16, r16
+                    // 66 87 /r
+                    OperandSize::WORD => quote! {
+                        jit.emitb(0x66);
+                        jit.enc_mr(&[0x87], #reg, #rm);
+                    },
+                    // XCHG r/m32, r32
+                    // 87 /r
+                    _ => quote!( jit.enc_mr(&[0x87], #reg, #rm); ),
+                }
+            }
         },
 
         Inst::Testq(op1, op2) => match op2 {
-- 
2.43.0

