From adfe8041a9f9566db077d7c964df66e6bf6de857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 01/39] fix: two-digit hex escapes in string literals read the
 wrong digits (panic or wrong bytes)

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..d958339 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -213,7 +213,6 @@ impl Token {
                         i += 1;
                         if input[i].is_ascii_hexdigit() {
                             if i < input.len() - 1 && input[i + 1].is_ascii_hexdigit() {
-                                i += 1;
                                 out.push(
                                     u8::from_str_radix(
                                         std::str::from_utf8(&input[i..i + 2]).unwrap(),
@@ -221,6 +220,7 @@ impl Token {
                                     )
                                     .unwrap(),
                                 );
+                                i += 1;
                             } else {
                                 out.push(
                                     u8::from_str_radix(
-- 
2.43.0


From 02371eb0ea33f4aa9cf70d5a78c1922a9018f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 02/39] fix: computed fields that use a byte-length field or
 sit in an optional region could not be encoded

The encoder evaluated every computed field of a type up front, including those
that need a byte length only known later (compiler panic) and those inside
optional regions. Evaluate them when what they need is known, and keep the
order of blen targets deterministic.
---
 protospec-build/src/coder/encode/container.rs | 168 +++++++++++++-----
 protospec-build/src/coder/encode/mod.rs       |   3 +
 2 files changed, 128 insertions(+), 43 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..e8afc6f 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::{Cell, RefCell},
-    collections::{HashMap, HashSet},
+    collections::HashMap,
 };
 
 use crate::Span;
@@ -55,22 +55,59 @@ impl Context {
         }
     }
 
+    /// Evaluates the computed fields of `container` itself as far as possible.
+    /// Those that depend on a byte length are evaluated once it is known, those of interior containers upon reaching them.
     fn encode_container_calculated(&mut self, container: &ContainerType) {
-        for (name, field) in container.flatten_view() {
-            let calculated = field.calculated.borrow();
-            if let Some(calculated) = &*calculated {
-                if !calculated.blen_calls().is_empty() {
-                    continue;
+        let mut remaining: Vec<&Arc<Field>> = container
+            .items
+            .values()
+            .filter(|field| field.calculated.borrow().is_some())
+            .collect();
+        for field in &remaining {
+            self.unresolved_calculated.insert(field.name.clone());
+        }
+        loop {
+            let before = remaining.len();
+            remaining.retain(|field| {
+                let calculated = field.calculated.borrow();
+                let calculated = calculated.as_ref().unwrap();
+                if !calculated.blen_calls().is_empty() || !self.is_resolved(calculated) {
+                    return true;
                 }
-                let calculated_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(calculated_register, calculated.clone()));
-                self.instructions
-                    .push(Instruction::SetRef(name, calculated_register));
+                self.eval_calculated(field, calculated);
+                false
+            });
+            if remaining.len() == before {
+                break;
             }
         }
     }
 
+    fn is_resolved(&self, calculated: &Expression) -> bool {
+        calculated
+            .blen_calls()
+            .iter()
+            .all(|x| self.resolved_autos.contains_key(x))
+            && !calculated
+                .field_refs()
+                .iter()
+                .any(|x| self.unresolved_calculated.contains(x))
+    }
+
+    fn eval_calculated(&mut self, field: &Arc<Field>, calculated: &Expression) -> usize {
+        let blens = calculated.blen_calls();
+        if !blens.is_empty() {
+            return self.eval_blen_expr(&blens[..], field, calculated);
+        }
+        let register = self.alloc_register();
+        self.instructions
+            .push(Instruction::Eval(register, calculated.clone()));
+        self.instructions
+            .push(Instruction::SetRef(field.name.clone(), register));
+        self.unresolved_calculated.remove(&field.name);
+        register
+    }
+
     fn eval_blen_expr(
         &mut self,
         blens: &[String],
@@ -93,6 +130,7 @@ impl Context {
             .push(Instruction::Eval(calculated_register, calculated));
         self.instructions
             .push(Instruction::SetRef(field.name.clone(), calculated_register));
+        self.unresolved_calculated.remove(&field.name);
         calculated_register
     }
 
@@ -107,17 +145,14 @@ impl Context {
         for (name, child) in container.items.iter() {
             let calculated = child.calculated.borrow();
             if let Some(calculated) = &*calculated {
-                let blen_calls = calculated.blen_calls();
-                if !blen_calls.is_empty() {
-                    let mut all_resolved = true;
-                    for target in &blen_calls {
-                        if !self.resolved_autos.contains_key(target) {
-                            all_resolved = false;
-                            self.pending_autos.insert(target.clone());
+                if self.unresolved_calculated.contains(name) {
+                    for target in calculated.blen_calls() {
+                        if !self.resolved_autos.contains_key(&target) {
+                            self.pending_autos.insert(target);
                         }
                     }
-                    if all_resolved {
-                        self.eval_blen_expr(&blen_calls[..], child, calculated);
+                    if self.is_resolved(calculated) {
+                        self.eval_calculated(child, calculated);
                     } else {
                         let new_target = self.alloc_register();
                         self.instructions.push(Instruction::AllocDynBuf(new_target));
@@ -139,27 +174,24 @@ impl Context {
                 self.encode_field(real_target, resolved, child, conditional);
             }
 
-            for (i, (auto_target, auto_field)) in auto_targets.clone().into_iter().enumerate().rev()
-            {
+            loop {
+                let resolved = auto_targets.iter().rposition(|(_, auto_field): &(_, &Arc<Field>)| {
+                    self.is_resolved(auto_field.calculated.borrow().as_ref().unwrap())
+                });
+                let (i, (auto_target, auto_field)) = match resolved {
+                    Some(i) => (i, auto_targets.remove(i)),
+                    None => break,
+                };
                 let calculated = auto_field.calculated.borrow();
-                let calculated = calculated.as_ref().unwrap();
-                let blen_calls = calculated.blen_calls();
-                if blen_calls
-                    .iter()
-                    .all(|x| self.resolved_autos.get(x).is_some())
-                {
-                    let calculated_register =
-                        self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
-
-                    auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
-                        .map(|(target, _)| Target::Buf(*target))
-                        .unwrap_or(buf_target);
-                    self.encode_field(target, calculated_register, auto_field, conditional);
-                    self.instructions
-                        .push(Instruction::EmitBuf(target, auto_target));
-                }
+                let calculated_register =
+                    self.eval_calculated(auto_field, calculated.as_ref().unwrap());
+                let target = match i.checked_sub(1) {
+                    Some(i) => Target::Buf(auto_targets[i].0),
+                    None => buf_target,
+                };
+                self.encode_field(target, calculated_register, auto_field, conditional);
+                self.instructions
+                    .push(Instruction::EmitBuf(target, auto_target));
             }
         }
         for (_, auto_field) in auto_targets {
@@ -225,8 +257,15 @@ impl Context {
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
+                        let computed: Vec<String> = type_
+                            .flatten_view()
+                            .filter(|(_, field)| field.calculated.borrow().is_some())
+                            .map(|(name, _)| name)
+                            .collect();
                         for (name, register, _) in unwrapped {
-                            self.instructions.push(Instruction::SetRef(name, register));
+                            if !computed.contains(&name) {
+                                self.instructions.push(Instruction::SetRef(name, register));
+                            }
                         }
                         self.encode_container_calculated(type_);
                         self.encode_container_items(type_, buf_target, source, false);
@@ -260,6 +299,7 @@ impl Context {
                 self.encode_container_calculated(type_);
             } else {
                 self.nullcheck_container_refs(type_, conditional);
+                self.encode_container_calculated(type_);
             }
             self.encode_container_items(type_, buf_target, source, conditional);
         }
@@ -341,12 +381,54 @@ impl Expression {
     }
 
     fn blen_calls(&self) -> Vec<String> {
-        let mut out = HashSet::new();
+        let mut out = IndexSet::new();
         self.extract_magic_blen_calls(&mut out);
         out.into_iter().collect()
     }
 
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
+    fn field_refs(&self) -> IndexSet<String> {
+        let mut out = IndexSet::new();
+        self.extract_field_refs(&mut out);
+        out
+    }
+
+    fn extract_field_refs(&self, output: &mut IndexSet<String>) {
+        match self {
+            Expression::Binary(expr) => {
+                expr.left.extract_field_refs(output);
+                expr.right.extract_field_refs(output);
+            }
+            Expression::Unary(expr) => expr.inner.extract_field_refs(output),
+            Expression::Cast(expr) => expr.inner.extract_field_refs(output),
+            Expression::ArrayIndex(expr) => {
+                expr.array.extract_field_refs(output);
+                expr.index.extract_field_refs(output);
+            }
+            Expression::Ternary(expr) => {
+                expr.condition.extract_field_refs(output);
+                expr.if_true.extract_field_refs(output);
+                expr.if_false.extract_field_refs(output);
+            }
+            Expression::FieldRef(field) => {
+                output.insert(field.name.clone());
+            }
+            Expression::Call(expr) if expr.function.name == "blen" => (),
+            Expression::Call(expr) => {
+                for expr in &expr.arguments {
+                    expr.extract_field_refs(output);
+                }
+            }
+            Expression::Member(expr) => expr.target.extract_field_refs(output),
+            Expression::EnumAccess(_)
+            | Expression::Int(_)
+            | Expression::ConstRef(_)
+            | Expression::InputRef(_)
+            | Expression::Str(_)
+            | Expression::Bool(_) => (),
+        }
+    }
+
+    fn extract_magic_blen_calls(&self, output: &mut IndexSet<String>) {
         match self {
             Expression::Binary(expr) => {
                 expr.left.extract_magic_blen_calls(output);
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index c0a2268..14d49a0 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -27,6 +27,8 @@ pub struct Context {
     pub resolved_autos: IndexMap<String, usize>,
     // set of pending field name
     pub pending_autos: IndexSet<String>,
+    // set of computed field names in scope whose value is not known yet
+    pub unresolved_calculated: IndexSet<String>,
 }
 
 impl Context {
@@ -44,6 +46,7 @@ impl Context {
             register_count: 0,
             resolved_autos: IndexMap::new(),
             pending_autos: IndexSet::new(),
+            unresolved_calculated: IndexSet::new(),
         }
     }
 
-- 
2.43.0


From d1100306e9d94709ea5bc70e6d36cb40cb3f243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 03/39] fix: streams were moved into transforms and limits, and
 transforms not ended

Wrapping the direct reader or writer moved it, so any field after a transformed
or length-limited one failed to compile; conditional transforms lost BufRead and
produced an invalid type in async code. Encoding transforms were only flushed:
add encoding_end_gen so that gzip and base64 write their trailers with errors
reported instead of ignored on drop.
---
 protospec-build/src/coder/encode/field.rs     |  9 +--
 .../src/coder/encode/instruction.rs           |  9 ++-
 protospec-build/src/compiler/decoder.rs       | 64 ++++++++++-------
 protospec-build/src/compiler/encoder.rs       | 69 ++++++++++++++-----
 protospec-build/src/ffi/transform.rs          | 12 +++-
 protospec-build/src/prelude/base64.rs         |  6 ++
 protospec-build/src/prelude/gzip.rs           | 16 +++++
 7 files changed, 133 insertions(+), 52 deletions(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..0175a7d 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -86,7 +86,7 @@ impl Context {
             }
             let new_stream = self.alloc_register();
             let new_owned_stream = condition.map(|_| self.alloc_register());
-            new_streams.push((new_stream, new_owned_stream));
+            new_streams.push((new_stream, new_owned_stream, transform.transform.clone()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -147,10 +147,11 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
+        for (stream, owned_stream, transform) in new_streams.into_iter().rev() {
+            self.instructions
+                .push(Instruction::EndStream(stream, owned_stream, transform));
             if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
+                self.instructions.push(Instruction::Drop(owned_stream));
             }
         }
     }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..857f9c4 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -31,8 +31,8 @@ pub enum Instruction {
         Arc<Transform>,
         Vec<usize>,
     ),
-    /// stream
-    EndStream(usize),
+    /// stream, owned stream if conditional, transformer
+    EndStream(usize, Option<usize>, Arc<Transform>),
 
     /// dest, buf handle
     EmitBuf(Target, usize),
@@ -126,7 +126,10 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::EndStream(stream) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, owned_stream, _) => match owned_stream {
+                Some(owned_stream) => write!(f, "EndStream({}, {})", stream, owned_stream),
+                None => write!(f, "EndStream({})", stream),
+            },
             Instruction::EmitBuf(dest, buf_handle) => {
                 write!(f, "EmitBuf({:?}, {})", dest, buf_handle)
             }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..3e35eee 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,26 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+fn stream_trait(is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { (dyn AsyncBufRead + Unpin + Send + Sync) }
+    } else {
+        quote! { dyn BufRead }
+    }
+}
+
+/// Emits a reborrow of a target, for use as the input of another stream.
+/// Returns the binding of the reborrow and the expression to refer to it.
+fn emit_input(target: &Target, new_stream: usize, is_async: bool) -> (TokenStream, TokenStream) {
+    let target = emit_target(target);
+    let trait_name = stream_trait(is_async);
+    let input = format_ident!("r_{}_input", new_stream);
+    (
+        quote! { let mut #input: &mut #trait_name = &mut *#target; },
+        quote! { (&mut #input) },
+    )
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -153,10 +173,11 @@ fn prepare_decode(
                 });
             }
             Instruction::Constrict(stream, new_stream, len) => {
-                let stream = emit_target(stream);
+                let (input, stream) = emit_input(stream, *new_stream, is_async);
                 let new_stream = emit_register(*new_stream);
                 let len = emit_register(*len);
                 statements.push(quote! {
+                    #input
                     let mut #new_stream = #stream.take(#len as u64);
                     let #new_stream = &mut #new_stream;
                 });
@@ -164,9 +185,10 @@ fn prepare_decode(
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let (bind_input, input) = emit_input(stream, *new_stream, is_async);
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
+                    #bind_input
                     let mut #new_stream_value = #transformed;
                     let #new_stream_value = &mut #new_stream_value;
                 })
@@ -182,36 +204,26 @@ fn prepare_decode(
                 let condition = emit_register(*condition);
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let (bind_input, input) = emit_input(stream, *new_stream, is_async);
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
+                let trait_name = stream_trait(is_async);
 
                 //todo: would be nicer to use generics here instead of trait object
-                if is_async {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
-                        };
-                    })
-                } else {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn Read
-                        };
-                    })
-                }
+                statements.push(quote! {
+                    #bind_input
+                    let mut r_xform;
+                    let mut #new_stream_value: &mut #trait_name = if #condition {
+                        #prelude
+                        r_xform = #transformed;
+                        &mut r_xform
+                    } else {
+                        #input
+                    };
+                    let #new_stream_value = &mut #new_stream_value;
+                })
             }
             Instruction::DecodeForeign(target, data, type_ref, args) => {
                 let target = emit_target(target);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..6ad0901 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -7,14 +7,33 @@ use crate::{coder::*, map_async, Endian, EndianScalarType, ScalarType};
 fn emit_target(target: &Target) -> TokenStream {
     match target {
         Target::Direct => quote! { writer },
-        Target::Stream(x) => emit_register(*x),
-        Target::Buf(x) => {
+        Target::Stream(x) | Target::Buf(x) => {
             let buf = emit_register(*x);
             quote! { (&mut #buf) }
         }
     }
 }
 
+fn stream_trait(is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
+    } else {
+        quote! { dyn Write }
+    }
+}
+
+/// Emits a reborrow of a target, for use as the output of another stream.
+/// Returns the binding of the reborrow and the expression to refer to it.
+fn emit_output(target: &Target, new_stream: usize, is_async: bool) -> (TokenStream, TokenStream) {
+    let target = emit_target(target);
+    let trait_name = stream_trait(is_async);
+    let output = format_ident!("r_{}_output", new_stream);
+    (
+        quote! { let mut #output: &mut #trait_name = &mut *#target; },
+        quote! { (&mut #output) },
+    )
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -153,9 +172,10 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
-                    let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
+                    let (bind_output, output) = emit_output(stream, *new_stream, self.is_async);
+                    let transformed = transformer.inner.encoding_gen(output, args, self.is_async);
                     statements.push(quote! {
+                        #bind_output
                         let mut #new_stream_value = #transformed;
                     })
                 }
@@ -175,12 +195,28 @@ impl EncoderContext {
                         self.is_async,
                     ));
                 }
-                Instruction::EndStream(stream) => {
+                Instruction::EndStream(stream, owned_stream, transformer) => {
                     let stream = emit_register(*stream);
-                    statements.push(quote! {
-                        #stream.flush()#async_?;
-                        drop(#stream);
-                    });
+                    if let Some(owned_stream) = owned_stream {
+                        let owned_stream = emit_register(*owned_stream);
+                        let end = transformer
+                            .inner
+                            .encoding_end_gen(quote! { (*end_stream) }, self.is_async);
+                        statements.push(quote! {
+                            #stream.flush()#async_?;
+                            if let Some(end_stream) = #owned_stream.as_mut() {
+                                #end
+                            }
+                        });
+                    } else {
+                        let end = transformer
+                            .inner
+                            .encoding_end_gen(stream.clone(), self.is_async);
+                        statements.push(quote! {
+                            #end
+                            drop(#stream);
+                        });
+                    }
                 }
                 Instruction::EmitBuf(target, buf) => {
                     let target = emit_target(target);
@@ -330,28 +366,25 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let (bind_output, output) = emit_output(stream, *new_stream, self.is_async);
                     let transformed =
                         transformer
                             .inner
-                            .encoding_gen(input.clone(), args, self.is_async);
+                            .encoding_gen(output.clone(), args, self.is_async);
                     let prelude = self.prepare_encode(&prelude[..], false);
 
-                    let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
-                    } else {
-                        quote! { dyn Write }
-                    };
+                    let trait_name = stream_trait(self.is_async);
 
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
+                        #bind_output
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
                         } else {
-                            #input as &mut #trait_name
+                            #output
                         };
                     })
                 }
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index 84dffa6..a133774 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -1,6 +1,7 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
-use crate::FFIArgument;
+use crate::{map_async, FFIArgument};
 
 pub type ForeignTransformObj = Box<dyn ForeignTransform + Send + Sync + 'static>;
 
@@ -19,5 +20,14 @@ pub trait ForeignTransform {
         is_async: bool,
     ) -> TokenStream;
 
+    /// Ends an encoding stream created by `encoding_gen`: writes out what it still holds back, with any error reported.
+    /// `stream` is an expression of that stream's type, usable once by mutable reference.
+    fn encoding_end_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        let async_ = map_async(is_async);
+        quote! {
+            #stream.flush()#async_?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument>;
 }
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 805507c..4627df8 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -33,6 +33,12 @@ impl ForeignTransform for Base64Transform {
         }
     }
 
+    fn encoding_end_gen(&self, stream: TokenStream, _is_async: bool) -> TokenStream {
+        quote! {
+            #stream.finish()?.flush()?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 343a142..57102dd 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -37,6 +37,22 @@ impl ForeignTransform for GzipTransform {
         }
     }
 
+    fn encoding_end_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        if is_async {
+            quote! {
+                #stream.flush().await?;
+            }
+        } else {
+            quote! {
+                {
+                    let stream = &mut #stream;
+                    stream.try_finish()?;
+                    stream.get_mut().flush()?;
+                }
+            }
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
-- 
2.43.0


From aa18252fde87e2f25e0d5ef5cd887a0b704842a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 04/39] fix: expressions with constants, >>>, nested ternaries
 and casts did not compile, and overflow, division by zero or a bad index
 panicked

---
 protospec-build/src/compiler/expr.rs | 74 +++++++++++++++++++++++-----
 protospec-build/src/compiler/mod.rs  |  8 +++
 protospec-build/src/prelude/pad.rs   | 11 +++--
 protospec-build/src/prelude/sum.rs   |  5 +-
 4 files changed, 80 insertions(+), 18 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..3295efd 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -250,6 +250,49 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+fn is_rust_integer(type_: &Type) -> bool {
+    let type_ = match &*type_.resolved() {
+        Type::Scalar(_) => return true,
+        Type::Foreign(foreign) => foreign.obj.type_ref().to_string(),
+        _ => return false,
+    };
+    matches!(
+        &*type_,
+        "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128"
+    )
+}
+
+/// Integer arithmetic on message contents can overflow, which has to fail the operation instead of the process.
+fn emit_checked_arithmetic(
+    expression: &BinaryExpression,
+    left: &TokenStream,
+    right: &TokenStream,
+) -> Option<TokenStream> {
+    let function = match expression.op {
+        BinaryOp::Add => quote! { checked_add },
+        BinaryOp::Sub => quote! { checked_sub },
+        BinaryOp::Mul => quote! { checked_mul },
+        BinaryOp::Div => quote! { checked_div },
+        BinaryOp::Mod => quote! { checked_rem },
+        BinaryOp::Shl => quote! { checked_shl },
+        BinaryOp::Shr | BinaryOp::ShrSigned => quote! { checked_shr },
+        _ => return None,
+    };
+    if !is_rust_integer(&expression.get_type()?) {
+        return None;
+    }
+    let error = quote! { || expression_error("arithmetic overflow in expression") };
+    let right = match expression.op {
+        BinaryOp::Shl | BinaryOp::Shr | BinaryOp::ShrSigned => quote! {
+            <u32 as std::convert::TryFrom<_>>::try_from(#right).ok().ok_or_else(#error)?
+        },
+        _ => right.clone(),
+    };
+    Some(quote! {
+        ((#left).#function(#right).ok_or_else(#error)?)
+    })
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -264,6 +307,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     (#left).unwrap_or(#right)
                 }
             } else {
+                if let Some(checked) = emit_checked_arithmetic(c, &left, &right) {
+                    return checked;
+                }
                 let op = match c.op {
                     BinaryOp::Lt => quote! { < },
                     BinaryOp::Gt => quote! { > },
@@ -278,7 +324,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     BinaryOp::BitXor => quote! { ^ },
                     BinaryOp::Shr => quote! { >> },
                     BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
+                    BinaryOp::ShrSigned => quote! { >> },
                     BinaryOp::Add => quote! { + },
                     BinaryOp::Sub => quote! { - },
                     BinaryOp::Mul => quote! { * },
@@ -300,6 +346,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Unary(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
+            if c.op == UnaryOp::Negate && c.get_type().map_or(false, |x| is_rust_integer(&x)) {
+                return quote! {
+                    ((#inner).checked_neg().ok_or_else(|| expression_error("arithmetic overflow in expression"))?)
+                };
+            }
             let op = match c.op {
                 UnaryOp::Negate => quote! { - },
                 UnaryOp::Not => quote! { ! },
@@ -315,17 +366,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
@@ -335,7 +386,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let index = emit_expression(&c.index, ref_resolver);
 
             quote! {
-                (#array)[#index]
+                (*(#array)
+                    .get((#index) as usize)
+                    .ok_or_else(|| expression_error("array index out of bounds"))?)
             }
         }
         EnumAccess(c) => {
@@ -360,12 +413,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 U128(x) => quote! { #x },
             }
         }
-        ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
-            }
-        }
+        ConstRef(c) => emit_expression(&c.value, ref_resolver),
         InputRef(c) => {
             let c = format_ident!("{}", c.name);
             quote! {
@@ -385,11 +433,11 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..bde8af9 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -101,6 +101,10 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
             fn decode_error<S: AsRef<str>>(value: S) -> anyhow::Error {
                 anyhow::anyhow!("{}", value.as_ref())
             }
+
+            fn expression_error(value: &str) -> anyhow::Error {
+                anyhow::anyhow!("{}", value)
+            }
         }
     } else {
         quote! {
@@ -131,6 +135,10 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
             fn decode_error<S: AsRef<str>>(value: S) -> DecodeError {
                 DecodeError(value.as_ref().to_string())
             }
+
+            fn expression_error(value: &str) -> Box<dyn Error + Send + Sync + 'static> {
+                value.into()
+            }
         }
     };
 
diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..776a17f 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -26,10 +26,13 @@ impl ForeignFunction for PadFunction {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
         return quote! {
-            if #base % #pad == 0 {
-                0
-            } else {
-                (#pad - (#base % #pad))
+            {
+                let (pad, base): (u64, u64) = (#pad, #base);
+                match base.checked_rem(pad) {
+                    Some(0) => 0u64,
+                    Some(excess) => pad - excess,
+                    None => return Err(expression_error("cannot pad to a multiple of zero").into()),
+                }
             }
         };
     }
diff --git a/protospec-build/src/prelude/sum.rs b/protospec-build/src/prelude/sum.rs
index f7c75b9..93c9112 100644
--- a/protospec-build/src/prelude/sum.rs
+++ b/protospec-build/src/prelude/sum.rs
@@ -26,7 +26,10 @@ impl ForeignFunction for SumFunction {
         }
         let input = &arguments[0].value;
         return quote! {
-            (#input.iter().copied().map(|x| x as u64).sum::<u64>() as u64)
+            (#input
+                .iter()
+                .try_fold(0u64, |sum, x| sum.checked_add(*x as u64))
+                .ok_or_else(|| expression_error("arithmetic overflow in sum"))?)
         };
     }
 }
-- 
2.43.0


From ca42d52dc56e9c3073ea425eac8089cf9e48b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 05/39] fix: code generated for arrays of bools or newtypes,
 open-ended arrays, newtypes and the gzip and base64 decoders did not compile

---
 protospec-build/src/asg/types/mod.rs      | 16 +++++++++++-
 protospec-build/src/coder/decode/array.rs |  2 +-
 protospec-build/src/coder/encode/array.rs |  2 +-
 protospec-build/src/compiler/decoder.rs   | 30 ++++++++++++++---------
 protospec-build/src/compiler/encoder.rs   |  7 ++++--
 protospec-build/src/prelude/base64.rs     |  2 +-
 protospec-build/src/prelude/gzip.rs       |  4 +--
 7 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..8949b10 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -152,8 +152,22 @@ impl Type {
         }
     }
 
+    /// resolves references to types that are not represented by a newtype in generated code
+    pub fn resolved_inline(&self) -> Cow<'_, Type> {
+        if let Type::Ref(x) = self {
+            let target = x.target.type_.borrow();
+            if matches!(
+                &*target,
+                Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_)
+            ) {
+                return Cow::Owned(target.clone());
+            }
+        }
+        Cow::Borrowed(self)
+    }
+
     pub fn copyable(&self) -> bool {
-        match &*self.resolved() {
+        match &*self.resolved_inline() {
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
             Type::Scalar(_) => true,
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..dd7a546 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -24,7 +24,7 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.resolved_inline();
             match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..b87fedf 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -37,7 +37,7 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
+            let type_ = type_.element.resolved_inline();
             let primitive_type = match &*type_ {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 3e35eee..18b6bcd 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -317,12 +317,13 @@ fn prepare_decode(
             Instruction::DecodePrimitiveArray(target, data, type_, len) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
-                let decoder = match type_ {
+                let decoded = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
                         ..
-                    }) => quote! { from_le_bytes },
-                    _ => quote! { from_be_bytes },
+                    }) => quote! { #type_::from_le_bytes(x.try_into().unwrap()) },
+                    _ => quote! { #type_::from_be_bytes(x.try_into().unwrap()) },
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
@@ -333,7 +334,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
                             unsafe { raw.set_len(t_count * size) };
                             #target.read_exact(&mut raw[..])#async_?;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoded).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -342,7 +343,7 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #decoded).collect::<Vec<#type_>>()
                         };
                     });
                 }
@@ -387,7 +388,12 @@ fn prepare_decode(
                 let inner = prepare_decode(options, context, &inner[..], is_async, false);
                 let stop = stop_index.map(emit_register);
                 let terminator = terminator.map(emit_register);
+                let rebound_target = match target {
+                    Target::Direct => emit_target(target),
+                    Target::Stream(x) | Target::Buf(x) => emit_register(*x),
+                };
                 let target = emit_target(target);
+                let trait_name = stream_trait(is_async);
                 if let Some(stop) = stop {
                     statements.push(quote! {
                         let mut #output = Vec::with_capacity(#stop as usize);
@@ -421,13 +427,15 @@ fn prepare_decode(
                         {
                             let mut r = vec![];
                             #target.read_to_end(&mut r)#async_?;
-                            let r_len = r.len() as u64;
+                            let mut r = &r[..];
 
-                            {
-                                let mut #target = Cursor::new(r);
-                                let #target = &mut #target;
-                                while #target.position() < r_len {
-                                    #inner
+                            while !r.is_empty() {
+                                let r_len = r.len();
+                                let mut r_element: &mut #trait_name = &mut r;
+                                let mut #rebound_target = &mut r_element;
+                                #inner
+                                if r.len() == r_len {
+                                    return Err(decode_error("array element without any length").into());
                                 }
                             }
                         }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 6ad0901..76069e6 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -1,5 +1,7 @@
 use std::collections::HashMap;
 
+use proc_macro2::Literal;
+
 use super::*;
 use crate::coder::encode::*;
 use crate::{coder::*, map_async, Endian, EndianScalarType, ScalarType};
@@ -87,6 +89,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = Literal::usize_unsuffixed(*x);
                                 quote! { #source.#x }
                             }
                         };
@@ -272,7 +275,7 @@ impl EncoderContext {
                     let target = emit_target(target);
                     let data = emit_register(*data);
                     statements.push(quote! {
-                        #target.write_all(&[if #data { 1u8 } else { 0u8 }])#async_?;
+                        #target.write_all(&[#data.clone() as u8])#async_?;
                     });
                 }
                 Instruction::EncodePrimitive(
@@ -303,7 +306,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[*x as u8])#async_?;
                                 }
                             }
                         }
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 4627df8..af9852f 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -14,7 +14,7 @@ impl ForeignTransform for Base64Transform {
         }
         quote! {
             {
-                base64::read::DecoderReader::new(#input_stream, base64::STANDARD)
+                std::io::BufReader::new(base64::read::DecoderReader::new(#input_stream, base64::STANDARD))
             }
         }
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 57102dd..aac7406 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -11,11 +11,11 @@ impl ForeignTransform for GzipTransform {
     ) -> TokenStream {
         if is_async {
             quote! {
-                async_compression::tokio::bufread::GzipDecoder::new(#input_stream)
+                tokio::io::BufReader::new(async_compression::tokio::bufread::GzipDecoder::new(#input_stream))
             }
         } else {
             quote! {
-                flate2::read::GzDecoder::new(#input_stream)
+                std::io::BufReader::new(flate2::bufread::GzDecoder::new(#input_stream))
             }
         }
     }
-- 
2.43.0


From 386a769804179f4b5713ccb228937885a14e6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 06/39] fix: a conditional field in a conditional container
 generated code that did not compile

---
 protospec-build/src/coder/decode/field.rs       | 6 +++++-
 protospec-build/src/coder/decode/instruction.rs | 2 +-
 protospec-build/src/coder/decode/mod.rs         | 8 +++++++-
 protospec-build/src/compiler/decoder.rs         | 8 +++++---
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..f6b12dc 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -61,9 +61,13 @@ impl Context {
             if emitted.is_empty() {
                 panic!("no emitted values from conditional");
             }
+            let interior = emitted
+                .iter()
+                .map(|register| (*register, !self.optional_registers.insert(*register)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interior,
                 field_condition,
                 drained,
             ));
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..4d7837e 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -57,7 +57,7 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>), // target, (interior_register, already optional), condition, if_true
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..7afb1ba 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -20,6 +23,8 @@ pub struct Context {
     pub field_register_map: HashMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
+    // registers that hold an `Option` of their field
+    pub optional_registers: HashSet<usize>,
 }
 
 impl Context {
@@ -37,6 +42,7 @@ impl Context {
             instructions: vec![],
             field_register_map: HashMap::new(),
             register_count: 0,
+            optional_registers: HashSet::new(),
         }
     }
 
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 18b6bcd..194cd01 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -464,10 +464,12 @@ fn prepare_decode(
                 let interiors = interior
                     .iter()
                     .copied()
-                    .map(|r| {
+                    .map(|(r, is_optional)| {
                         let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                        if is_optional {
+                            r
+                        } else {
+                            quote! { Some(#r) }
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From a012b1a22d3597363bd6da2d6e2215afdc0b31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 07/39] fix: transforms were applied right to left when
 encoding, so chains could not be decoded

---
 protospec-build/src/coder/encode/field.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 0175a7d..8e3d775 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,8 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        // data passes the first transform first, so the last one wraps the target
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From 9f31b3e88a55a96b3aebe957eea4487b015db8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 08/39] fix: utf16 strings were read in the byte order of the
 host, so they did not read back

---
 protospec-build/src/prelude/utf16.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..e4b2071 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -41,6 +41,9 @@ impl ForeignType for Utf16 {
                     slice::from_raw_parts_mut(ptr, len)
                 };
                 #source.read_exact(&mut t_borrow2[..])#async_?;
+                for utf16 in t.iter_mut() {
+                    *utf16 = u16::from_be(*utf16);
+                }
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 7566acc31abb59b3ecc4c647d194f6c2944302a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 09/39] fix: variable length integers lost high bits or were
 cut off when reading, and overlong ones overflowed a shift

---
 protospec-build/src/prelude/var.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..e4a2744 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,23 +71,27 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let end = (self.scalar_type.size() as f64 * 8.0 / 7.0).ceil() as usize;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
             let #output_ref = {
                 let mut i = 0usize;
                 let mut buf = [0xffu8; 1];
-                let mut output: #inner = 0;
+                let mut output: #inner_unsigned = 0;
                 while (buf[0] & 128) == 128 {
+                    if i == #end {
+                        return Err(decode_error("variable length integer is too long").into());
+                    }
                     #source.read_exact(&mut buf[..])#async_?;
-                    output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
-                    i += 1;
-                    if i > #end {
-                        break;
+                    let bits = buf[0] as #inner_unsigned & 127;
+                    if ((bits << (i * 7)) >> (i * 7)) != bits {
+                        return Err(decode_error("variable length integer is out of range").into());
                     }
+                    output |= bits << (i * 7);
+                    i += 1;
                 }
-                output
+                output as #inner
             };
         }
     }
-- 
2.43.0


From 9af5a456060f1ff282b8e85fd447209363ce3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 10/39] fix: decoders allocated whatever length or count the
 input claimed, uninitialised, and sizes could overflow

---
 protospec-build/src/compiler/decoder.rs | 55 +++++++++++++++++++++----
 protospec-build/src/compiler/encoder.rs | 17 +++++---
 protospec-build/src/compiler/mod.rs     |  1 +
 protospec-build/src/prelude/utf16.rs    | 21 ++++------
 protospec-build/src/prelude/utf8.rs     | 13 ++----
 5 files changed, 69 insertions(+), 38 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 194cd01..32a457e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -33,6 +33,36 @@ fn emit_input(target: &Target, new_stream: usize, is_async: bool) -> (TokenStrea
     )
 }
 
+/// Emits the reading of exactly `len` bytes, without trusting `len` for allocations.
+pub(crate) fn emit_read_raw(
+    target: &TokenStream,
+    len: TokenStream,
+    is_async: bool,
+) -> TokenStream {
+    let async_ = map_async(is_async);
+    quote! {
+        {
+            let len: usize = #len;
+            let mut raw: Vec<u8> = Vec::new();
+            (&mut *#target).take(len as u64).read_to_end(&mut raw)#async_?;
+            if raw.len() != len {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+            raw
+        }
+    }
+}
+
+/// Emits the size in bytes of `count` elements of `size` bytes.
+pub(crate) fn emit_byte_size(count: TokenStream, size: TokenStream) -> TokenStream {
+    quote! {
+        match (#count).checked_mul(#size) {
+            Some(x) => x,
+            None => return Err(decode_error("array size overflow").into()),
+        }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -327,13 +357,13 @@ fn prepare_decode(
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let byte_size = emit_byte_size(quote! { t_count }, quote! { size });
+                    let raw = emit_read_raw(&target, byte_size, is_async);
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw: Vec<u8> = #raw;
                             raw.chunks_exact(size).map(|x| #decoded).collect::<Vec<#type_>>()
                         };
                     });
@@ -362,13 +392,13 @@ fn prepare_decode(
 
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let byte_size = emit_byte_size(quote! { t_count }, quote! { size });
+                    let raw = emit_read_raw(&target, byte_size, is_async);
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            let raw: Vec<u8> = #raw;
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -396,7 +426,7 @@ fn prepare_decode(
                 let trait_name = stream_trait(is_async);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -524,8 +554,15 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let len = emit_register(*len);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    {
+                        let mut scratch = [0u8; 64];
+                        let mut remaining = #len as u64;
+                        while remaining > 0 {
+                            let size = remaining.min(scratch.len() as u64) as usize;
+                            #target.read_exact(&mut scratch[..size])#async_?;
+                            remaining -= size as u64;
+                        }
+                    }
                 });
             }
         }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 76069e6..e8286df 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -98,12 +98,10 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
+                Instruction::AllocBuf(buf, _len) => {
                     let buf = emit_register(*buf);
-                    let len = emit_register(*len);
                     statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
+                        let mut #buf: Vec<u8> = Vec::new();
                     });
                 }
                 Instruction::AllocDynBuf(buf) => {
@@ -458,9 +456,16 @@ impl EncoderContext {
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-                    //todo: dont alloc on the heap
                     statements.push(quote! {
-                        #target.write_all(&vec![0u8; #length as usize][..])#async_?;
+                        {
+                            let scratch = [0u8; 64];
+                            let mut remaining = #length as u64;
+                            while remaining > 0 {
+                                let size = remaining.min(scratch.len() as u64) as usize;
+                                #target.write_all(&scratch[..size])#async_?;
+                                remaining -= size as u64;
+                            }
+                        }
                     });
                 }
                 Instruction::SetRef(name, value) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index bde8af9..b1778c4 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -9,6 +9,7 @@ use quote::{format_ident, quote};
 use std::{sync::Arc, unimplemented};
 
 mod decoder;
+pub(crate) use decoder::{emit_byte_size, emit_read_raw};
 mod encoder;
 mod expr;
 
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index e4b2071..3071ade 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -1,3 +1,4 @@
+use crate::compiler::{emit_byte_size, emit_read_raw};
 use super::*;
 
 pub struct Utf16;
@@ -27,23 +28,17 @@ impl ForeignType for Utf16 {
         arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
-        let async_ = map_async(is_async);
         let len = arguments.first().expect("missing len argument");
+        let byte_size = emit_byte_size(quote! { t_count }, quote! { 2 });
+        let raw = emit_read_raw(&source, byte_size, is_async);
         quote! {
             let #output_ref = {
                 let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
-                for utf16 in t.iter_mut() {
-                    *utf16 = u16::from_be(*utf16);
-                }
+                let raw: Vec<u8> = #raw;
+                let t = raw
+                    .chunks_exact(2)
+                    .map(|x| u16::from_be_bytes([x[0], x[1]]))
+                    .collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..bdc4a88 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -1,3 +1,4 @@
+use crate::compiler::emit_read_raw;
 use super::*;
 
 pub struct Utf8;
@@ -29,18 +30,10 @@ impl ForeignType for Utf8 {
     ) -> TokenStream {
         let async_ = map_async(is_async);
         if let Some(len) = arguments.first() {
+            let raw = emit_read_raw(&source, quote! { #len as usize }, is_async);
             quote! {
                 let #output_ref = {
-                    let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let t: Vec<u8> = #raw;
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From 143a7dd0bcb33bc6940e76d879395c8b6d7623ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 11/39] fix: open-ended arrays of primitives silently dropped a
 partial element at the end

---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 32a457e..0773eae 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -373,6 +373,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #decoded).collect::<Vec<#type_>>()
                         };
                     });
@@ -408,6 +411,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From b87d7a3dc3fd828a7094ad4fa28319776dd86020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 12/39] fix: encoding an array or string whose length differs
 from the declared one panicked or wrote a message that cannot be read

---
 protospec-build/src/coder/encode/array.rs       |  1 +
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         | 12 ++++++++++--
 protospec-build/src/prelude/utf16.rs            |  6 +++++-
 protospec-build/src/prelude/utf8.rs             |  5 ++++-
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index b87fedf..186f927 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,7 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions.push(Instruction::CheckLen(source, len));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 857f9c4..2149be1 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -56,6 +56,8 @@ pub enum Instruction {
 
     /// register representing iterator from -> term, term, inner
     Loop(usize, usize, Vec<Instruction>),
+    /// source, declared length
+    CheckLen(usize, usize),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
     /// register
@@ -174,6 +176,7 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
+            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index e8286df..209b035 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -120,6 +120,15 @@ impl EncoderContext {
                         }
                     });
                 }
+                Instruction::CheckLen(source, len) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #len as usize != #source.len() {
+                            return Err(encode_error("array does not have its declared length").into());
+                        }
+                    });
+                }
                 Instruction::GetLen(len, source, cast_type) => {
                     let len = emit_register(*len);
                     let source = emit_register(*source);
@@ -340,8 +349,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array does not have its declared length").into());
                                 }
                                 #writing
                             }
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 3071ade..1231578 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -48,12 +48,16 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                if #len as usize != #field_ref.encode_utf16().count() {
+                    return Err(encode_error("string does not have its declared length").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index bdc4a88..ef45fe6 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -59,9 +59,12 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    if #len as usize != #field_ref.len() {
+                        return Err(encode_error("string does not have its declared length").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
-- 
2.43.0


From f9b7c3c9aa1a87db820d69cf094958edafbe44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 13/39] fix: terminated arrays hung at the end of the stream,
 failed on interrupted reads, and did not see a terminator split over chunks

---
 protospec-build/src/compiler/decoder.rs | 44 +++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 0773eae..716bb75 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -438,22 +438,40 @@ fn prepare_decode(
                         }
                     });
                 } else if let Some(terminator) = terminator {
+                    let chain = if is_async {
+                        quote! { tokio::io::AsyncReadExt::chain }
+                    } else {
+                        quote! { std::io::Read::chain }
+                    };
                     statements.push(quote! {
                         let mut #output = Vec::new();
-                        loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
-                                break;
-                            }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                        {
+                            // bytes read in search of the terminator, but not decoded yet
+                            let mut r_ahead: Vec<u8> = Vec::new();
+                            let mut r_source: &mut #trait_name = &mut *#target;
+                            loop {
+                                if r_ahead.len() < #terminator.len() {
+                                    let r_missing = (#terminator.len() - r_ahead.len()) as u64;
+                                    (&mut r_source).take(r_missing).read_to_end(&mut r_ahead)#async_?;
+                                }
+                                if r_ahead.is_empty() || &r_ahead[..] == #terminator {
+                                    break;
+                                }
+                                let r_ahead_len = r_ahead.len();
+                                let mut r_chain = #chain(std::io::Cursor::new(r_ahead), &mut r_source);
+                                {
+                                    let mut r_element: &mut #trait_name = &mut r_chain;
+                                    let mut #rebound_target = &mut r_element;
+                                    #inner
+                                }
+                                let (r_cursor, _) = r_chain.into_inner();
+                                let r_consumed = r_cursor.position() as usize;
+                                if r_consumed == 0 {
+                                    return Err(decode_error("array element without any length").into());
+                                }
+                                r_ahead = r_cursor.into_inner();
+                                r_ahead.drain(..r_consumed);
                             }
-                            #inner
                         }
                     });
                 } else {
-- 
2.43.0


From 505ec794828611afb0e02ab73c7793bac4fceaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 14/39] fix: encoding an enumeration of alternatives whose tag
 selects none reported success without writing anything

---
 protospec-build/src/coder/encode/container.rs   |  6 ++++++
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         | 11 ++++++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index e8afc6f..fefe563 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -291,6 +291,12 @@ impl Context {
                         .push(Instruction::Conditional(condition, drained, vec![]));
                 }
             }
+            if !matches!(self.instructions.last(), Some(Instruction::Break)) {
+                self.instructions.push(Instruction::Error(format!(
+                    "no enum conditions matched for {}",
+                    field.name
+                )));
+            }
             let drained = self.instructions.drain(break_start..).collect();
             self.instructions.push(Instruction::BreakBlock(drained));
         } else {
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 2149be1..980189c 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -73,6 +73,8 @@ pub enum Instruction {
     /// instructions
     BreakBlock(Vec<Instruction>),
     Break,
+    /// message
+    Error(String),
 }
 
 fn write_arguments(f: &mut fmt::Formatter<'_>, arguments: &[usize]) -> fmt::Result {
@@ -227,6 +229,7 @@ impl fmt::Display for Instruction {
                 Ok(())
             }
             Instruction::Break => write!(f, "Break()"),
+            Instruction::Error(message) => write!(f, "Error('{}')", message),
         }
     }
 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 209b035..6feb9a3 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -449,10 +449,14 @@ impl EncoderContext {
                 Instruction::BreakBlock(instructions) => {
                     //todo: support nested breakblocks?
                     let interior = self.prepare_encode(&instructions[..], false);
+                    let leave = match instructions.last() {
+                        Some(Instruction::Break) | Some(Instruction::Error(_)) => quote! {},
+                        _ => quote! { break 'bb; },
+                    };
                     statements.push(quote! {
                         'bb: loop {
                             #interior
-                            break 'bb;
+                            #leave
                         }
                     });
                 }
@@ -461,6 +465,11 @@ impl EncoderContext {
                         break 'bb;
                     });
                 }
+                Instruction::Error(e) => {
+                    statements.push(quote! {
+                        return Err(encode_error(#e).into());
+                    });
+                }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
                     let target = emit_target(target);
-- 
2.43.0


From 00f674ab8eb37b0be8ad3320af0632f975581c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 15/39] fix: length-constrained containers: left-over bytes of
 the region were read as the next field, a region cut short was accepted, and
 content of a different length was sent

---
 protospec-build/src/coder/decode/container.rs   | 13 ++++++++++++-
 protospec-build/src/coder/decode/instruction.rs |  2 ++
 protospec-build/src/coder/encode/array.rs       |  6 +++++-
 protospec-build/src/coder/encode/container.rs   |  9 +++++++++
 protospec-build/src/coder/encode/instruction.rs |  8 +++++---
 protospec-build/src/compiler/decoder.rs         | 14 ++++++++++++++
 protospec-build/src/compiler/encoder.rs         |  4 ++--
 7 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/decode/container.rs b/protospec-build/src/coder/decode/container.rs
index 078383c..8e734ba 100644
--- a/protospec-build/src/coder/decode/container.rs
+++ b/protospec-build/src/coder/decode/container.rs
@@ -25,7 +25,16 @@ impl Context {
         if type_.is_enum.get() {
             self.decode_enum_container(field, type_, buf_target)
         } else {
-            self.decode_struct_container(field, type_, buf_target)
+            let decoded = self.decode_struct_container(field, type_, buf_target);
+            self.end_constrict(type_, buf_target);
+            decoded
+        }
+    }
+
+    /// The bytes of a length-constrained container that its fields do not use are skipped.
+    fn end_constrict(&mut self, type_: &ContainerType, buf_target: Target) {
+        if let (Some(_), Target::Stream(stream)) = (&type_.length, buf_target) {
+            self.instructions.push(Instruction::EndConstrict(stream));
         }
     }
 
@@ -129,6 +138,8 @@ impl Context {
                 }
             }
 
+            self.end_constrict(type_, buf_target);
+
             if let Some(condition) = condition {
                 self.instructions.push(Instruction::Return(target));
                 let drained = self.instructions.drain(start..).collect();
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 4d7837e..a72455b 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -29,6 +29,8 @@ pub enum Instruction {
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
+    // stream, skips what is left of it
+    EndConstrict(usize),
     WrapStream(Target, usize, Arc<Transform>, Vec<usize>), // stream, new stream, transformer, arguments
     ConditionalWrapStream(
         usize,
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 186f927..a0c78ac 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,7 +89,11 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
-            self.instructions.push(Instruction::CheckLen(source, len));
+            self.instructions.push(Instruction::CheckLen(
+                source,
+                len,
+                "array does not have its declared length".to_string(),
+            ));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index fefe563..5a02ff4 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -207,6 +207,7 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
+        let mut declared_length = None;
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
             let buf = self.alloc_register();
@@ -219,6 +220,7 @@ impl Context {
                     .push(Instruction::Eval(len_register, length.clone()));
                 self.instructions
                     .push(Instruction::AllocBuf(buf, len_register));
+                declared_length = Some(len_register);
             }
             Target::Buf(buf)
         } else {
@@ -320,6 +322,13 @@ impl Context {
                 ));
                 self.resolved_autos.insert(field.name.clone(), target);
             }
+            if let Some(length) = declared_length {
+                self.instructions.push(Instruction::CheckLen(
+                    buf_target.unwrap_buf(),
+                    length,
+                    "container does not have its declared length".to_string(),
+                ));
+            }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
         }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 980189c..b12d041 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -56,8 +56,8 @@ pub enum Instruction {
 
     /// register representing iterator from -> term, term, inner
     Loop(usize, usize, Vec<Instruction>),
-    /// source, declared length
-    CheckLen(usize, usize),
+    /// source, declared length, message
+    CheckLen(usize, usize, String),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
     /// register
@@ -178,7 +178,9 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
+            Instruction::CheckLen(source, len, message) => {
+                write!(f, "CheckLen({}, {}, '{}')", source, len, message)
+            }
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 716bb75..f9dce0f 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -212,6 +212,20 @@ fn prepare_decode(
                     let #new_stream = &mut #new_stream;
                 });
             }
+            Instruction::EndConstrict(stream) => {
+                let stream = emit_register(*stream);
+                let copy = if is_async {
+                    quote! { tokio::io::copy_buf(&mut *#stream, &mut tokio::io::sink()) }
+                } else {
+                    quote! { std::io::copy(&mut *#stream, &mut std::io::sink()) }
+                };
+                statements.push(quote! {
+                    #copy #async_?;
+                    if #stream.limit() != 0 {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
+                });
+            }
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 6feb9a3..e7f5f74 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -120,12 +120,12 @@ impl EncoderContext {
                         }
                     });
                 }
-                Instruction::CheckLen(source, len) => {
+                Instruction::CheckLen(source, len, message) => {
                     let source = emit_register(*source);
                     let len = emit_register(*len);
                     statements.push(quote! {
                         if #len as usize != #source.len() {
-                            return Err(encode_error("array does not have its declared length").into());
+                            return Err(encode_error(#message).into());
                         }
                     });
                 }
-- 
2.43.0


From 1ee15d1467533bfe715237390c81a24ba45348f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 16/39] fix: alternatives that are containers ignored their
 length and transforms when encoding, and shared the byte lengths of fields
 with the same name

---
 protospec-build/src/coder/encode/container.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 5a02ff4..ec45d3b 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -269,8 +269,14 @@ impl Context {
                                 self.instructions.push(Instruction::SetRef(name, register));
                             }
                         }
-                        self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        // what is known about fields and regions is that of this alternative only
+                        let resolved_autos = self.resolved_autos.clone();
+                        let pending_autos = self.pending_autos.clone();
+                        let unresolved_calculated = self.unresolved_calculated.clone();
+                        self.encode_field_unconditional(buf_target, source, child, false, false);
+                        self.resolved_autos = resolved_autos;
+                        self.pending_autos = pending_autos;
+                        self.unresolved_calculated = unresolved_calculated;
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
-- 
2.43.0


From 11e27426b33448817226c31fc79bef52387feebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 17/39] fix: a region whose computed length is not the one
 declared for it was sent anyway

---
 protospec-build/src/coder/encode/container.rs | 34 +++++++++++++++++++
 protospec-build/src/coder/encode/mod.rs       |  3 ++
 2 files changed, 37 insertions(+)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index ec45d3b..7448e12 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -134,6 +134,33 @@ impl Context {
         calculated_register
     }
 
+    /// Compares the content of blen-targets to their declared length, once that is known.
+    fn check_lengths(&mut self) {
+        let (ready, unchecked) = self
+            .unchecked_lengths
+            .drain(..)
+            .collect::<Vec<_>>()
+            .into_iter()
+            .partition(|(length, _)| {
+                !length
+                    .field_refs()
+                    .iter()
+                    .any(|x| self.unresolved_calculated.contains(x))
+            });
+        self.unchecked_lengths = unchecked;
+        let ready: Vec<(Expression, usize)> = ready;
+        for (length, buf) in ready {
+            let len_register = self.alloc_register();
+            self.instructions
+                .push(Instruction::Eval(len_register, length));
+            self.instructions.push(Instruction::CheckLen(
+                buf,
+                len_register,
+                "container does not have its declared length".to_string(),
+            ));
+        }
+    }
+
     fn encode_container_items(
         &mut self,
         container: &ContainerType,
@@ -189,6 +216,7 @@ impl Context {
                     Some(i) => Target::Buf(auto_targets[i].0),
                     None => buf_target,
                 };
+                self.check_lengths();
                 self.encode_field(target, calculated_register, auto_field, conditional);
                 self.instructions
                     .push(Instruction::EmitBuf(target, auto_target));
@@ -273,10 +301,12 @@ impl Context {
                         let resolved_autos = self.resolved_autos.clone();
                         let pending_autos = self.pending_autos.clone();
                         let unresolved_calculated = self.unresolved_calculated.clone();
+                        let unchecked_lengths = std::mem::take(&mut self.unchecked_lengths);
                         self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.resolved_autos = resolved_autos;
                         self.pending_autos = pending_autos;
                         self.unresolved_calculated = unresolved_calculated;
+                        self.unchecked_lengths = unchecked_lengths;
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
@@ -327,6 +357,10 @@ impl Context {
                     Some(ScalarType::U64),
                 ));
                 self.resolved_autos.insert(field.name.clone(), target);
+                self.unchecked_lengths.push((
+                    type_.length.clone().unwrap(),
+                    buf_target.unwrap_buf(),
+                ));
             }
             if let Some(length) = declared_length {
                 self.instructions.push(Instruction::CheckLen(
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index 14d49a0..2e1879d 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -29,6 +29,8 @@ pub struct Context {
     pub pending_autos: IndexSet<String>,
     // set of computed field names in scope whose value is not known yet
     pub unresolved_calculated: IndexSet<String>,
+    // declared length and buffer of blen-targets that were not compared yet
+    pub unchecked_lengths: Vec<(Expression, usize)>,
 }
 
 impl Context {
@@ -47,6 +49,7 @@ impl Context {
             resolved_autos: IndexMap::new(),
             pending_autos: IndexSet::new(),
             unresolved_calculated: IndexSet::new(),
+            unchecked_lengths: vec![],
         }
     }
 
-- 
2.43.0


From 804f89db2f91b1f3cabb499e43dd902f476260bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 18/39] fix: gzip and base64 fields failed on sinks that take
 few bytes at a time or are interrupted

---
 protospec-build/src/prelude/base64.rs | 2 +-
 protospec-build/src/prelude/gzip.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index af9852f..aab551b 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -29,7 +29,7 @@ impl ForeignTransform for Base64Transform {
             panic!("base64 async not implemented");
         }
         quote! {
-            base64::write::EncoderWriter::new(#input_stream, base64::STANDARD)
+            base64::write::EncoderWriter::new(std::io::BufWriter::new(#input_stream), base64::STANDARD)
         }
     }
 
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index aac7406..f33069b 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -32,7 +32,7 @@ impl ForeignTransform for GzipTransform {
             }
         } else {
             quote! {
-                flate2::write::GzEncoder::new(#input_stream, flate2::Compression::default())
+                flate2::write::GzEncoder::new(std::io::BufWriter::new(#input_stream), flate2::Compression::default())
             }
         }
     }
-- 
2.43.0


From 0e5a5dfbeac32338e904900e2ee1735f6e3675de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 19/39] fix: files that import each other overflowed the stack;
 an import that leads back to a file still being imported is now an error

---
 protospec-build/src/semantics/convert/program/mod.rs     | 2 +-
 protospec-build/src/semantics/convert/program/resolve.rs | 7 ++++++-
 protospec-build/src/semantics/error.rs                   | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..8e0b105 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut vec![])?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..50ef1c3 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,6 +5,7 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        pending: &mut Vec<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -12,6 +13,8 @@ impl Program {
                     let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
                     let normalized = resolver.normalize_import(&content[..])?;
                     if let Some(_cached) = cache.get(&normalized) {
+                    } else if pending.contains(&normalized) {
+                        return Err(AsgError::ImportCycle(content, import.from.span));
                     } else {
                         let loaded = resolver.resolve_import(&normalized)?;
                         if let Some(loaded) = loaded {
@@ -21,7 +24,9 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            pending.push(normalized.clone());
+                            Program::from_ast_imports(&parsed, resolver, cache, pending)?;
+                            pending.pop();
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..a239688 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -11,6 +11,8 @@ pub enum AsgError {
     FfiMissing(String, Span),
     #[error("unresolved import '{0}' @ {1}")]
     ImportMissing(String, Span),
+    #[error("import '{0}' @ {1} leads back to a file that is still being imported")]
+    ImportCycle(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
-- 
2.43.0


From 74e10d1965b6c110520609819a96492ff23d2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 20/39] fix: code for imported declarations was incomplete:
 types they rely on were left out, aliases broke it, and an import silently
 replaced another of the same name

---
 protospec-build/src/asg/expression/mod.rs     | 35 ++++++++++++++++++
 protospec-build/src/asg/field.rs              | 31 ++++++++++++++++
 protospec-build/src/asg/program.rs            | 37 +++++++++++++++++++
 protospec-build/src/asg/types/mod.rs          | 26 +++++++++++++
 protospec-build/src/compiler/mod.rs           | 15 ++++++++
 .../src/semantics/convert/program/import.rs   | 33 +++++++++++++++++
 .../src/semantics/convert/program/mod.rs      |  4 +-
 7 files changed, 180 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/expression/mod.rs b/protospec-build/src/asg/expression/mod.rs
index 3b4022e..145d61c 100644
--- a/protospec-build/src/asg/expression/mod.rs
+++ b/protospec-build/src/asg/expression/mod.rs
@@ -52,6 +52,41 @@ pub enum Expression {
     Member(MemberExpression),
 }
 
+impl Expression {
+    pub(super) fn get_declarations(&self, target: &mut Vec<Arc<Field>>) {
+        use Expression::*;
+        match self {
+            Binary(e) => {
+                e.left.get_declarations(target);
+                e.right.get_declarations(target);
+            }
+            Unary(e) => e.inner.get_declarations(target),
+            Cast(e) => {
+                e.inner.get_declarations(target);
+                e.type_.get_declarations(target);
+            }
+            ArrayIndex(e) => {
+                e.array.get_declarations(target);
+                e.index.get_declarations(target);
+            }
+            EnumAccess(e) => add_declaration(&e.enum_field, target),
+            ConstRef(e) => e.value.get_declarations(target),
+            Ternary(e) => {
+                e.condition.get_declarations(target);
+                e.if_true.get_declarations(target);
+                e.if_false.get_declarations(target);
+            }
+            Call(e) => {
+                for argument in &e.arguments {
+                    argument.get_declarations(target);
+                }
+            }
+            Member(e) => e.target.get_declarations(target),
+            Int(_) | InputRef(_) | FieldRef(_) | Str(_) | Bool(_) => (),
+        }
+    }
+}
+
 impl AsgExpression for Expression {
     fn get_type(&self) -> Option<Type> {
         use Expression::*;
diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index 6573977..2bab596 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -30,6 +30,37 @@ pub struct Field {
 }
 
 impl Field {
+    /// whether both are one declaration, or the same foreign type
+    pub fn same_declaration(self: &Arc<Self>, other: &Arc<Self>) -> bool {
+        Arc::ptr_eq(self, other)
+            || match (&*self.type_.borrow(), &*other.type_.borrow()) {
+                (Type::Foreign(left), Type::Foreign(right)) => left.name == right.name,
+                _ => false,
+            }
+    }
+
+    /// adds all declarations that this one relies on by name
+    pub(super) fn get_declarations(&self, target: &mut Vec<Arc<Field>>) {
+        for argument in self.arguments.borrow().iter() {
+            argument.type_.get_declarations(target);
+            if let Some(default_value) = argument.default_value.as_ref() {
+                default_value.get_declarations(target);
+            }
+        }
+        self.type_.borrow().get_declarations(target);
+        if let Some(calculated) = self.calculated.borrow().as_ref() {
+            calculated.get_declarations(target);
+        }
+        if let Some(condition) = self.condition.borrow().as_ref() {
+            condition.get_declarations(target);
+        }
+        for transform in self.transforms.borrow().iter() {
+            for argument in transform.arguments.iter().chain(&transform.condition) {
+                argument.get_declarations(target);
+            }
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         let type_ = self.type_.borrow();
         type_.get_indirect_contained_fields(target);
diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..05fa67c 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -3,12 +3,49 @@ use super::*;
 #[derive(Debug)]
 pub struct Program {
     pub types: IndexMap<String, Arc<Field>>,
+    /// declarations of imported files that `types` rely on, by their declared name
+    pub imported: IndexMap<String, Arc<Field>>,
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
 }
 
+pub(super) fn add_declaration(field: &Arc<Field>, target: &mut Vec<Arc<Field>>) {
+    if !target.iter().any(|x| Arc::ptr_eq(x, field)) {
+        target.push(field.clone());
+        field.get_declarations(target);
+    }
+}
+
 impl Program {
+    /// finds the declarations of imported files that this program relies on without naming them
+    pub fn collect_imported(&mut self) -> AsgResult<()> {
+        let mut reached = vec![];
+        for field in self.types.values() {
+            add_declaration(field, &mut reached);
+        }
+        for field in reached {
+            if matches!(&*field.type_.borrow(), Type::Foreign(_)) {
+                continue;
+            }
+            let defined = match self.types.get(&field.name) {
+                Some(defined) => defined,
+                None => self
+                    .imported
+                    .entry(field.name.clone())
+                    .or_insert_with(|| field.clone()),
+            };
+            if !Arc::ptr_eq(defined, &field) {
+                return Err(AsgError::TypeRedefinition(
+                    field.name.clone(),
+                    field.span,
+                    defined.span,
+                ));
+            }
+        }
+        Ok(())
+    }
+
     pub fn scan_cycles(&self) {
         for (_, field) in &self.types {
             let mut interior_fields = IndexSet::new();
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 8949b10..7bfcae2 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -179,6 +179,32 @@ impl Type {
         }
     }
 
+    pub(super) fn get_declarations(&self, target: &mut Vec<Arc<Field>>) {
+        match self {
+            Type::Array(interior) => {
+                interior.element.get_declarations(target);
+                if let Some(length) = interior.length.value.as_ref() {
+                    length.get_declarations(target);
+                }
+            }
+            Type::Container(interior) => {
+                if let Some(length) = interior.length.as_ref() {
+                    length.get_declarations(target);
+                }
+                for (_, field) in &interior.items {
+                    field.get_declarations(target);
+                }
+            }
+            Type::Ref(call) => {
+                add_declaration(&call.target, target);
+                for argument in &call.arguments {
+                    argument.get_declarations(target);
+                }
+            }
+            _ => (),
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         match self {
             Type::Array(interior) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index b1778c4..fe23ccc 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -152,6 +152,21 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         #errors
     });
     for (name, field) in program.types.iter() {
+        if *name == field.name || matches!(&*field.type_.borrow(), Type::Foreign(_)) {
+            continue;
+        }
+        // imported under another name
+        let declared_ident = format_ident!("{}", global_name(&field.name));
+        let ident = format_ident!("{}", global_name(name));
+        components.push(quote! {
+            pub use self::#declared_ident as #ident;
+        });
+    }
+    let declared_types = program
+        .types
+        .iter()
+        .filter(|(name, field)| **name == field.name);
+    for (name, field) in declared_types.chain(&program.imported) {
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
             Type::Container(item) => {
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..459a3da 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -19,10 +19,43 @@ impl Scope {
                     import_item.name.name.clone()
                 };
                 if let Some(t) = cached.types.get(&import_item.name.name) {
+                    let defined = program.borrow().types.get(&imported_name).cloned();
+                    match defined {
+                        Some(defined) if !defined.same_declaration(t) => {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                     program.borrow_mut().types.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
+                    let defined = program.borrow().consts.get(&imported_name).cloned();
+                    match defined {
+                        Some(defined) if !Arc::ptr_eq(&defined, t) => {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                     program.borrow_mut().consts.insert(imported_name, t.clone());
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
+                    let defined = program.borrow().transforms.get(&imported_name).cloned();
+                    match defined {
+                        Some(defined) if defined.name != t.name => {
+                            return Err(AsgError::TransformRedefinition(
+                                imported_name,
+                                import_item.span,
+                                defined.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                     program
                         .borrow_mut()
                         .transforms
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 8e0b105..866e72f 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -28,6 +28,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let program = Arc::new(RefCell::new(Program {
             types: IndexMap::new(),
+            imported: IndexMap::new(),
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
@@ -128,11 +129,12 @@ impl Program {
             }
         }
 
-        let program = Arc::try_unwrap(program)
+        let mut program = Arc::try_unwrap(program)
             .ok()
             .expect("leaked program arc")
             .into_inner();
 
+        program.collect_imported()?;
         program.scan_cycles();
         Ok(program)
     }
-- 
2.43.0


From cff446ddeaebf35f204355e9286245371eeb21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 21/39] fix: compile_spec reported success with an empty or
 partial file when the formatter failed, and could wait for the formatter
 forever; output errors were panics or lost at close

---
 protospec-build/src/lib.rs | 66 +++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/lib.rs b/protospec-build/src/lib.rs
index 06a21e4..6fdb201 100644
--- a/protospec-build/src/lib.rs
+++ b/protospec-build/src/lib.rs
@@ -3,10 +3,12 @@ extern crate quote;
 
 #[macro_use]
 pub mod result;
+use proc_macro2::{TokenStream, TokenTree};
 use std::{
+    fs::File,
     io::Write,
-    path::PathBuf,
-    process::{Command, Stdio},
+    path::{Path, PathBuf},
+    process::{Command, Output, Stdio},
 };
 
 pub use result::*;
@@ -75,18 +77,58 @@ impl Default for Options {
     }
 }
 
-pub fn rustfmt(input: &str) -> String {
+fn run_rustfmt(input: &str) -> std::io::Result<Output> {
     let mut proc = Command::new("rustfmt")
         .arg("--edition")
         .arg("2021")
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .stderr(Stdio::inherit())
-        .spawn()
-        .expect("rustfmt failed");
-    let stdin = proc.stdin.as_mut().unwrap();
-    stdin.write_all(input.as_bytes()).unwrap();
-    String::from_utf8_lossy(&proc.wait_with_output().unwrap().stdout).to_string()
+        .spawn()?;
+    let mut stdin = proc.stdin.take().unwrap();
+    let input = input.to_string();
+    // the formatter is free to print before it has read everything
+    let writer = std::thread::spawn(move || stdin.write_all(input.as_bytes()));
+    let output = proc.wait_with_output()?;
+    writer
+        .join()
+        .unwrap_or_else(|_| Err(std::io::ErrorKind::Other.into()))?;
+    Ok(output)
+}
+
+/// everything in some code that formatting does not touch, in a canonical order
+fn code_words(input: &str) -> Option<Vec<String>> {
+    fn collect(stream: TokenStream, out: &mut Vec<String>) {
+        for token in stream {
+            match token {
+                TokenTree::Group(group) => collect(group.stream(), out),
+                TokenTree::Punct(_) => (),
+                token => out.push(token.to_string()),
+            }
+        }
+    }
+    let mut out = vec![];
+    collect(input.parse().ok()?, &mut out);
+    out.sort();
+    Some(out)
+}
+
+/// formats generated code, or returns it as it is when there is no working formatter
+pub fn rustfmt(input: &str) -> String {
+    match run_rustfmt(input) {
+        Ok(output) if output.status.success() => match String::from_utf8(output.stdout) {
+            Ok(formatted) if code_words(&formatted) == code_words(input) => formatted,
+            _ => input.to_string(),
+        },
+        _ => input.to_string(),
+    }
+}
+
+fn write_output(target: &Path, content: &str) -> std::io::Result<()> {
+    let mut file = File::create(target)?;
+    file.write_all(content.as_bytes())?;
+    // what could not be stored is at the latest reported here
+    file.sync_all()
 }
 
 pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()> {
@@ -105,11 +147,13 @@ pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()>
     if options.format_output {
         compiled = rustfmt(&compiled);
     }
-    let mut target: PathBuf = std::env::var("OUT_DIR")
-        .expect("OUT_DIR env var not set")
+    let mut target: PathBuf = std::env::var_os("OUT_DIR")
+        .ok_or_else(|| -> Error { protospec_err!("OUT_DIR env var not set") })?
         .into();
     target.push(format!("{}.rs", name));
-    std::fs::write(target, compiled).expect("failed to write to target");
+    write_output(&target, &compiled).map_err(|e| -> Error {
+        protospec_err!("failed to write to {}: {}", target.display(), e)
+    })?;
     Ok(())
 }
 
-- 
2.43.0


From 2c8c7160683b275667a7e883cf75949fea74aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 22/39] fix: deeply nested or endlessly chained specification
 text overflowed the stack while it was parsed; it is now a located error

---
 protospec-build/src/parser/error.rs           |  2 +
 .../src/parser/expression/array_index.rs      |  1 +
 protospec-build/src/parser/expression/cast.rs |  1 +
 protospec-build/src/parser/expression/mod.rs  |  4 ++
 .../src/parser/expression/unary.rs            |  2 +
 protospec-build/src/parser/mod.rs             |  2 +-
 protospec-build/src/parser/token_iter.rs      | 48 ++++++++++++++++++-
 protospec-build/src/parser/types/mod.rs       |  9 ++++
 8 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/parser/error.rs b/protospec-build/src/parser/error.rs
index 8655269..1856cda 100644
--- a/protospec-build/src/parser/error.rs
+++ b/protospec-build/src/parser/error.rs
@@ -17,6 +17,8 @@ pub enum ParseError {
     EnumMissingRep(Span),
     #[error("bitfield is missing representation scalar")]
     BitfieldMissingRep(Span),
+    #[error("type or expression is too complex @ '{0}'")]
+    TooComplex(Span),
     #[error("unknown container directive '{0}' @ {1}'")]
     UnknownContainerDirective(String, Span),
 
diff --git a/protospec-build/src/parser/expression/array_index.rs b/protospec-build/src/parser/expression/array_index.rs
index 0d4221f..f6931ee 100644
--- a/protospec-build/src/parser/expression/array_index.rs
+++ b/protospec-build/src/parser/expression/array_index.rs
@@ -3,6 +3,7 @@ use super::*;
 pub fn parse_array_index_expression(t: &mut TokenIter) -> ParseResult<Expression> {
     let mut expr = parse_primary_expression(t)?;
     while let Some(SpannedToken { token: op, .. }) = t.eat_any(&[Token::LeftSquare, Token::Dot]) {
+        t.extend_expression()?;
         match op {
             Token::LeftSquare => {
                 let right = parse_expression(t)?;
diff --git a/protospec-build/src/parser/expression/cast.rs b/protospec-build/src/parser/expression/cast.rs
index e048b86..e2e3da4 100644
--- a/protospec-build/src/parser/expression/cast.rs
+++ b/protospec-build/src/parser/expression/cast.rs
@@ -5,6 +5,7 @@ pub fn parse_cast_expression(t: &mut TokenIter) -> ParseResult<Expression> {
     while let Some(SpannedToken { token: op, .. }) = t.eat_any(&[Token::Cast, Token::Elvis]) {
         match op {
             Token::Cast => {
+                t.extend_expression()?;
                 let right = parse_type(t)?;
                 expr = Expression::Cast(CastExpression {
                     span: *expr.span() + right.span,
diff --git a/protospec-build/src/parser/expression/mod.rs b/protospec-build/src/parser/expression/mod.rs
index b09bcbc..b9b2b37 100644
--- a/protospec-build/src/parser/expression/mod.rs
+++ b/protospec-build/src/parser/expression/mod.rs
@@ -43,6 +43,10 @@ mod primary;
 use primary::*;
 
 pub fn parse_expression(t: &mut TokenIter) -> ParseResult<Expression> {
+    t.nested_expression(parse_expression_inner)
+}
+
+fn parse_expression_inner(t: &mut TokenIter) -> ParseResult<Expression> {
     let expr = parse_or_expression(t)?;
     if t.eat(Token::Question).is_some() {
         let if_true = parse_expression(t)?;
diff --git a/protospec-build/src/parser/expression/unary.rs b/protospec-build/src/parser/expression/unary.rs
index 4730890..785f280 100644
--- a/protospec-build/src/parser/expression/unary.rs
+++ b/protospec-build/src/parser/expression/unary.rs
@@ -3,8 +3,10 @@ use super::*;
 pub fn parse_unary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
     let mut ops = vec![];
     while let Some(token) = t.eat_any(&[Token::Not, Token::Minus, Token::BitNot]) {
+        t.extend_expression()?;
         ops.push(token);
     }
+    t.extend_expression()?;
     let mut inner = parse_array_index_expression(t)?;
     for op in ops.into_iter().rev() {
         inner = Expression::Unary(UnaryExpression {
diff --git a/protospec-build/src/parser/mod.rs b/protospec-build/src/parser/mod.rs
index 0c00d9c..c5faa16 100644
--- a/protospec-build/src/parser/mod.rs
+++ b/protospec-build/src/parser/mod.rs
@@ -5,7 +5,7 @@ mod error;
 pub use error::{ParseError, ParseResult};
 
 mod token_iter;
-use token_iter::TokenIter;
+use token_iter::{TokenIter, MAX_NESTING};
 
 mod declaration;
 use declaration::*;
diff --git a/protospec-build/src/parser/token_iter.rs b/protospec-build/src/parser/token_iter.rs
index b8eae84..2ee6b84 100644
--- a/protospec-build/src/parser/token_iter.rs
+++ b/protospec-build/src/parser/token_iter.rs
@@ -1,7 +1,15 @@
 use super::*;
 
+/// how deep types and expressions may be nested into each other
+pub const MAX_NESTING: usize = 32;
+/// how many operands and operators a single expression may have
+const MAX_EXPRESSION: usize = 256;
+
 pub struct TokenIter {
     inner: Vec<SpannedToken>,
+    nesting: usize,
+    expression_nesting: usize,
+    expression_size: usize,
 }
 
 impl Iterator for TokenIter {
@@ -15,7 +23,45 @@ impl Iterator for TokenIter {
 impl TokenIter {
     pub fn new(mut tokens: Vec<SpannedToken>) -> Self {
         tokens.reverse();
-        TokenIter { inner: tokens }
+        TokenIter {
+            inner: tokens,
+            nesting: 0,
+            expression_nesting: 0,
+            expression_size: 0,
+        }
+    }
+
+    /// parses a type or expression, which can in turn contain types and expressions
+    pub fn nested<T>(&mut self, parser: impl FnOnce(&mut Self) -> ParseResult<T>) -> ParseResult<T> {
+        if self.nesting >= MAX_NESTING {
+            return Err(ParseError::TooComplex(self.peek_span()?));
+        }
+        self.nesting += 1;
+        let out = parser(self);
+        self.nesting -= 1;
+        out
+    }
+
+    pub fn nested_expression<T>(
+        &mut self,
+        parser: impl FnOnce(&mut Self) -> ParseResult<T>,
+    ) -> ParseResult<T> {
+        if self.expression_nesting == 0 {
+            self.expression_size = 0;
+        }
+        self.expression_nesting += 1;
+        let out = self.nested(parser);
+        self.expression_nesting -= 1;
+        out
+    }
+
+    /// accounts for another operand or operator of the current expression
+    pub fn extend_expression(&mut self) -> ParseResult<()> {
+        if self.expression_size >= MAX_EXPRESSION {
+            return Err(ParseError::TooComplex(self.peek_span()?));
+        }
+        self.expression_size += 1;
+        Ok(())
     }
 
     pub fn peek(&self) -> ParseResult<&Token> {
diff --git a/protospec-build/src/parser/types/mod.rs b/protospec-build/src/parser/types/mod.rs
index eae5dd6..4b7168a 100644
--- a/protospec-build/src/parser/types/mod.rs
+++ b/protospec-build/src/parser/types/mod.rs
@@ -16,6 +16,10 @@ mod bitfield;
 use bitfield::*;
 
 pub fn parse_type(t: &mut TokenIter) -> ParseResult<Type> {
+    t.nested(parse_type_inner)
+}
+
+fn parse_type_inner(t: &mut TokenIter) -> ParseResult<Type> {
     let start = t.peek_span()?;
 
     let raw_type = match t.peek()? {
@@ -58,7 +62,12 @@ pub fn parse_type(t: &mut TokenIter) -> ParseResult<Type> {
         raw_type,
     };
 
+    let mut dimensions = 0usize;
     while t.eat(Token::LeftSquare).is_some() {
+        dimensions += 1;
+        if dimensions > MAX_NESTING {
+            return Err(ParseError::TooComplex(t.peek_span()?));
+        }
         let length = parse_length_constraint(t)?;
         let end = t.expect(Token::RightSquare)?;
         out = Type {
-- 
2.43.0


From ea581d1f743cc9c07d2ed92f076580f3015de3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 23/39] fix: code generated in debug mode printed hash maps and
 so differed from one compilation to the next

---
 protospec-build/src/coder/decode/instruction.rs | 2 +-
 protospec-build/src/coder/decode/mod.rs         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index a72455b..bca4241 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -25,7 +25,7 @@ pub enum Constructable {
 
 #[derive(Debug)]
 pub enum Instruction {
-    Eval(usize, Expression, HashMap<String, usize>),
+    Eval(usize, Expression, BTreeMap<String, usize>),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 7afb1ba..c1c0770 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::asg::*;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashSet},
     sync::Arc,
 };
 
@@ -20,7 +20,7 @@ pub use container::*;
 #[derive(Debug)]
 pub struct Context {
     pub register_count: usize,
-    pub field_register_map: HashMap<String, usize>,
+    pub field_register_map: BTreeMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
     // registers that hold an `Option` of their field
@@ -40,7 +40,7 @@ impl Context {
         Context {
             name: String::new(),
             instructions: vec![],
-            field_register_map: HashMap::new(),
+            field_register_map: BTreeMap::new(),
             register_count: 0,
             optional_registers: HashSet::new(),
         }
-- 
2.43.0


From c2e43d32f8910a98d881df2e9c733de0dd607995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 24/39] fix: default values of type arguments did not compile,
 and passing one after required arguments was refused

---
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  2 +-
 .../src/coder/encode/instruction.rs           |  6 ++---
 protospec-build/src/coder/encode/var_ref.rs   |  6 ++++-
 protospec-build/src/coder/mod.rs              | 26 ++++++++++++++++++-
 protospec-build/src/compiler/decoder.rs       |  7 +----
 protospec-build/src/compiler/encoder.rs       |  7 +----
 protospec-build/src/compiler/mod.rs           | 14 ++++++++++
 .../src/semantics/convert/ffi_arguments.rs    |  6 +----
 .../src/semantics/convert/type_/type_ref.rs   |  7 +++--
 10 files changed, 54 insertions(+), 29 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index bca4241..4fab4ef 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -42,7 +42,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index c1c0770..3477599 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -159,7 +159,7 @@ impl Context {
                         source,
                         output,
                         r.target.name.clone(),
-                        args,
+                        RefArgument::collect(&r.target, &args[..]),
                     ));
                 }
                 output
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index b12d041..455004d 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -147,9 +147,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..029d149 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -23,7 +23,11 @@ impl Context {
                 args.push(r);
             }
             self.instructions
-                .push(Instruction::EncodeRef(target, source, args));
+                .push(Instruction::EncodeRef(
+                    target,
+                    source,
+                    RefArgument::collect(&type_.target, &args[..]),
+                ));
         }
     }
 }
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..cbfc6e5 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use proc_macro2::TokenStream;
 use quote::{ToTokens, TokenStreamExt};
 
-use crate::{EndianScalarType, ScalarType};
+use crate::{asg::Field, EndianScalarType, ScalarType};
 
 #[derive(Debug)]
 pub enum FieldRef {
@@ -29,6 +29,30 @@ impl Target {
     }
 }
 
+/// a register passed to the codec of another type
+#[derive(Debug)]
+pub enum RefArgument {
+    Required(usize),
+    /// the argument has a default, which is used if it is not given
+    Optional(Option<usize>),
+}
+
+impl RefArgument {
+    /// the arguments for a reference to `target`, of which `given` are present
+    pub fn collect(target: &Field, given: &[usize]) -> Vec<RefArgument> {
+        target
+            .arguments
+            .borrow()
+            .iter()
+            .enumerate()
+            .map(|(i, argument)| match argument.default_value {
+                Some(_) => RefArgument::Optional(given.get(i).copied()),
+                None => RefArgument::Required(given[i]),
+            })
+            .collect()
+    }
+}
+
 #[derive(Clone, Copy, Debug)]
 pub enum PrimitiveType {
     Bool,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index f9dce0f..6701b80 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -285,12 +285,7 @@ fn prepare_decode(
                 );
             }
             Instruction::DecodeRef(target, source, class, args) => {
-                let mut out_arguments = vec![];
-                for argument in args {
-                    let value = emit_register(*argument);
-                    out_arguments.push(quote! {, #value});
-                }
-                let out_arguments = flatten(out_arguments);
+                let out_arguments = emit_ref_arguments(args);
                 let target = emit_target(target);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index e7f5f74..d2e5cdd 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -236,12 +236,7 @@ impl EncoderContext {
                     });
                 }
                 Instruction::EncodeRef(target, source, args) => {
-                    let mut out_arguments = vec![];
-                    for argument in args {
-                        let value = emit_register(*argument);
-                        out_arguments.push(quote! {, #value});
-                    }
-                    let out_arguments = flatten(out_arguments);
+                    let out_arguments = emit_ref_arguments(args);
                     let target = emit_target(target);
                     let source = emit_register(*source);
                     if self.is_async {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index fe23ccc..ea0e619 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -308,6 +308,20 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+fn emit_ref_arguments(arguments: &[coder::RefArgument]) -> TokenStream {
+    flatten(arguments.iter().map(|argument| match argument {
+        coder::RefArgument::Required(register) => {
+            let value = emit_register(*register);
+            quote! {, #value}
+        }
+        coder::RefArgument::Optional(Some(register)) => {
+            let value = emit_register(*register);
+            quote! {, Some(#value)}
+        }
+        coder::RefArgument::Optional(None) => quote! {, None},
+    }))
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..8330060 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -10,11 +10,7 @@ impl Scope {
     ) -> AsgResult<Vec<Expression>> {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         // optionals MUST be at the end
-        if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
-                .iter()
-                .any(|x| !x.optional)
-        {
+        if type_arguments[..min_arg_count].iter().any(|x| x.optional) {
             unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
         }
         if arguments.len() < min_arg_count || arguments.len() > type_arguments.len() {
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..ff87b89 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -12,10 +12,9 @@ impl Scope {
                 .filter(|x| x.default_value.is_none())
                 .count();
             // optionals MUST be at the end
-            if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
-                    .iter()
-                    .any(|x| x.default_value.is_some())
+            if target_args[..min_arg_count]
+                .iter()
+                .any(|x| x.default_value.is_some())
             {
                 return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
             }
-- 
2.43.0


From fcfca7164ac6adab89f8092203da8ed2a2464d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 25/39] fix: a conditional container without values, such as
 one that only pads, could not be compiled

---
 protospec-build/src/coder/decode/field.rs | 3 ---
 protospec-build/src/compiler/decoder.rs   | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index f6b12dc..c076e74 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -58,9 +58,6 @@ impl Context {
         }
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
-            if emitted.is_empty() {
-                panic!("no emitted values from conditional");
-            }
             let interior = emitted
                 .iter()
                 .map(|register| (*register, !self.optional_registers.insert(*register)))
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6701b80..edf08f8 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -519,7 +519,7 @@ fn prepare_decode(
                     .map(emit_register)
                     .collect::<Vec<_>>();
                 let targets = flatten_separated(targets, quote! {,});
-                let targets = if target.len() > 1 {
+                let targets = if target.len() != 1 {
                     quote! { (#targets) }
                 } else {
                     targets
@@ -539,14 +539,14 @@ fn prepare_decode(
                 let anti_interiors = interior.iter().map(|_| quote! { None }).collect::<Vec<_>>();
 
                 let interiors = flatten_separated(interiors, quote! {,});
-                let interiors = if interior.len() > 1 {
+                let interiors = if interior.len() != 1 {
                     quote! { (#interiors) }
                 } else {
                     interiors
                 };
 
                 let anti_interiors = flatten_separated(anti_interiors, quote! {,});
-                let anti_interiors = if interior.len() > 1 {
+                let anti_interiors = if interior.len() != 1 {
                     quote! { (#anti_interiors) }
                 } else {
                     anti_interiors
-- 
2.43.0


From 4db40ed19260a77f933e9c272a239bc6f965c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 26/39] fix: the value of an optional field with ?: could not
 be used where another type is expected

---
 protospec-build/src/semantics/convert/expression/binary.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..639b4e3 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -22,6 +22,8 @@ impl Scope {
         let init_expected_type = match expr.op {
             Lt | Gt | Lte | Gte => PartialType::Scalar(PartialScalarType::None),
             Eq | Ne => PartialType::Any,
+            // the left side is optional: it is converted to the expected type once it is unwrapped
+            Elvis => PartialType::Any,
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
-- 
2.43.0


From f7e79650f7d1552b3ac9a418f7bd8ba1831b186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 27/39] fix: elements of arrays whose element type is not
 exactly the expected one could not be used in expressions, and indexing a
 named array type panicked

---
 .../convert/expression/array_index.rs         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/array_index.rs b/protospec-build/src/semantics/convert/expression/array_index.rs
index fed7f5d..c059991 100644
--- a/protospec-build/src/semantics/convert/expression/array_index.rs
+++ b/protospec-build/src/semantics/convert/expression/array_index.rs
@@ -4,14 +4,22 @@ impl Scope {
     pub(super) fn convert_array_index_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::ArrayIndexExpression,
-        expected_type: PartialType,
+        _expected_type: PartialType,
     ) -> AsgResult<ArrayIndexExpression> {
+        // any element will do here, the element itself is checked against the expected type
+        let array = Scope::convert_expr(self_, &expr.array, PartialType::Array(None))?;
+        match array.get_type() {
+            Some(Type::Array(_)) => (),
+            type_ => {
+                return Err(AsgError::UnexpectedType(
+                    type_.map(|x| x.to_string()).unwrap_or_default(),
+                    "array".to_string(),
+                    *expr.array.span(),
+                ))
+            }
+        }
         Ok(ArrayIndexExpression {
-            array: Box::new(Scope::convert_expr(
-                self_,
-                &expr.array,
-                PartialType::Array(Some(Box::new(expected_type))),
-            )?),
+            array: Box::new(array),
             index: Box::new(Scope::convert_expr(
                 self_,
                 &expr.index,
-- 
2.43.0


From 82204430633e34d81cf071147e66510347e62634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 28/39] fix: what follows a gzip field was misread when the
 field did not itself read to the end of the compressed data

---
 protospec-build/src/coder/decode/container.rs  |  5 ++++-
 protospec-build/src/coder/decode/field.rs      | 18 +++++++++++++++---
 .../src/coder/decode/instruction.rs            |  2 ++
 protospec-build/src/coder/decode/mod.rs        | 10 ++++++++--
 protospec-build/src/compiler/decoder.rs        | 17 +++++++++++++++++
 protospec-build/src/ffi/transform.rs           |  7 +++++++
 protospec-build/src/prelude/gzip.rs            | 12 ++++++++++++
 7 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/decode/container.rs b/protospec-build/src/coder/decode/container.rs
index 8e734ba..cbbc3a4 100644
--- a/protospec-build/src/coder/decode/container.rs
+++ b/protospec-build/src/coder/decode/container.rs
@@ -6,6 +6,7 @@ impl Context {
         field: &Arc<Field>,
         type_: &ContainerType,
         source: Target,
+        streams: &[TransformStream],
     ) -> Vec<usize> {
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
@@ -23,7 +24,7 @@ impl Context {
             source
         };
         if type_.is_enum.get() {
-            self.decode_enum_container(field, type_, buf_target)
+            self.decode_enum_container(field, type_, buf_target, streams)
         } else {
             let decoded = self.decode_struct_container(field, type_, buf_target);
             self.end_constrict(type_, buf_target);
@@ -86,6 +87,7 @@ impl Context {
         field: &Arc<Field>,
         type_: &ContainerType,
         buf_target: Target,
+        streams: &[TransformStream],
     ) -> Vec<usize> {
         assert!(type_.is_enum.get());
         for (name, child) in type_.items.iter() {
@@ -141,6 +143,7 @@ impl Context {
             self.end_constrict(type_, buf_target);
 
             if let Some(condition) = condition {
+                self.end_streams(streams);
                 self.instructions.push(Instruction::Return(target));
                 let drained = self.instructions.drain(start..).collect();
                 self.instructions
diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index c076e74..c9964b8 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -1,5 +1,8 @@
 use super::*;
 
+/// stream, condition if conditional, transformer
+pub type TransformStream = (usize, Option<usize>, Arc<Transform>);
+
 impl Context {
     pub fn decode_field_top(&mut self, field: &Arc<Field>) {
         assert!(field.toplevel);
@@ -77,7 +80,7 @@ impl Context {
         mut source: Target,
         field: &Arc<Field>,
     ) -> Vec<usize> {
-        let mut new_streams = vec![];
+        let mut new_streams: Vec<TransformStream> = vec![];
 
         for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
@@ -104,7 +107,7 @@ impl Context {
                 args.push(r);
             }
             let new_stream = self.alloc_register();
-            new_streams.push(new_stream);
+            new_streams.push((new_stream, condition, transform.transform.clone()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -128,8 +131,17 @@ impl Context {
         }
 
         //todo: assert condition matching actual presence
-        let emitted = self.decode_complex_type(source, field);
+        let emitted = self.decode_complex_type(source, field, &new_streams);
+        self.end_streams(&new_streams);
 
         emitted
     }
+
+    /// Ends the streams of a field's transforms once its value is decoded, the innermost first.
+    pub fn end_streams(&mut self, streams: &[TransformStream]) {
+        for (stream, condition, transform) in streams.iter().rev() {
+            self.instructions
+                .push(Instruction::EndStream(*stream, *condition, transform.clone()));
+        }
+    }
 }
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 4fab4ef..6c71f9e 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,6 +40,8 @@ pub enum Instruction {
         Arc<Transform>,
         Vec<usize>,
     ), // condition, prelude, stream, new stream, transformer, arguments
+    /// stream, condition if conditional, transformer
+    EndStream(usize, Option<usize>, Arc<Transform>),
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     DecodeRef(Target, usize, String, Vec<RefArgument>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 3477599..19f2f23 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -46,7 +46,13 @@ impl Context {
         }
     }
 
-    pub fn decode_complex_type(&mut self, source: Target, field: &Arc<Field>) -> Vec<usize> {
+    /// `streams` are those the field is read through
+    pub fn decode_complex_type(
+        &mut self,
+        source: Target,
+        field: &Arc<Field>,
+        streams: &[TransformStream],
+    ) -> Vec<usize> {
         if field.is_pad.get() {
             let array_type = field.type_.borrow();
             let array_type = match &*array_type {
@@ -65,7 +71,7 @@ impl Context {
             return vec![];
         }
         match &*field.type_.borrow() {
-            Type::Container(type_) => self.decode_container(field, &**type_, source),
+            Type::Container(type_) => self.decode_container(field, &**type_, source, streams),
             type_ => vec![self.decode_type(source, type_)],
         }
     }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index edf08f8..c78ef13 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -269,6 +269,23 @@ fn prepare_decode(
                     let #new_stream_value = &mut #new_stream_value;
                 })
             }
+            Instruction::EndStream(stream, condition, transformer) => {
+                let stream = emit_register(*stream);
+                let end = transformer
+                    .inner
+                    .decoding_end_gen(quote! { (*#stream) }, is_async);
+                statements.push(match condition {
+                    Some(condition) => {
+                        let condition = emit_register(*condition);
+                        quote! {
+                            if #condition {
+                                #end
+                            }
+                        }
+                    }
+                    None => end,
+                });
+            }
             Instruction::DecodeForeign(target, data, type_ref, args) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index a133774..e9c4ebd 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -13,6 +13,13 @@ pub trait ForeignTransform {
         is_async: bool,
     ) -> TokenStream;
 
+    /// Ends a decoding stream created by `decoding_gen` once everything wanted has been read from it: reads what of it is
+    /// left on the stream below, if that can be told from what follows it. `stream` is an expression of that stream's
+    /// type, or of a trait object for it, usable by mutable reference.
+    fn decoding_end_gen(&self, _stream: TokenStream, _is_async: bool) -> TokenStream {
+        quote! {}
+    }
+
     fn encoding_gen(
         &self,
         input_stream: TokenStream,
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index f33069b..bfc3ff7 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -20,6 +20,18 @@ impl ForeignTransform for GzipTransform {
         }
     }
 
+    fn decoding_end_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        if is_async {
+            quote! {
+                tokio::io::copy_buf(&mut #stream, &mut tokio::io::sink()).await?;
+            }
+        } else {
+            quote! {
+                std::io::copy(&mut #stream, &mut std::io::sink())?;
+            }
+        }
+    }
+
     fn encoding_gen(
         &self,
         input_stream: TokenStream,
-- 
2.43.0


From 82b327518fb06cc885c45250d2ce569ba7828d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 29/39] fix: encoding through gzip failed when a large write
 was interrupted

---
 protospec-build/src/prelude/gzip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index bfc3ff7..ff2c612 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -44,7 +44,8 @@ impl ForeignTransform for GzipTransform {
             }
         } else {
             quote! {
-                flate2::write::GzEncoder::new(std::io::BufWriter::new(#input_stream), flate2::Compression::default())
+                // room for more than the encoder writes at once: the buffer retries interrupted writes, ending the encoder does not
+                flate2::write::GzEncoder::new(std::io::BufWriter::with_capacity(64 * 1024, #input_stream), flate2::Compression::default())
             }
         }
     }
-- 
2.43.0


From c383e71c7a6773000c4502bd8cf7c7080063e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:47 +0000
Subject: [PATCH 30/39] fix: enum values and bitfield flags that cannot be
 computed crashed the compiler, or wrapped around in optimised builds

---
 .../src/asg/expression/const_int.rs           | 35 ++++++++++++++-----
 protospec-build/src/compiler/expr.rs          | 21 +++--------
 protospec-build/src/compiler/mod.rs           |  1 +
 .../src/semantics/convert/type_/bitfield.rs   |  8 ++++-
 .../src/semantics/convert/type_/enum_.rs      |  5 ++-
 protospec-build/src/semantics/error.rs        |  2 ++
 6 files changed, 46 insertions(+), 26 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..5764dc3 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,4 +1,5 @@
 use super::*;
+use std::convert::TryFrom;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum ConstInt {
@@ -50,6 +51,24 @@ macro_rules! const_int_biop_map {
     };
 }
 
+macro_rules! const_int_biop_checked {
+    ($e1: expr, $e2: expr, $i1: ident, $i2: ident, $op: expr) => {
+        Some(match ($e1, $e2) {
+            (ConstInt::I8($i1), ConstInt::I8($i2)) => ConstInt::I8($op?),
+            (ConstInt::I16($i1), ConstInt::I16($i2)) => ConstInt::I16($op?),
+            (ConstInt::I32($i1), ConstInt::I32($i2)) => ConstInt::I32($op?),
+            (ConstInt::I64($i1), ConstInt::I64($i2)) => ConstInt::I64($op?),
+            (ConstInt::I128($i1), ConstInt::I128($i2)) => ConstInt::I128($op?),
+            (ConstInt::U8($i1), ConstInt::U8($i2)) => ConstInt::U8($op?),
+            (ConstInt::U16($i1), ConstInt::U16($i2)) => ConstInt::U16($op?),
+            (ConstInt::U32($i1), ConstInt::U32($i2)) => ConstInt::U32($op?),
+            (ConstInt::U64($i1), ConstInt::U64($i2)) => ConstInt::U64($op?),
+            (ConstInt::U128($i1), ConstInt::U128($i2)) => ConstInt::U128($op?),
+            _ => return None,
+        })
+    };
+}
+
 macro_rules! const_int_map {
     ($e1: expr, $i1: ident, $sop: expr, $usop: expr) => {
         match $e1 {
@@ -118,7 +137,7 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_shr(u32::try_from(i2).ok()?))
     }
 }
 
@@ -126,7 +145,7 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_shl(u32::try_from(i2).ok()?))
     }
 }
 
@@ -134,7 +153,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_add(i2))
     }
 }
 
@@ -142,7 +161,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_sub(i2))
     }
 }
 
@@ -150,7 +169,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_mul(i2))
     }
 }
 
@@ -158,7 +177,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_div(i2))
     }
 }
 
@@ -166,7 +185,7 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_rem(i2))
     }
 }
 
@@ -175,7 +194,7 @@ impl Neg for ConstInt {
 
     #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        const_int_map!(self, i1, i1.checked_neg()?, return None)
     }
 }
 
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 3295efd..16b816a 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -191,9 +191,8 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
                 BinaryOp::Div => ConstValue::Int((left.to_int()? / right.to_int()?)?),
                 BinaryOp::Mod => ConstValue::Int((left.to_int()? % right.to_int()?)?),
-                BinaryOp::Elvis => {
-                    unimplemented!("cannot use elvis operator (?:) in const context")
-                }
+                // not supported in const context
+                BinaryOp::Elvis => return None,
             })
         }
         Member(c) => {
@@ -204,7 +203,7 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                     // todo: find better way to get same-typed zero
                     Some(ConstValue::Bool((target & member)? != (member - member)?))
                 }
-                _ => unimplemented!("can not use member exprs on nonint targets"),
+                _ => None,
             }
         }
         Unary(c) => {
@@ -219,18 +218,11 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             let inner = eval_const_expression(&c.inner)?;
             inner.cast_to(&c.type_)
         }
-        ArrayIndex(_) => {
-            unimplemented!("can not use array indexing in const")
-        }
+        // not supported in const context
+        ArrayIndex(_) | Call(_) | InputRef(_) | FieldRef(_) => None,
         EnumAccess(c) => eval_const_expression(&c.variant.value),
         Int(c) => Some(ConstValue::Int(c.value)),
         ConstRef(c) => eval_const_expression(&c.value),
-        InputRef(_) => {
-            unimplemented!("cannot access input in constant");
-        }
-        FieldRef(_) => {
-            unimplemented!("cannot access field in constant");
-        }
         Str(c) => Some(ConstValue::String(c.content.clone())),
         Ternary(c) => {
             let condition = eval_const_expression(&c.condition)?;
@@ -244,9 +236,6 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             }
         }
         Bool(c) => Some(ConstValue::Bool(*c)),
-        Call(_) => {
-            unimplemented!("cannot call ffi in constant");
-        }
     }
 }
 
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index ea0e619..3d5f778 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -12,6 +12,7 @@ mod decoder;
 pub(crate) use decoder::{emit_byte_size, emit_read_raw};
 mod encoder;
 mod expr;
+pub(crate) use expr::{eval_const_expression, ConstValue};
 
 pub fn global_name(input: &str) -> String {
     input.to_string()
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..1e2bd65 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::compiler::{eval_const_expression, ConstValue};
 
 impl Scope {
     pub(super) fn convert_bitfield_type(
@@ -17,7 +18,6 @@ impl Scope {
                     prior.span,
                 ));
             }
-            //todo: static eval here
             let cons = Arc::new(Const {
                 name: name.name.clone(),
                 span: type_.span,
@@ -46,6 +46,12 @@ impl Scope {
                     }),
                 },
             });
+            if !matches!(
+                eval_const_expression(&cons.value),
+                Some(ConstValue::Int(_))
+            ) {
+                return Err(AsgError::InvalidConst(name.name.clone(), name.span));
+            }
             if item.is_some() {
                 last_defined_item = Some(cons.clone());
                 undefined_counter = 1;
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..6558902 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::compiler::eval_const_expression;
 
 impl Scope {
     pub(super) fn convert_enum_type(
@@ -23,7 +24,6 @@ impl Scope {
                     name.span,
                 ));
             }
-            //todo: static eval here
             let value = match item {
                 ast::EnumValue::Default => {
                     has_default = true;
@@ -54,6 +54,9 @@ impl Scope {
                             span: type_.span,
                         }),
                     };
+                    if eval_const_expression(&value).is_none() {
+                        return Err(AsgError::InvalidConst(name.name.clone(), name.span));
+                    }
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
                         span: type_.span,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index a239688..c007a3b 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -65,6 +65,8 @@ pub enum AsgError {
     UninferredType(Span),
     #[error("could not parse int {0} @ {1} @ {1}")]
     InvalidInt(String, Span),
+    #[error("value of '{0}' @ {1} cannot be computed at compile time")]
+    InvalidConst(String, Span),
     #[error("invalid number of arguments for ffi, expected {0} to {1} arguments, got {2} @ {3}")]
     InvalidFFIArgumentCount(usize, usize, usize, Span),
     #[error("invalid number of arguments for type, expected {0} to {1} arguments, got {2} @ {3}")]
-- 
2.43.0


From 0066c7acbcd0196197cd2585c73d00bbe1a0a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:37 +0000
Subject: [PATCH 31/39] fix: an unknown name at the start of a long expression,
 or nested unary operators, took time exponential in the length of the
 expression

---
 .../src/semantics/convert/expression/binary.rs      | 13 +++++++++++++
 .../src/semantics/convert/expression/unary.rs       |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 639b4e3..1347cf1 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -28,6 +28,19 @@ impl Scope {
             _ => expected_type.clone(),
         };
         let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
+        // the type of the right side may tell the type of the left side, if that is still open
+        let open = match (&init_expected_type, &*expr.left) {
+            (PartialType::Type(_), _) | (PartialType::Scalar(PartialScalarType::Some(_)), _) => {
+                false
+            }
+            (_, ast::Expression::Binary(left)) => {
+                !matches!(left.op, Lt | Gt | Lte | Gte | Eq | Ne | Or | And)
+            }
+            _ => true,
+        };
+        if left.is_err() && !open {
+            left = Ok(left?);
+        }
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..0cf311f 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -47,7 +47,7 @@ impl Scope {
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner,
             span: expr.span,
         })
     }
-- 
2.43.0


From e8285643eb33732ad0c418251eb728f402fea3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 32/39] fix: a tagged_enum container without fields crashed the
 compiler

---
 protospec-build/src/semantics/convert/type_/container.rs | 4 ++++
 protospec-build/src/semantics/error.rs                   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..1cd2086 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -32,6 +32,10 @@ impl Scope {
             return Err(AsgError::MustBeToplevel(type_.span));
         }
 
+        if is_enum && type_.items.is_empty() {
+            return Err(AsgError::EnumContainerEmpty(type_.span));
+        }
+
         let mut items: IndexMap<String, Arc<Field>> = IndexMap::new();
         let sub_scope = Arc::new(RefCell::new(Scope {
             parent_scope: Some(self_.clone()),
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index c007a3b..750b5b1 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -85,6 +85,8 @@ pub enum AsgError {
     EnumContainerFieldAfterUnconditional(Span),
     #[error("cannot have pad in enum container @ {0}")]
     EnumContainerPad(Span),
+    #[error("enum container has no fields @ {0}")]
+    EnumContainerEmpty(Span),
     #[error("type `{0}` does not implement auto receiving @ {1}")]
     TypeNotAutoCompatible(String, Span),
     #[error("referenced bitfield member `{0}` does not exist @ {1}")]
-- 
2.43.0


From eab60c21ee98dd6dccdbdf6d2e209ce3f8093482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 33/39] fix: computed fields that depend on themselves, or blen
 of something that has no declared length or comes earlier, crashed the
 compiler

---
 protospec-build/src/coder/encode/container.rs | 12 ++---
 protospec-build/src/coder/encode/mod.rs       | 47 +++++++++++++++++++
 .../src/semantics/convert/expression/call.rs  |  8 ++++
 .../src/semantics/convert/program/mod.rs      | 12 +++++
 protospec-build/src/semantics/error.rs        |  2 +
 5 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 7448e12..d03ba5e 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -222,8 +222,8 @@ impl Context {
                     .push(Instruction::EmitBuf(target, auto_target));
             }
         }
-        for (_, auto_field) in auto_targets {
-            panic!("unused auto field: {}", auto_field.name);
+        if let Some((_, auto_field)) = auto_targets.first() {
+            self.unresolvable = Some(auto_field.name.clone());
         }
     }
 
@@ -412,7 +412,7 @@ impl Expression {
                     let target = expr.arguments.first().unwrap();
                     let name = match target {
                         Expression::FieldRef(f) => f.name.clone(),
-                        _ => panic!("invalid blen target, expected field ref"), // todo: better error message
+                        _ => unreachable!("invalid blen target, expected field ref"),
                     };
                     let new_name = map.get(&name).expect("malformed blen map");
                     *self = Expression::FieldRef(Arc::new(Field {
@@ -435,13 +435,13 @@ impl Expression {
         }
     }
 
-    fn blen_calls(&self) -> Vec<String> {
+    pub(super) fn blen_calls(&self) -> Vec<String> {
         let mut out = IndexSet::new();
         self.extract_magic_blen_calls(&mut out);
         out.into_iter().collect()
     }
 
-    fn field_refs(&self) -> IndexSet<String> {
+    pub(super) fn field_refs(&self) -> IndexSet<String> {
         let mut out = IndexSet::new();
         self.extract_field_refs(&mut out);
         out
@@ -519,7 +519,7 @@ impl Expression {
                     let target = expr.arguments.first().unwrap();
                     output.insert(match target {
                         Expression::FieldRef(f) => f.name.clone(),
-                        _ => panic!("invalid blen target, expected field ref"), // todo: better error message
+                        _ => unreachable!("invalid blen target, expected field ref"),
                     });
                 }
             }
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index 2e1879d..41fd4f3 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -31,6 +31,8 @@ pub struct Context {
     pub unresolved_calculated: IndexSet<String>,
     // declared length and buffer of blen-targets that were not compared yet
     pub unchecked_lengths: Vec<(Expression, usize)>,
+    // computed field whose value never becomes known, if any
+    pub unresolvable: Option<String>,
 }
 
 impl Context {
@@ -50,9 +52,54 @@ impl Context {
             pending_autos: IndexSet::new(),
             unresolved_calculated: IndexSet::new(),
             unchecked_lengths: vec![],
+            unresolvable: None,
         }
     }
 
+    /// Name of a field whose value is needed before it can be known, if any.
+    pub fn unresolvable_field(&self) -> Option<String> {
+        fn visit(instructions: &[Instruction], known: &mut IndexSet<String>) -> Option<String> {
+            for instruction in instructions {
+                match instruction {
+                    Instruction::Eval(_, expr) => {
+                        if let Some(name) = expr.blen_calls().into_iter().next() {
+                            return Some(name);
+                        }
+                        let unknown = expr.field_refs().into_iter().find(|x| !known.contains(x));
+                        if unknown.is_some() {
+                            return unknown;
+                        }
+                    }
+                    Instruction::GetRef(_, name) if !known.contains(name) => {
+                        return Some(name.clone());
+                    }
+                    Instruction::SetRef(name, _) => {
+                        known.insert(name.clone());
+                    }
+                    Instruction::Loop(_, _, inner)
+                    | Instruction::ConditionalWrapStream(_, inner, ..)
+                    | Instruction::BreakBlock(inner) => {
+                        let unknown = visit(inner, known);
+                        if unknown.is_some() {
+                            return unknown;
+                        }
+                    }
+                    Instruction::Conditional(_, if_true, if_false) => {
+                        let unknown = visit(if_true, known).or_else(|| visit(if_false, known));
+                        if unknown.is_some() {
+                            return unknown;
+                        }
+                    }
+                    _ => (),
+                }
+            }
+            None
+        }
+        self.unresolvable
+            .clone()
+            .or_else(|| visit(&self.instructions, &mut IndexSet::new()))
+    }
+
     pub fn encode_complex_type(
         &mut self,
         field: &Arc<Field>,
diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index e07e7ff..1baa475 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -26,6 +26,14 @@ impl Scope {
             &function.arguments[..],
         )?;
 
+        if function.name == "blen" && !matches!(arguments[0], Expression::FieldRef(_)) {
+            return Err(AsgError::UnexpectedType(
+                "expression".to_string(),
+                "field".to_string(),
+                expr.span,
+            ));
+        }
+
         Ok(CallExpression {
             function,
             arguments,
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 866e72f..19c2bbe 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -11,6 +11,17 @@ mod field;
 mod const_;
 
 impl Program {
+    fn check_encodable(&self) -> AsgResult<()> {
+        for (_, field) in &self.types {
+            let mut context = crate::coder::encode::Context::new();
+            context.encode_field_top(field);
+            if let Some(name) = context.unresolvable_field() {
+                return Err(AsgError::UnresolvableField(name, field.span));
+            }
+        }
+        Ok(())
+    }
+
     pub fn from_ast<'a, T: ImportResolver + 'static>(
         ast: &ast::Program,
         resolver: &'a T,
@@ -136,6 +147,7 @@ impl Program {
 
         program.collect_imported()?;
         program.scan_cycles();
+        program.check_encodable()?;
         Ok(program)
     }
 }
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 750b5b1..4d9abe5 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -87,6 +87,8 @@ pub enum AsgError {
     EnumContainerPad(Span),
     #[error("enum container has no fields @ {0}")]
     EnumContainerEmpty(Span),
+    #[error("value of field '{0}' @ {1} is needed before it can be known")]
+    UnresolvableField(String, Span),
     #[error("type `{0}` does not implement auto receiving @ {1}")]
     TypeNotAutoCompatible(String, Span),
     #[error("referenced bitfield member `{0}` does not exist @ {1}")]
-- 
2.43.0


From b8c974287fe9fba10f2ecb0cf87f23206cf268fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:25 +0000
Subject: [PATCH 34/39] fix: sum of something that is not an array of numbers,
 and len of a container, crashed the compiler

---
 protospec-build/src/ffi/function.rs               |  5 +++++
 protospec-build/src/prelude/len.rs                |  4 ++++
 protospec-build/src/prelude/sum.rs                | 15 +++++++--------
 .../src/semantics/convert/expression/call.rs      | 12 ++++++++++++
 protospec-build/src/semantics/error.rs            |  2 ++
 5 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/ffi/function.rs b/protospec-build/src/ffi/function.rs
index f21af49..c510796 100644
--- a/protospec-build/src/ffi/function.rs
+++ b/protospec-build/src/ffi/function.rs
@@ -9,5 +9,10 @@ pub trait ForeignFunction {
 
     fn return_type(&self) -> Type;
 
+    /// whether values of these types can be passed, for arguments without a fixed type
+    fn accepts(&self, _arguments: &[Type]) -> bool {
+        true
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream;
 }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..adda31c 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -50,6 +50,10 @@ impl ForeignFunction for LenFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
+    fn accepts(&self, arguments: &[Type]) -> bool {
+        !matches!(&*arguments[0].resolved(), Type::Container(_))
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         self.len(&arguments[0].type_, &arguments[0].value)
     }
diff --git a/protospec-build/src/prelude/sum.rs b/protospec-build/src/prelude/sum.rs
index 93c9112..28d6b01 100644
--- a/protospec-build/src/prelude/sum.rs
+++ b/protospec-build/src/prelude/sum.rs
@@ -15,15 +15,14 @@ impl ForeignFunction for SumFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
-    fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
-        let type_ = &arguments[0].type_;
-        match type_ {
-            Type::Array(inner) => match &*inner.element {
-                Type::Scalar(_) => (),
-                _ => panic!("invalid array interior type for sum"),
-            },
-            _ => panic!("invalid type for sum, expected array"),
+    fn accepts(&self, arguments: &[Type]) -> bool {
+        match &arguments[0] {
+            Type::Array(inner) => matches!(&*inner.element, Type::Scalar(_)),
+            _ => false,
         }
+    }
+
+    fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         let input = &arguments[0].value;
         return quote! {
             (#input
diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index 1baa475..b732538 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -34,6 +34,18 @@ impl Scope {
             ));
         }
 
+        let types = arguments
+            .iter()
+            .map(|x| x.get_type())
+            .collect::<Option<Vec<Type>>>()
+            .ok_or(AsgError::UninferredType(expr.span))?;
+        if !function.inner.accepts(&types[..]) {
+            return Err(AsgError::InvalidFunctionArguments(
+                function.name.clone(),
+                expr.span,
+            ));
+        }
+
         Ok(CallExpression {
             function,
             arguments,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 4d9abe5..0a8de48 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -69,6 +69,8 @@ pub enum AsgError {
     InvalidConst(String, Span),
     #[error("invalid number of arguments for ffi, expected {0} to {1} arguments, got {2} @ {3}")]
     InvalidFFIArgumentCount(usize, usize, usize, Span),
+    #[error("function '{0}' @ {1} does not apply to arguments of this type")]
+    InvalidFunctionArguments(String, Span),
     #[error("invalid number of arguments for type, expected {0} to {1} arguments, got {2} @ {3}")]
     InvalidTypeArgumentCount(usize, usize, usize, Span),
     #[error("cannot have required arguments after optional arguments for type @ {0}")]
-- 
2.43.0


From 08588ee6178b4462162011abc6b46a9266081c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 35/39] fix: a number used where an enum or bitfield is
 expected crashed the compiler or generated code that does not compile

---
 protospec-build/src/compiler/expr.rs | 19 ++++++++++---------
 protospec-build/src/compiler/mod.rs  |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 16b816a..4101760 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -352,20 +352,21 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         Cast(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
             let target = emit_type_ref(&c.type_);
-            match &*c.inner.get_type().unwrap().resolved() {
-                Type::Enum(_) => {
-                    quote! {
-                        ((#inner).to_repr() as #target)
-                    }
-                }
-                Type::Bitfield(_) => {
+            let value = match &*c.inner.get_type().unwrap().resolved() {
+                Type::Enum(_) => quote! { (#inner).to_repr() },
+                Type::Bitfield(_) => quote! { (#inner).0 },
+                _ => quote! { (#inner) },
+            };
+            match &*c.type_.resolved() {
+                Type::Enum(EnumType { rep, .. }) | Type::Bitfield(BitfieldType { rep, .. }) => {
+                    let rep = emit_ident(&rep.scalar.to_string());
                     quote! {
-                        ((#inner).0 as #target)
+                        (#target::from_repr(#value as #rep)?)
                     }
                 }
                 _ => {
                     quote! {
-                        ((#inner) as #target)
+                        (#value as #target)
                     }
                 }
             }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 3d5f778..54462b5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -348,7 +348,7 @@ pub fn emit_type_ref(item: &Type) -> TokenStream {
     match item {
         Type::Container(_) => unimplemented!(),
         Type::Enum(enum_type) => emit_ident(&*enum_type.name),
-        Type::Bitfield(_) => unimplemented!(),
+        Type::Bitfield(bitfield_type) => emit_ident(&*bitfield_type.name),
         Type::Scalar(s) => emit_ident(&s.scalar.to_string()),
         Type::Array(array_type) => {
             let interior = emit_type_ref(&*array_type.element);
-- 
2.43.0


From 27d2ab354f3ecc5f8ce2917e33e0183f62b705d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:56 +0000
Subject: [PATCH 36/39] fix: a type argument could collide with a local
 variable of the generated code

---
 protospec-build/src/compiler/expr.rs |  5 +----
 protospec-build/src/compiler/mod.rs  | 10 +++++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 4101760..d8f4066 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -405,10 +405,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         ConstRef(c) => emit_expression(&c.value, ref_resolver),
         InputRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
-            }
+            emit_argument(&c.name)
         }
         FieldRef(c) => ref_resolver(c),
         Str(c) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 54462b5..4714b1d 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -228,7 +228,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
+        let name = emit_argument(&argument.name);
         let type_ref = emit_type_ref(&argument.type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
@@ -302,6 +302,14 @@ fn emit_ident(name: &str) -> TokenStream {
     }
 }
 
+/// prefixed, so that no name in a specification can collide with a local variable of the generated code
+fn emit_argument(name: &str) -> TokenStream {
+    let ident = format_ident!("arg_{}", name);
+    quote! {
+        #ident
+    }
+}
+
 fn emit_register(register: usize) -> TokenStream {
     let ident = format_ident!("r_{}", register);
     quote! {
-- 
2.43.0


From 6a55769c4b57b307f0377b1f6df33759fa0451a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 37/39] fix: padding replaced a field named _pad0

---
 protospec-build/src/semantics/convert/type_/container.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 1cd2086..d39e1fd 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -98,7 +98,8 @@ impl Scope {
                     if is_enum {
                         return Err(AsgError::EnumContainerPad(*expr.span()));
                     }
-                    let name = format!("_pad{}", pad_count);
+                    // not an identifier, so that it cannot replace a declared field
+                    let name = format!(".pad{}", pad_count);
                     pad_count += 1;
 
                     let len = Scope::convert_expr(
-- 
2.43.0


From 05e5ce6cdc5f5e9276b39c61f0fc5f445f37ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:48 +0000
Subject: [PATCH 38/39] fix: a container as the type of an argument crashed the
 compiler

---
 protospec-build/src/semantics/convert/type_/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/semantics/convert/type_/mod.rs b/protospec-build/src/semantics/convert/type_/mod.rs
index 33694c7..210d5f8 100644
--- a/protospec-build/src/semantics/convert/type_/mod.rs
+++ b/protospec-build/src/semantics/convert/type_/mod.rs
@@ -30,6 +30,9 @@ impl Scope {
                 if matches!(purpose, TypePurpose::ArrayInterior) {
                     return Err(AsgError::InlineRepetition(type_.span));
                 }
+                if matches!(purpose, TypePurpose::Expression) {
+                    return Err(AsgError::MustBeToplevel(type_.span));
+                }
                 Self::convert_container_type(self_, type_, purpose)?
             }
             ast::RawType::Enum(type_) => {
-- 
2.43.0


From e3ea32a11160aa9fc194792ce6e85b039e12ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:12 +0000
Subject: [PATCH 39/39] fix: a 32-bit float is widened where a 64-bit one is
 expected, and a 64-bit one is one

---
 protospec-build/src/asg/types/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 7bfcae2..09dd4ec 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -103,7 +103,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
-            (Type::F64, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
         }
@@ -132,6 +132,7 @@ impl Type {
                 true
             }
             (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar.can_implicit_cast_to(&s2.scalar),
+            (Type::F32, Type::F64) => true,
             (_, _) => false,
         }
     }
-- 
2.43.0

