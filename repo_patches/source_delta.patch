From 75e76c0339315cfa3c1026229648d5b1a93f8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 01/29] fix: make serialized ByteCode, InitInfo and Locations
 readable again in any serde format

The version tag could only be deserialized by self-describing formats with native
128-bit integers, so anything written by e.g. serde_json or bincode could never be read back.
---
 src/bytecode.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..2fb0d04 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1115,6 +1115,18 @@ impl BinaryWrite for Instruction<'_> {
     }
 }
 
+/// Deserializes a version tag as a plain [`u128`].
+/// 
+/// The default implementation requires the data format to be self-describing and to natively represent 128-bit integers,
+/// which would make it impossible to read back values that were written in most formats.
+#[cfg(feature = "serde")]
+fn deserialize_tag<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<MustBeU128<FINGERPRINT>, D::Error> {
+    match u128::deserialize(deserializer)? {
+        FINGERPRINT => Ok(Default::default()),
+        x => Err(serde::de::Error::custom(format_args!("invalid version tag {x}, expected {FINGERPRINT}"))),
+    }
+}
+
 /// An interpreter-ready sequence of instructions.
 ///
 /// [`Process`](crate::process::Process) is an execution primitive that can be used to execute generated [`ByteCode`].
@@ -1127,6 +1139,7 @@ impl BinaryWrite for Instruction<'_> {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ByteCode {
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_tag"))]
     #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
 
     pub(crate) code: Box<[u8]>,
@@ -1171,6 +1184,7 @@ pub(crate) struct EntityInitInfo {
 /// This type supports serde serialization if the `serde` feature flag is enabled.
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct InitInfo {
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_tag"))]
     #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
 
     pub(crate) proj_name: CompactString,
@@ -1244,6 +1258,7 @@ fn test_locations_tokenizer() {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 #[derive(Debug)]
 pub struct Locations {
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_tag"))]
     #[allow(dead_code)] tag: MustBeU128<FINGERPRINT>,
 
     prefix: CompactString,
-- 
2.43.0


From 87abe824d35b6c889733e9f76c16c2b42e11d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 02/29] fix: a script which broadcasts to itself no longer
 panics when other scripts receive the message too

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..77afc7d 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -369,7 +369,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                     }
                                 }
 
-                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
+                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: self.state.processes.get(proc_key) }); // the broadcaster may be gone by now if it's one of its own receivers
 
                                 all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                                 self.scripts[i].stop_all(&mut self.state);
-- 
2.43.0


From b111ddb37b44ff15ce2389f000967ce0b208d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 03/29] fix: a script's queued contexts run after the script
 stops itself

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index 77afc7d..67fd59f 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -389,6 +389,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
-- 
2.43.0


From 2e4e79a8c07d7fb1b09ad68bbf355116ca0e48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 04/29] fix: stopping all scripts also discards their queued
 contexts, as the stop button does

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 67fd59f..d2d15cc 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -396,6 +396,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                         debug_assert!(!proc.is_running());
                         self.state.processes.clear();
                         self.state.process_queue.clear();
+                        for script in self.scripts.iter_mut() {
+                            script.context_queue.clear();
+                        }
                         ProjectStep::Normal
                     }
                     AbortMode::Others => {
-- 
2.43.0


From 207e656463b1459bacf3a16822935a689cc643da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 05/29] fix: queued contexts run after the last running process
 deletes its own clone

---
 src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/project.rs b/src/project.rs
index d2d15cc..2ee0972 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -356,6 +356,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     debug_assert!(clone.borrow().original.is_some());
                     self.scripts.retain_mut(|script| !Gc::ptr_eq(script.entity, clone));
                     self.state.processes.retain_mut(|_, proc| !Gc::ptr_eq(proc.get_call_stack().first().unwrap().entity, clone));
+                    all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                     self.state.process_queue.push_front(proc_key); // keep executing the same process as before
                     ProjectStep::Normal
                 }
-- 
2.43.0


From 9a9c902490f6a409c2dbf546526a3db70b1c4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 06/29] fix: a script's queued contexts run even if its process
 ends in the step which receives a message

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 2ee0972..9174c64 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -266,7 +266,6 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
         let mut all_contexts_consumer = AllContextsConsumer::new();
-
         let msg = self.state.global_context.borrow().system.receive_message();
         if let Some(IncomingMessage { msg_type, values, reply_key }) = msg {
             let values: BTreeMap<_,_> = values.into_iter().collect();
@@ -288,6 +287,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
         }
 
+        let mut all_contexts_consumer = AllContextsConsumer::new(); // the message was handled before this step, which can drop a process
         let (proc_key, proc) = loop {
             match self.state.process_queue.pop_front() {
                 None => {
-- 
2.43.0


From f3f86d835a8d1cb3bb9c85c44849fa4e54f7034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 07/29] fix: a key up input no longer panics

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 9174c64..c287862 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // key down is not held over, so there is nothing to release
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From d53a69012a7970bbf95594c7647110847405e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 08/29] fix: the call depth limit also applies to closures

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..64cb8cb 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -949,6 +949,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     true => self.value_stack.pop().unwrap().as_entity()?,
                 };
 
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 self.call_stack.push(CallFrame {
                     called_from: self.pos,
                     return_to: aft_pos,
-- 
2.43.0


From 1b2fce77f0ab02082869ce5a5acb07af98b6493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 09/29] fix: the modulus of a number and one of its divisors is
 zero, regardless of signs

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..6e8cdcb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let rem = a % b;
+    if rem.is_zero() { T::zero() } else if rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }
 }
-- 
2.43.0


From d45bb5262f1af6032eede8b311b01fdbfb45d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 10/29] fix: pointing towards a position no longer swaps its
 coordinates

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 64cb8cb..a3a7a14 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1448,8 +1448,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From 3ef6d180d6a1fee66673940d1d4e9a3418f845ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 11/29] fix: numeric notes past 255 are rejected rather than
 wrapped around

---
 src/process.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index a3a7a14..f1a2cd3 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1531,9 +1531,7 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            return u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false)).ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
-- 
2.43.0


From db9e25527bed52c64576105025780a4ebcd019b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 12/29] fix: named notes out of the midi range are rejected
 rather than wrapped around or overflowed

---
 src/runtime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..1d5df60 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1887,11 +1887,11 @@ impl Note {
         }
         let mut octave = octave?;
         if note >= 3 {
-            octave -= 1;
+            octave = octave.checked_sub(1)?;
         }
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = octave.checked_mul(12)?.checked_add(21 + note)?.checked_add(delta)?;
+        Self::from_midi(u8::try_from(value).ok()?, natural)
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
-- 
2.43.0


From 35a25b435b8b70e203fd1fda67714f0da3993d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 13/29] fix: the frequency and name of a note no longer include
 its natural flag

---
 src/runtime.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 1d5df60..5494ae5 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1899,12 +1899,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let midi = self.get_midi().0;
+        let octave = midi as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((midi as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From 641f6cfe75dd86b7ed3b8ef4a9e1705b5dba76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 14/29] fix: error locations name the innermost block that
 generated the failing instruction

---
 src/bytecode.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 2fb0d04..d385450 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1454,7 +1454,7 @@ struct ByteCodeBuilder<'a: 'b, 'b> {
     ins: Vec<InternalInstruction<'b>>,
     call_holes: Vec<(usize, &'a ast::FnRef, Option<&'a ast::Entity>)>, // (hole pos, function, entity)
     closure_holes: VecDeque<(usize, &'a [ast::VariableDef], &'a [ast::VariableRef], &'a [ast::Stmt], Option<&'a ast::Entity>)>, // (hole pos, params, captures, stmts, entity)
-    ins_locations: BTreeMap<usize, &'a str>,
+    ins_locations: Vec<(usize, usize, &'a str)>, // (start, stop, location) ranges, where inner blocks come before the blocks that contain them
     string_arena: &'b typed_arena::Arena<CompactString>,
 }
 impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
@@ -1512,6 +1512,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         Ok(())
     }
     fn append_expr(&mut self, expr: &'a ast::Expr, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let start_pos = self.ins.len();
         match &expr.kind {
             ast::ExprKind::Value(v) => self.append_value(v, entity)?,
             ast::ExprKind::Variable { var } => self.ins.push(Instruction::PushVariable { var: &var.trans_name }.into()),
@@ -1878,12 +1879,13 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         }
 
         if let Some(location) = expr.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
+            self.ins_locations.push((start_pos, self.ins.len(), location));
         }
 
         Ok(())
     }
     fn append_stmt(&mut self, stmt: &'a ast::Stmt, entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {
+        let start_pos = self.ins.len();
         match &stmt.kind {
             ast::StmtKind::Assign { var, value } => self.append_simple_ins(entity, &[value], Instruction::Assign { var: &var.trans_name })?,
             ast::StmtKind::AddAssign { var, value } => self.append_simple_ins(entity, &[value], Instruction::BinaryOpAssign { var: &var.trans_name, op: BinaryOp::Add })?,
@@ -2264,7 +2266,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
         }
 
         if let Some(location) = stmt.info.location.as_deref() {
-            self.ins_locations.insert(self.ins.len(), location);
+            self.ins_locations.push((start_pos, self.ins.len(), location));
         }
 
         Ok(())
@@ -2459,7 +2461,23 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
             for func in entity.1.funcs.iter_mut() { func.1 = final_ins_pos[func.1]; }
             for script in entity.1.scripts.iter_mut() { script.1 = final_ins_pos[script.1]; }
         }
-        let locations = Locations::condense(&self.ins_locations.iter().map(|(p, v)| (final_ins_pos[*p], *v)).collect())?;
+
+        // assign each instruction the location of the innermost block that generated it
+        let mut locations = vec![None; final_ins_pos.len()];
+        for (start, stop, location) in self.ins_locations.iter().copied() {
+            for slot in locations[start..stop].iter_mut() {
+                slot.get_or_insert(location);
+            }
+        }
+
+        // lookups get the first entry past a position, so we only need the end of each run of instructions with the same location
+        let mut location_ends = BTreeMap::new();
+        for (i, location) in locations.iter().copied().enumerate() {
+            if let Some(location) = location && locations.get(i + 1).copied().flatten() != Some(location) {
+                location_ends.insert(final_ins_pos.get(i + 1).copied().unwrap_or(code.len()), location);
+            }
+        }
+        let locations = Locations::condense(&location_ends)?;
 
         Ok((ByteCode { tag: Default::default(), code: code.into_boxed_slice(), data: data.into_boxed_slice() }, ScriptInfo { funcs, entities }, locations))
     }
-- 
2.43.0


From 1a614e29e0a2c7eec531ad4fdd735cbbeb7bc6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 15/29] fix: text with a sign after a radix prefix is not a
 number

---
 src/runtime.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 5494ae5..8f7bb8d 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -841,11 +841,16 @@ impl SimpleValue {
 
     /// Parses a string into a number just as the runtime would do natively.
     pub fn parse_number(s: &str) -> Option<Number> {
+        fn parse_radix(digits: &str, radix: u32) -> Option<f64> {
+            if digits.starts_with(['+', '-']) { return None } // from_str_radix would accept a sign after the prefix
+            i64::from_str_radix(digits, radix).ok().map(|x| x as f64)
+        }
+
         let s = s.trim();
         let parsed = match s.get(..2) {
-            Some("0x" | "0X") => i64::from_str_radix(&s[2..], 16).ok().map(|x| x as f64),
-            Some("0o" | "0O") => i64::from_str_radix(&s[2..], 8).ok().map(|x| x as f64),
-            Some("0b" | "0B") => i64::from_str_radix(&s[2..], 2).ok().map(|x| x as f64),
+            Some("0x" | "0X") => parse_radix(&s[2..], 16),
+            Some("0o" | "0O") => parse_radix(&s[2..], 8),
+            Some("0b" | "0B") => parse_radix(&s[2..], 2),
             _ => s.parse::<f64>().ok(),
         };
         parsed.and_then(|x| Number::new(x).ok())
-- 
2.43.0


From 48906e4cbc8d205f62bdd9c27efe0b9fe7e704a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 16/29] fix: a list can be inserted into, assigned or removed
 from by indices taken from itself

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index f1a2cd3..824f087 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?; // the index might be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?; // the index might be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?; // the index might be (or contain) the list itself
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 86e2491f6b65591958ec9b0c28750ae5c10bce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 17/29] fix: unescape the names of images and sounds read from
 NetsBlox JSON

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 8f7bb8d..29a9ef3 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From 0cc66459f19970a928c524fe0a651bd704ce4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 18/29] fix: polling a message reply again after it completed
 panicked instead of giving Consumed

---
 src/std_system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 7d069a9..17e1f63 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -425,7 +425,10 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
         let mut message_replies = self.message_replies.lock().unwrap();
-        let entry = message_replies.get(key).unwrap();
+        let entry = match message_replies.get(key) {
+            Some(x) => x,
+            None => return AsyncResult::Consumed,
+        };
         if entry.value.is_some() {
             return AsyncResult::Completed(message_replies.remove(key).unwrap().value);
         }
-- 
2.43.0


From a6ec60f79348ed233b7666226115b1d1c57abf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 19/29] fix: the debug check for outstanding borrows panicked
 on programs which move to sprites or lists, or whose sprites refer to
 themselves

---
 src/process.rs    |  2 ++
 src/std_system.rs | 53 ++++++++++++++++++++++++++++++-----------------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 824f087..921c8dd 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1430,6 +1430,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
 
+                    drop(target);
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
                         key: system.perform_command(mc, Command::GotoXY { x, y }, self)?,
@@ -1463,6 +1464,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
 
+                    drop(target);
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
                         key: system.perform_command(mc, Command::PointTowardsXY { x, y }, self)?,
diff --git a/src/std_system.rs b/src/std_system.rs
index 17e1f63..227173b 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -320,32 +320,44 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
     }
 
     #[cfg(debug_assertions)]
-    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>) {
-        fn check_symbols<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, symbols: &SymbolTable<'gc, C, StdSystem<C>>) {
-            for symbol in symbols.iter() {
-                match &*symbol.1.get() {
+    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>, lent: Option<*const Entity<'gc, C, Self>>) {
+        // values are checked after the borrow of what contains them has ended, since they can refer back to it
+        fn check_values<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, values: Vec<Value<'gc, C, StdSystem<C>>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            for value in values {
+                match value {
                     Value::Bool(_) | Value::Number(_) | Value::Text(_) | Value::Audio(_) | Value::Image(_) | Value::Native(_) => (),
                     Value::List(x) => { x.borrow_mut(mc); }
                     Value::Closure(x) => { x.borrow_mut(mc); }
-                    Value::Entity(x) => { x.borrow_mut(mc); }
+                    Value::Entity(x) => check_borrow(mc, x, lent),
                 }
             }
         }
-        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: &mut Entity<'gc, C, StdSystem<C>>) {
-            check_symbols(mc, &entity.fields);
-            if let Some(original) = entity.original {
-                check_entity(mc, &mut *original.borrow_mut(mc));
+        fn check_borrow<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: Gc<'gc, RefLock<Entity<'gc, C, StdSystem<C>>>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            if lent != Some(entity.as_ptr() as *const _) { entity.borrow_mut(mc); }
+        }
+        fn get_values<'gc, C: CustomTypes<StdSystem<C>>>(symbols: &SymbolTable<'gc, C, StdSystem<C>>) -> Vec<Value<'gc, C, StdSystem<C>>> {
+            symbols.iter().map(|x| x.1.get().clone()).collect()
+        }
+        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: Gc<'gc, RefLock<Entity<'gc, C, StdSystem<C>>>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            check_borrow(mc, entity, lent);
+            let (values, original) = { let entity = entity.borrow(); (get_values(&entity.fields), entity.original) };
+            check_values(mc, values, lent);
+            if let Some(original) = original {
+                check_entity(mc, original, lent);
             }
         }
 
-        let global_context = proc.global_context.borrow_mut(mc);
-        check_symbols(mc, &global_context.globals);
+        let (globals, entities) = {
+            let global_context = proc.global_context.borrow_mut(mc);
+            (get_values(&global_context.globals), global_context.entities.iter().map(|x| *x.1).collect::<Vec<_>>())
+        };
+        check_values(mc, globals, lent);
         for entry in proc.get_call_stack() {
-            check_symbols(mc, &entry.locals);
-            check_entity(mc, &mut entry.entity.borrow_mut(mc));
+            check_values(mc, get_values(&entry.locals), lent);
+            check_entity(mc, entry.entity, lent);
         }
-        for entity in global_context.entities.iter() {
-            check_entity(mc, &mut *entity.1.borrow_mut(mc));
+        for entity in entities {
+            check_entity(mc, entity, lent);
         }
     }
 }
@@ -363,7 +375,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_request<'gc>(&self, mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::RequestKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, None);
 
         Ok(match self.config.request.as_ref() {
             Some(handler) => {
@@ -378,7 +390,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Self::RequestKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, _proc);
+        Self::check_runtime_borrows(mc, _proc, None);
 
         Ok(match key.poll() {
             AsyncResult::Completed(Ok(x)) => AsyncResult::Completed(Ok(C::from_intermediate(mc, x))),
@@ -390,7 +402,10 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::CommandKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, match &command {
+            Command::GotoEntity { target } | Command::PointTowardsEntity { target } => Some(*target as *const _),
+            _ => None,
+        });
 
         Ok(match self.config.command.as_ref() {
             Some(handler) => {
@@ -405,7 +420,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &Self::CommandKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(_mc, _proc);
+        Self::check_runtime_borrows(_mc, _proc, None);
 
         Ok(key.poll())
     }
-- 
2.43.0


From c7880f013e6b42eaf2ebfddbbea60995389643a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 20/29] fix: a very long wait overflowed the clock

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 921c8dd..fffefbc 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1134,7 +1134,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From fa2b1fdc847bc4477081a1405822e74af5f92490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:23 +0000
Subject: [PATCH 21/29] fix: a range of numbers too big to count in steps of
 one never ended

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index fffefbc..0bd03a4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1841,11 +1841,13 @@ mod ops {
                     if a <= b {
                         while a <= b {
                             res.push_back(Number::new(a)?.into());
+                            if a + 1.0 == a { break } // too big to count in steps of one
                             a += 1.0;
                         }
                     } else {
                         while a >= b {
                             res.push_back(Number::new(a)?.into());
+                            if a - 1.0 == a { break }
                             a -= 1.0;
                         }
                     }
-- 
2.43.0


From 42e2c672d6e9551fe48b73404b0c3a88c8d07553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:36 +0000
Subject: [PATCH 22/29] fix: running a project in a terminal which reports no
 rows panicked

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..a4d7e30 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -290,7 +290,7 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
 
             queue!(stdout(),
                 cursor::SavePosition,
-                cursor::MoveTo(0, term_size.1 - 1),
+                cursor::MoveTo(0, term_size.1.saturating_sub(1)),
                 terminal::Clear(ClearType::CurrentLine)).unwrap();
             let queries = input_queries.borrow();
             if let Some((query, _)) = queries.front() {
-- 
2.43.0


From b0c3544ecdc202eac50cb4c038df12a4b225d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 23/29] fix: the close syscall reported misuse as an error of
 readLine

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf5e240..38c657f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -160,7 +160,7 @@ fn main() {
                                 RequestStatus::Handled
                             }
                             _ => {
-                                key.complete(Err(format_compact!("syscall readLine - expected type {:?} or {:?}, received type {:?}", NativeType::InputFile, NativeType::OutputFile, file.get_type())));
+                                key.complete(Err(format_compact!("syscall close - expected type {:?} or {:?}, received type {:?}", NativeType::InputFile, NativeType::OutputFile, file.get_type())));
                                 RequestStatus::Handled
                             }
                         }
-- 
2.43.0


From 38a68f379fb7ccc222cbdd8e8e0031a36dfde3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:32 +0000
Subject: [PATCH 24/29] fix: the writeLine syscall called whatever it was given
 to write to an input file Text

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 38c657f..70d0e50 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -223,7 +223,7 @@ fn main() {
                                     }
                                 }
                                 _ => {
-                                    key.complete(Err(format_compact!("syscall writeLine - expected types {:?} and {:?}. received types {:?} and {:?}", NativeType::OutputFile, Type::<C, StdSystem<C>>::Text, file.get_type(), Type::<C, StdSystem<C>>::Text)));
+                                    key.complete(Err(format_compact!("syscall writeLine - expected types {:?} and {:?}. received types {:?} and {:?}", NativeType::OutputFile, Type::<C, StdSystem<C>>::Text, file.get_type(), content.get_type())));
                                     RequestStatus::Handled
                                 }
                             }
-- 
2.43.0


From 2d62d3218e47450615a6a0a6a8f5c1dbbf3a8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 25/29] fix: closing a file reported success when what was
 written could not be stored

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 70d0e50..6a583de 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -154,7 +154,12 @@ fn main() {
                             Value::Native(x) => {
                                 match &**x {
                                     NativeValue::InputFile { handle } => *handle.borrow_mut() = None,
-                                    NativeValue::OutputFile { handle } => *handle.borrow_mut() = None,
+                                    NativeValue::OutputFile { handle } => if let Some(mut handle) = handle.borrow_mut().take() {
+                                        if let Err(e) = handle.flush() {
+                                            key.complete(Err(format_compact!("syscall close - write error: {e:?}")));
+                                            return RequestStatus::Handled;
+                                        }
+                                    }
                                 }
                                 key.complete(Ok(SimpleValue::Text("OK".into()).into()));
                                 RequestStatus::Handled
-- 
2.43.0


From dc4f72882109a975a698a7b9b41e99c07d9fdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:20 +0000
Subject: [PATCH 26/29] fix: an error at a block the editor does not have hid
 all errors after it

Looking up an unknown location gives undefined, not null, so iterating over it
threw instead of warning, and the rest of the trace and every later error of the
same status was dropped.
---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index e5172e2..bb5f3e8 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -234,7 +234,7 @@
                                 for (const entry of error.trace) {{
                                     const locals = formatVars(entry.locals);
                                     const blocks = lookup[entry.location];
-                                    if (blocks !== null) {{
+                                    if (blocks) {{
                                         for (const block of blocks) {{
                                             const vars = [locals, fields, globals].filter(x => x.length).join('\n\n');
                                             let content = error.cause;
-- 
2.43.0


From 214751394ccfb959fc5e03de8ff79457edef4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:20 +0000
Subject: [PATCH 27/29] fix: uploading a project kept every other one of the
 elements to omit

getElementsByTagName returns a live collection, so removing a match while
iterating over it skips the next one.
---
 src/assets/extension.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index bb5f3e8..567dad1 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -25,7 +25,7 @@
 
         xml = new DOMParser().parseFromString(xml, 'text/xml');
         for (const elem of omittedElements) {{
-            for (const match of xml.getElementsByTagName(elem)) {{
+            for (const match of [...xml.getElementsByTagName(elem)]) {{
                 match.remove();
             }}
         }}
-- 
2.43.0


From 120292e0819850082d988984872c3d4b6c841ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:20 +0000
Subject: [PATCH 28/29] fix: an error passing through the same block twice
 removed its own comments

A trace of a recursive call names a block more than once. Replacing the comment
made by the same error destroys its whole family, so the blocks before it lost
theirs.
---
 src/assets/extension.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assets/extension.js b/src/assets/extension.js
index 567dad1..cdc2ed5 100644
--- a/src/assets/extension.js
+++ b/src/assets/extension.js
@@ -236,6 +236,8 @@
                                     const blocks = lookup[entry.location];
                                     if (blocks) {{
                                         for (const block of blocks) {{
+                                            if (commentFamily.includes(block.comment)) continue;
+
                                             const vars = [locals, fields, globals].filter(x => x.length).join('\n\n');
                                             let content = error.cause;
                                             if (vars.length) content += `\n\n${{vars}}`;
-- 
2.43.0


From a552dcb81b81a217c7fde70f39e9b3626439ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:36 +0000
Subject: [PATCH 29/29] fix: dumping a project that cannot be compiled panicked

The dump mode unwrapped the result of compiling; report the error and exit with
a status, as it does for projects that cannot be read.
---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a4d7e30..fbbc5ed 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -593,7 +593,7 @@ pub fn run<C: CustomTypes<StdSystem<C>>>(mode: Mode, config: Config<C, StdSystem
             let content = read_file(&src).unwrap_or_else(|_| crash!(1: "failed to read file '{src}'"));
             let (_, role) = open_project(&content, role.as_deref()).unwrap_or_else(|e| crash!(2: "{e}"));
 
-            let (bytecode, _, _, _) = ByteCode::compile(&role).unwrap();
+            let (bytecode, _, _, _) = ByteCode::compile(&role).unwrap_or_else(|e| crash!(2: "error loading project: {e:?}"));
             println!("instructions:");
             bytecode.dump_code(&mut std::io::stdout().lock()).unwrap();
             println!("\ndata:");
-- 
2.43.0

