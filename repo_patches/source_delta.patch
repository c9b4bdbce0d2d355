From 63c80d2e8ae68dae80c8e2084effbffdd5f88b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 01/12] fix: reserving no capacity must not corrupt the arena's
 free list

---
 crates/datastructures/arena/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..8497fa7 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,10 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // The inner arena would corrupt its free list when asked to reserve nothing
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From 9f6245dc533b38b6f4d56369ff0d95dc68c68fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 02/12] fix: nth() of field iterators must skip n fields and
 yield the one there

---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From 1e20ae7bd8e6bd08fe387b00a9f1cab67057e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 03/12] fix: convert ticks to seconds with the declared ticks
 per second

---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..4ccb2bc 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From 9b281e362b7432b26e56f9ce87c723197262b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 04/12] fix: scaling ticks must saturate instead of wrapping

---
 client/rust/src/time/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 4ccb2bc..503b3c0 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,8 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        // saturate, like the other tick operations
+        Self(val.clamp(i32::MIN.into(), i32::MAX.into()) as i32)
     }
 }
 
-- 
2.43.0


From 01763befec68380d2aedca767aafae7a65ccc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 05/12] fix: integer tweens must reach lower targets and not
 overflow

---
 client/rust/src/contract/properties/channels/misc.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 520a0d0..5ff96f0 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -25,9 +25,11 @@ impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTwe
     for IntTweenable<T>
 {
     fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
-        let diff: f32 = (to.0 - from.0).as_();
-        let scaled_diff: u32 = (time.to_f32().unwrap() * diff) as _;
-        from.0 = from.0 + FromPrimitive::from_u32(scaled_diff).unwrap();
+        // Widen, so that neither the difference nor a decreasing tween can overflow
+        let start = from.0.to_i128().unwrap();
+        let diff = to.0.to_i128().unwrap().saturating_sub(start) as f64;
+        let scaled_diff = (time.to_f64().unwrap() * diff) as i128;
+        from.0 = FromPrimitive::from_i128(start.saturating_add(scaled_diff)).unwrap();
         from
     }
 }
-- 
2.43.0


From 8445284ebd1aa33d48cc345661bdff2a2cfab235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 06/12] fix: refuse to create objects for a handle of another
 contract

---
 client/rust/src/baseline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..8722fda 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -128,8 +128,12 @@ impl Baseline {
         states: impl Iterator<Item = DynTpProperty>,
         channels: impl Iterator<Item = DynChannel>,
     ) -> Result<ObjectHandle> {
-        if !self.contracts.contains(contract.handle()) {
-            return Err(eyre!("No such contract for that handle"));
+        match self.contracts.get(contract.handle()) {
+            Some(c_data) if c_data.id() == C::ID => {}
+            Some(_) => {
+                return Err(eyre!("Handle did not match the provided contract type!"));
+            }
+            None => return Err(eyre!("No such contract for that handle")),
         }
 
         let state_types = C::States::enumerate_types();
-- 
2.43.0


From 4ae501aa5dc5764366535280fd46dcb693fe9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 07/12] fix: object_remove must free the fields and unlist the
 object

---
 client/rust/src/baseline.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 8722fda..cea3ece 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -195,15 +195,18 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
-        let o = if let Some(o) = self.objects.remove(obj) {
-            o
+        let contract = if let Some(o) = self.objects.get(obj) {
+            o.contract()
         } else {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
+        if self.contract_data(contract)?.id() != C::ID {
+            return Err(eyre!("Object did not match the provided contract type!"));
+        }
 
         // remove all fields of the object
-        let states = StatesIter::<C::States>::new(o.contract());
-        let channels = ChannelsIter::<C::Channels>::new(o.contract());
+        let states = StatesIter::<C::States>::new(contract);
+        let channels = ChannelsIter::<C::Channels>::new(contract);
 
         for s in states {
             apply_to_state_id!(s, |id| {
@@ -225,6 +228,11 @@ impl Baseline {
             })?;
         }
 
+        // the object itself goes last, since its fields are bound through it
+        self.objects.remove(obj);
+        if let Some(c_data) = self.contracts.get_mut(contract) {
+            c_data.objects_mut().remove(&obj);
+        }
         Ok(())
     }
 
-- 
2.43.0


From cbf2b233a4577b2a07330b02955e3f84820349c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 08/12] fix: apply state writes by swapping instead of
 panicking

---
 client/rust/src/engine.rs | 44 +++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..be54042 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -1,12 +1,17 @@
 use crate::action::property::{PropertyAction, StateAction};
 use crate::action::{Action, ActionKind, ActionResult, Collaction, CollactionResult, IAction};
 use crate::baseline::BaselineKind;
+use crate::contract::properties::dynamic::{DynTpPrimitive, DynTpProperty, DynTpVec};
+use crate::contract::properties::primitives;
+use crate::contract::properties::states::dyn_handle::{DynStateHandlePrimitive, DynStateHandleVec};
+use crate::contract::properties::states::DynStateHandle;
 use crate::realm::Realm;
 use crate::time::Ticks;
 
 use better_borrow::BBorrow;
 use crossbeam_channel::{Receiver, RecvTimeoutError, Sender, TryRecvError};
 use eyre::{eyre, WrapErr};
+use std::mem;
 
 type TryApplyResult = Result<CollactionResult, TryRecvError>;
 type ApplyResult = Result<CollactionResult, RecvTimeoutError>;
@@ -118,23 +123,36 @@ impl Engine {
                     }
                     StateAction::Write { handle, data } => {
                         // Get data from the Action and apply it to the BaselineFork.
-                        let state = self
-                            .realm_mut()
-                            .baseline_mut(BaselineKind::Fork)
-                            .state_mut(*handle)
-                            .wrap_err("Invalid Handle")?;
-
-                        // Sanity check that all types remain the same
-                        debug_assert!(state.0.prop_type() == data.prop_type());
-                        // TODO[SER-272]: handle DynTpProperty<DynTpData> and DynTpData in general
+                        let baseline = self.realm_mut().baseline_mut(BaselineKind::Fork);
 
                         // Swap the current value with the new data.
                         // This optimizes applying the Action and allows
                         // for its simple reversal if needed.
-
-                        // TODO: hard ;(
-                        //mem::swap(&mut state.value, data);
-                        todo!("Figure out how to swap")
+                        macro_rules! swap_helper {
+                            ($($variant:ident),+ $(,)?) => {
+                                match (*handle, data) {
+                                    $(
+                                        (
+                                            DynStateHandle::Primitive(DynStateHandlePrimitive::$variant(h)),
+                                            DynTpProperty::Primitive(DynTpPrimitive::$variant(data)),
+                                        ) => {
+                                            let state = baseline.state_mut(h).wrap_err("Invalid Handle")?;
+                                            mem::swap(&mut state.value, data);
+                                        }
+                                        (
+                                            DynStateHandle::Vec(DynStateHandleVec::$variant(h)),
+                                            DynTpProperty::Vec(DynTpVec::$variant(data)),
+                                        ) => {
+                                            let state = baseline.state_mut(h).wrap_err("Invalid Handle")?;
+                                            mem::swap(&mut state.value, data);
+                                        }
+                                    )+
+                                    _ => return Err(eyre!("Data did not match the type of the state!")),
+                                }
+                            };
+                        }
+                        primitives!(; idents, swap_helper);
+                        Ok(())
                     }
                 }
             }
-- 
2.43.0


From 566e641cd0984f732545b0d45c80b618bd711776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 09/12] fix: a failed action must not be reversed itself

---
 client/rust/src/engine.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index be54042..83142f7 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -90,9 +90,8 @@ impl Engine {
                     applied_actions.push(action);
                 }
                 Err(_) => {
-                    // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
-                    // Go in FIFO order
+                    // Reverse previously-applied Actions within this Collaction,
+                    // last one first. The failed Action itself had no effect.
                     self.reverse_actions(applied_actions.into_iter().rev());
 
                     // Bail and reject this Collaction.
-- 
2.43.0


From 048554981c42c3e88073e280b60c1539a4e82c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 10/12] fix: jump tweens must not jump for progress far below
 zero

---
 client/rust/src/contract/properties/channels/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 5ff96f0..247c7cd 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -1,4 +1,4 @@
-use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive};
+use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive, One};
 use keyframe::CanTween;
 
 /// Wraps any `T: Copy`, making it tweenable. Easing jumps from the starting
@@ -9,7 +9,7 @@ use keyframe::CanTween;
 pub struct JumpTweenable<T>(pub T);
 impl<T> CanTween for JumpTweenable<T> {
     fn ease(from: Self, to: Self, time: impl Float) -> Self {
-        if time.trunc().is_zero() {
+        if time < One::one() {
             from
         } else {
             to
-- 
2.43.0


From 3c07305db36dba4f58996a5f18ff805123302ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 11/12] Add verif_hooks cfg: expose tween wrappers and a
 collaction constructor

---
 client/rust/src/action/mod.rs                       | 7 +++++++
 client/rust/src/contract/properties/channels/mod.rs | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..55af7c4 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -24,6 +24,13 @@ pub struct Collaction {
 }
 
 impl Collaction {
+    /// Lets verification harnesses build collactions.
+    #[cfg(verif_hooks)]
+    #[doc(hidden)]
+    pub fn verif_new(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
+
     pub fn actions(&self) -> &[Action] {
         &self.actions
     }
diff --git a/client/rust/src/contract/properties/channels/mod.rs b/client/rust/src/contract/properties/channels/mod.rs
index 80232c1..41adc19 100644
--- a/client/rust/src/contract/properties/channels/mod.rs
+++ b/client/rust/src/contract/properties/channels/mod.rs
@@ -10,6 +10,9 @@ pub use self::dyn_channel::{apply_to_channel, apply_to_channel_mut, apply_to_cha
 pub use self::dyn_channel::{DynChannel, DynChannelMut, DynChannelRef};
 pub use self::dyn_handle::DynChannelHandle;
 pub use self::handle::{ChannelHandle, IChannelHandle};
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub use self::misc::{IntTweenable, JumpTweenable};
 pub use crate::contract::properties::dynamic::apply_to_channel_id;
 
 use crate::contract::properties::dynamic::TpPropertyType;
-- 
2.43.0


From fa2eee83534c6e81de811851207c602c3782f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 12/12] fix: IntTweenable reaches 64-bit targets exactly

A difference of more than 53 bits is rounded by the conversion to f64, so easing to the
target missed it or panicked (0 to i64::MAX), and progress just below 1 could pass it.
---
 client/rust/src/contract/properties/channels/misc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 247c7cd..000fdf2 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -27,8 +27,15 @@ impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTwe
     fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
         // Widen, so that neither the difference nor a decreasing tween can overflow
         let start = from.0.to_i128().unwrap();
-        let diff = to.0.to_i128().unwrap().saturating_sub(start) as f64;
-        let scaled_diff = (time.to_f64().unwrap() * diff) as i128;
+        let diff = to.0.to_i128().unwrap().saturating_sub(start);
+        let time = time.to_f64().unwrap();
+        let mut scaled_diff = (time * diff as f64) as i128;
+        // `diff as f64` is rounded for wide differences: do not miss the target by that
+        if time == 1.0 {
+            scaled_diff = diff;
+        } else if time > 0.0 && time < 1.0 {
+            scaled_diff = scaled_diff.clamp(diff.min(0), diff.max(0));
+        }
         from.0 = FromPrimitive::from_i128(start.saturating_add(scaled_diff)).unwrap();
         from
     }
-- 
2.43.0

