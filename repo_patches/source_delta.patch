From 2031ed04e343278aae1e9d88909ac62055bcb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 01/13] fix: object_remove removes the object's fields and
 deregisters it

The object was taken out of the arena first and its fields were then bound by
looking it up again, which always failed: every state and channel of a removed
object leaked, the caller got an error, and unregister_contract panicked. The
contract also kept the removed handle in its object set.
---
 client/rust/src/baseline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 09f749d..2b94ef6 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -197,13 +197,18 @@ impl Baseline {
             return Err(eyre!("Object did not exist, so it could not be removed"));
         };
 
+        if let Some(c_data) = self.contracts.get_mut(o.contract()) {
+            c_data.objects_mut().remove(&obj);
+        }
+
         // remove all fields of the object
         let states = StatesIter::<C::States>::new(o.contract());
         let channels = ChannelsIter::<C::Channels>::new(o.contract());
 
         for s in states {
             apply_to_state_id!(s, |id| {
-                let handle = self.bind_state(id, obj)?;
+                // `obj` is no longer in the arena, so bind directly on the object
+                let handle = o.bind_state(id)?;
                 if let Err(e) = self.state_remove(handle) {
                     log::warn!("Failed to remove state, state has been leaked: {}", e);
                 }
@@ -213,7 +218,7 @@ impl Baseline {
 
         for c in channels {
             apply_to_channel_id!(c, |id| {
-                let handle = self.bind_channel(id, obj)?;
+                let handle = o.bind_channel(id)?;
                 if let Err(e) = self.channel_remove(handle) {
                     log::warn!("Failed to remove channel, channel has been leaked: {}", e);
                 }
-- 
2.43.0


From 33c021383548f85f1ea8be00bc53da4007b93b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 02/13] fix: object_remove refuses a contract type the object
 was not created with

Removing an object through another contract's type paired the object's field
indices with the wrong property types, and so deleted fields of other objects
and leaked its own.
---
 client/rust/src/baseline.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index 2b94ef6..f6a99f3 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -191,6 +191,12 @@ impl Baseline {
     }
 
     pub fn object_remove<C: Contract>(&mut self, obj: ObjectHandle) -> Result<()> {
+        if let Some(o) = self.objects.get(obj) {
+            if self.contract_data(o.contract())?.id() != C::ID {
+                return Err(eyre!("Object did not match the provided contract type!"));
+            }
+        }
+
         let o = if let Some(o) = self.objects.remove(obj) {
             o
         } else {
-- 
2.43.0


From 8bcc73e84438e874c49f5bdf3add4844586e67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 03/13] fix: object_create refuses a handle registered for
 another contract

A contract obtained from another baseline can carry a handle that is valid here
but belongs to a different contract; its objects then had fields of other types
than that contract's ids expect.
---
 client/rust/src/baseline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/baseline.rs b/client/rust/src/baseline.rs
index f6a99f3..c4ef45b 100644
--- a/client/rust/src/baseline.rs
+++ b/client/rust/src/baseline.rs
@@ -128,8 +128,12 @@ impl Baseline {
         states: impl Iterator<Item = DynTpProperty>,
         channels: impl Iterator<Item = DynChannel>,
     ) -> Result<ObjectHandle> {
-        if !self.contracts.contains(contract.handle()) {
-            return Err(eyre!("No such contract for that handle"));
+        let c_data = self
+            .contracts
+            .get(contract.handle())
+            .ok_or_else(|| eyre!("No such contract for that handle"))?;
+        if c_data.id() != C::ID {
+            return Err(eyre!("Handle did not match the provided contract type!"));
         }
 
         let state_types = C::States::enumerate_types();
-- 
2.43.0


From c909adac69bf9c5aac43c0d18876e93869df28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 04/13] fix: property iterators' nth skips n fields

It ignored n: it returned the type of the next field with the index of the one
after it, and overflowed for a large n.
---
 client/rust/src/contract/properties/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/rust/src/contract/properties/mod.rs b/client/rust/src/contract/properties/mod.rs
index 4e7a0d7..83064c7 100644
--- a/client/rust/src/contract/properties/mod.rs
+++ b/client/rust/src/contract/properties/mod.rs
@@ -37,17 +37,17 @@ macro_rules! prop_iter {
 
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
                 let n_fields = S::enumerate_types().len();
-                let new_pos = self.pos + n;
+                let new_pos = self.pos.saturating_add(n);
                 if new_pos >= n_fields {
                     self.pos = n_fields;
                     return None;
                 }
                 let prop_type = S::enumerate_types()
-                    .get(self.pos)
+                    .get(new_pos)
                     .copied()
                     .expect("Should be impossible to be `None`");
-                self.pos += 1; // also discard the element at the new position
-                Some($dyn_name::new(self.contract, self.pos, prop_type))
+                self.pos = new_pos + 1; // also discard the element at the new position
+                Some($dyn_name::new(self.contract, new_pos, prop_type))
             }
         }
     };
-- 
2.43.0


From 70281007b494c8d846f6aaf4ccacfc8126178d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 05/13] fix: scaling ticks saturates instead of wrapping

Addition and subtraction of ticks saturate; a scaled value out of range kept
only its low 32 bits, so a sped up clock jumped back into the past.
---
 client/rust/src/time/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 1dc0a01..8e5769b 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -57,7 +57,7 @@ impl Mul<TimeScale> for Ticks {
         let mut val = self.0 as i64;
         val *= other.numerator_as_i64();
         val >>= TimeScale::denominator_as_log2();
-        Self(val as i32)
+        Self(val.clamp(i32::MIN.into(), i32::MAX.into()) as i32)
     }
 }
 
-- 
2.43.0


From 1f5f183babb853b2aaf77e815ac59b57ed305cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 06/13] fix: seconds of a tick count follow ticks_per_second

A tick is a millisecond (ticks_per_second is 1000, as_millis returns the count
itself), but as_secs and as_secs_f32 divided by 1024; as_secs also rounded
towards negative infinity, where its documentation says it truncates.
---
 client/rust/src/time/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/time/mod.rs b/client/rust/src/time/mod.rs
index 8e5769b..0b0234b 100644
--- a/client/rust/src/time/mod.rs
+++ b/client/rust/src/time/mod.rs
@@ -26,11 +26,11 @@ impl Ticks {
     /// The return value of this function truncates the actual `seconds` value.
     /// Use `Time.as_secs_f32()` for more precision.
     pub fn as_secs(&self) -> i32 {
-        self.0 >> 10 // normalize scalar factor (1024 denominator)
+        self.0 / Self::ticks_per_second()
     }
 
     pub fn as_secs_f32(&self) -> f32 {
-        (self.0 as f32) / 1024.0
+        (self.0 as f32) / (Self::ticks_per_second() as f32)
     }
 }
 
-- 
2.43.0


From e9b1b9838d500603742885203658b8e43874f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 07/13] fix: serialized primitive kinds compare u32 with u32
 and u64 with u64

---
 client/serialize/rust/src/types/eq_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/serialize/rust/src/types/eq_impl.rs b/client/serialize/rust/src/types/eq_impl.rs
index cb93862..0d15b87 100644
--- a/client/serialize/rust/src/types/eq_impl.rs
+++ b/client/serialize/rust/src/types/eq_impl.rs
@@ -67,7 +67,8 @@ impl PartialEq<crate::primitive::TpPrimitiveKind> for crate::primitive::TpPrimit
         match (*self, *other) {
             (Self::U8, O::U8)
             | (Self::U16, O::U16)
-            | (Self::U32, O::U64)
+            | (Self::U32, O::U32)
+            | (Self::U64, O::U64)
             | (Self::I8, O::I8)
             | (Self::I16, O::I16)
             | (Self::I32, O::I32)
-- 
2.43.0


From 090ac6057bde88f73cdb15adddb36178e5f24653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 08/13] fix: IntTweenable tweens downwards, over wide ranges
 and past its ends

The scaled difference was cast to u32, so a tween towards a smaller value never
moved; the difference was computed in T, so it overflowed when it did not fit;
and a scaled difference that did not fit T panicked.
---
 .../src/contract/properties/channels/misc.rs    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index 520a0d0..a1ee10f 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -24,11 +24,18 @@ pub struct IntTweenable<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + Fr
 impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTween
     for IntTweenable<T>
 {
-    fn ease(mut from: Self, to: Self, time: impl Float) -> Self {
-        let diff: f32 = (to.0 - from.0).as_();
-        let scaled_diff: u32 = (time.to_f32().unwrap() * diff) as _;
-        from.0 = from.0 + FromPrimitive::from_u32(scaled_diff).unwrap();
-        from
+    fn ease(from: Self, to: Self, time: impl Float) -> Self {
+        // Wide enough for the difference (and any overshoot) between any two values of `T`
+        let start = from.0.to_i128().unwrap_or(i128::MAX);
+        let diff = to.0.to_i128().unwrap_or(i128::MAX).saturating_sub(start);
+        let scaled_diff = (time.to_f64().unwrap() * diff as f64) as i128;
+        let result = start.saturating_add(scaled_diff);
+        // Easing functions can overshoot, so saturate at the bounds of `T`
+        Self(FromPrimitive::from_i128(result).unwrap_or(if result < 0 {
+            T::min_value()
+        } else {
+            T::max_value()
+        }))
     }
 }
 
-- 
2.43.0


From 7b1631aa26c040dad5c6d4c19b09de6e7810452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 09/13] fix: an action that failed is not reversed with those
 applied before it

apply_collaction put the failing action on the list of actions to reverse. A
failed action changed nothing, and reversing a write applies it again: a
collaction whose write fails (its handle does not exist) panicked in
reverse_action instead of being rejected.
---
 client/rust/src/engine.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/client/rust/src/engine.rs b/client/rust/src/engine.rs
index b118553..4c34961 100644
--- a/client/rust/src/engine.rs
+++ b/client/rust/src/engine.rs
@@ -86,7 +86,6 @@ impl Engine {
                 }
                 Err(_) => {
                     // Reverse previously-applied Actions within this Collaction.
-                    applied_actions.push(action);
                     // Go in FIFO order
                     self.reverse_actions(applied_actions.into_iter().rev());
 
-- 
2.43.0


From bc4d91f7208c8ae6cf6cca45bba3c301f2158917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 10/13] hook: Collaction::from_actions, under
 cfg(constellation_verif)

---
 client/rust/src/action/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/rust/src/action/mod.rs b/client/rust/src/action/mod.rs
index 2e1f0c8..85a508c 100644
--- a/client/rust/src/action/mod.rs
+++ b/client/rust/src/action/mod.rs
@@ -31,6 +31,12 @@ impl Collaction {
     pub fn actions_mut(&mut self) -> &mut [Action] {
         &mut self.actions
     }
+
+    /// A collaction of these actions. The crate has no public way to make one yet.
+    #[cfg(constellation_verif)]
+    pub fn from_actions(actions: Vec<Action>) -> Self {
+        Self { actions }
+    }
 }
 
 pub type CollactionResult = Result<Collaction, Collaction>;
-- 
2.43.0


From eeb413876ee19080615a7bf70b0742d6f52dcc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 11/13] fix: arena: reserving no capacity corrupted the free
 list, and the next insert panicked

---
 crates/datastructures/arena/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/datastructures/arena/src/lib.rs b/crates/datastructures/arena/src/lib.rs
index 8476511..7a9848e 100644
--- a/crates/datastructures/arena/src/lib.rs
+++ b/crates/datastructures/arena/src/lib.rs
@@ -73,7 +73,10 @@ impl<T> Arena<T> {
     }
 
     pub fn reserve(&mut self, additional_capacity: usize) {
-        self.0.reserve(additional_capacity)
+        // Reserving nothing corrupts the free list of `ga::Arena`
+        if additional_capacity > 0 {
+            self.0.reserve(additional_capacity)
+        }
     }
 }
 impl<T> Default for Arena<T> {
-- 
2.43.0


From 8d20a89eb7a0a68962d7195401ecc7a5be3c6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 12/13] fix: JumpTweenable stays at the start however far a
 blend undershoots

---
 client/rust/src/contract/properties/channels/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index a1ee10f..e19f781 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -1,4 +1,4 @@
-use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive};
+use keyframe::num_traits::{AsPrimitive, Float, FromPrimitive, One};
 use keyframe::CanTween;
 
 /// Wraps any `T: Copy`, making it tweenable. Easing jumps from the starting
@@ -9,7 +9,7 @@ use keyframe::CanTween;
 pub struct JumpTweenable<T>(pub T);
 impl<T> CanTween for JumpTweenable<T> {
     fn ease(from: Self, to: Self, time: impl Float) -> Self {
-        if time.trunc().is_zero() {
+        if time < One::one() {
             from
         } else {
             to
-- 
2.43.0


From 060894a584e1f56190da80709ef1f31ea6c270d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 13/13] fix: IntTweenable reaches 64-bit targets exactly

---
 client/rust/src/contract/properties/channels/misc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/rust/src/contract/properties/channels/misc.rs b/client/rust/src/contract/properties/channels/misc.rs
index e19f781..fbf5a7c 100644
--- a/client/rust/src/contract/properties/channels/misc.rs
+++ b/client/rust/src/contract/properties/channels/misc.rs
@@ -28,8 +28,13 @@ impl<T: keyframe::num_traits::PrimInt + AsPrimitive<f32> + FromPrimitive> CanTwe
         // Wide enough for the difference (and any overshoot) between any two values of `T`
         let start = from.0.to_i128().unwrap_or(i128::MAX);
         let diff = to.0.to_i128().unwrap_or(i128::MAX).saturating_sub(start);
-        let scaled_diff = (time.to_f64().unwrap() * diff as f64) as i128;
-        let result = start.saturating_add(scaled_diff);
+        // Scale the upper and lower digits of wide differences apart, as `f64` holds 53 bits exactly
+        let time = time.to_f64().unwrap();
+        let lower = diff % (1 << 32);
+        let scaled = |part: i128| (time * part as f64) as i128;
+        let result = start
+            .saturating_add(scaled(diff - lower))
+            .saturating_add(scaled(lower));
         // Easing functions can overshoot, so saturate at the bounds of `T`
         Self(FromPrimitive::from_i128(result).unwrap_or(if result < 0 {
             T::min_value()
-- 
2.43.0

