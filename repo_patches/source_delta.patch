From 6322beb592c08d4fb0977149ea1d7e57c8cee5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 01/11] fix: initialize the tables of every field width

A static inside a generic function is shared by all instantiations. Only the
first width to be initialized got its tables, every other width reported
success and then read through a null pointer. A failed initialization was also
reported as a success from the second call on.
---
 src/math/galois/mod.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index b3a0a9e..7e0c38e 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -5,7 +5,7 @@ use rand::Rng;
 use serde::de::{Deserialize, Deserializer, Visitor};
 use serde::ser::{Serialize, SerializeTuple, Serializer};
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
-use std::sync::{Once, OnceLock};
+use std::sync::{Mutex, OnceLock};
 
 /// Galois field elements where the order of the field is 2^W.
 ///
@@ -34,17 +34,14 @@ impl<const W: u8> GF<W> {
 
     /// Initialize the field by pre-computing data required to carry out field operations.
     pub fn init() -> Result<(), &'static str> {
-        static INIT: Once = Once::new();
+        // Shared by all fields, so tables are never built concurrently. Building the tables of a
+        // field which has already been initialized is a no-op.
+        static INIT: Mutex<()> = Mutex::new(());
 
-        let mut flag = true;
-        INIT.call_once(|| {
-            let res = unsafe { bindings::galois_create_log_tables(W.into()) };
-            if res != 0 {
-                flag = false;
-            }
-        });
+        let _guard = INIT.lock().unwrap();
+        let res = unsafe { bindings::galois_create_log_tables(W.into()) };
 
-        if flag {
+        if res == 0 {
             Ok(())
         } else {
             Err("Could not initialize the field.")
-- 
2.43.0


From fb761fbffe845be85eeb8e19c21fbc2abd149f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 02/11] fix: sample from the whole field for every width

The cached distribution was shared by all widths, so the width sampled first
decided the range for all others.
---
 src/math/galois/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index 7e0c38e..6360fb0 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -5,7 +5,7 @@ use rand::Rng;
 use serde::de::{Deserialize, Deserializer, Visitor};
 use serde::ser::{Serialize, SerializeTuple, Serializer};
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
-use std::sync::{Mutex, OnceLock};
+use std::sync::Mutex;
 
 /// Galois field elements where the order of the field is 2^W.
 ///
@@ -26,12 +26,6 @@ impl<const W: u8> GF<W> {
     /// Multiplicative identity.
     pub const ONE: Self = Self(1);
 
-    fn get_dist() -> &'static Uniform<u32> {
-        static DIST: OnceLock<Uniform<u32>> = OnceLock::new();
-
-        DIST.get_or_init(|| Uniform::new(0, 2_u32.pow(W.into())))
-    }
-
     /// Initialize the field by pre-computing data required to carry out field operations.
     pub fn init() -> Result<(), &'static str> {
         // Shared by all fields, so tables are never built concurrently. Building the tables of a
@@ -50,7 +44,7 @@ impl<const W: u8> GF<W> {
 
     /// Sample an element uniformly at random from the field.
     pub fn rand<R: Rng>(rng: &mut R) -> Self {
-        Self(Self::get_dist().sample(rng))
+        Self(Uniform::new(0, Self::ORDER).sample(rng))
     }
 }
 
-- 
2.43.0


From 9caf8492742ea8e024e75ef7a15ec8312f75d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 03/11] fix: do not read outside the tables when converting
 large integers

Integers which are not below the order of the field were reduced by multiplying
them with one. The table lookup in the multiplication is only defined for field
elements.
---
 src/math/galois/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index 6360fb0..bd34114 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -50,13 +50,8 @@ impl<const W: u8> GF<W> {
 
 impl<const W: u8> From<u32> for GF<W> {
     fn from(value: u32) -> Self {
-        let res = Self(value);
-
-        if value >= Self::ORDER {
-            res * Self::ONE
-        } else {
-            res
-        }
+        // Multiplication expects its operands to be in the field, so it cannot be used to reduce.
+        Self(value & (Self::ORDER - 1))
     }
 }
 
-- 
2.43.0


From c51d8c3d99cc4771cc7402ce97b10c2b0d582d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 04/11] fix: reject encodings that are not field elements

Bytes received from another party were accepted even if the value was not below
the order of the field, and using such an element reads outside the tables.
A sequence with too few bytes caused a panic instead of an error.
---
 src/math/galois/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/math/galois/mod.rs b/src/math/galois/mod.rs
index bd34114..a40e1d5 100644
--- a/src/math/galois/mod.rs
+++ b/src/math/galois/mod.rs
@@ -2,7 +2,7 @@ mod bindings;
 use num_traits::identities::{One, Zero};
 use rand::distributions::{Distribution, Uniform};
 use rand::Rng;
-use serde::de::{Deserialize, Deserializer, Visitor};
+use serde::de::{Deserialize, Deserializer, Error, Unexpected, Visitor};
 use serde::ser::{Serialize, SerializeTuple, Serializer};
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 use std::sync::Mutex;
@@ -323,11 +323,17 @@ impl<'de, const W: u8> Visitor<'de> for GFVisitor<W> {
         A: serde::de::SeqAccess<'de>,
     {
         let mut vals = [0u8; 4];
-        for v in vals.iter_mut().take(GF::<W>::NUM_BYTES) {
-            let element = seq.next_element()?;
-            *v = element.unwrap();
+        for (i, v) in vals.iter_mut().take(GF::<W>::NUM_BYTES).enumerate() {
+            *v = seq
+                .next_element()?
+                .ok_or_else(|| Error::invalid_length(i, &self))?;
         }
 
-        Ok(GF(u32::from_le_bytes(vals)))
+        let val = u32::from_le_bytes(vals);
+        if val >= GF::<W>::ORDER {
+            return Err(Error::invalid_value(Unexpected::Unsigned(val.into()), &self));
+        }
+
+        Ok(GF(val))
     }
 }
-- 
2.43.0


From 2c52ecd1e418aa6bc6c6df1b78384aafa115fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 05/11] fix: let the ID builder produce as many IDs as
 requested

No ID could be generated when the bound was 1 and one ID was missing when the
bound was a power of 256, e.g. when garbling a circuit with 252 packed gates.
---
 src/protocol/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ba1bc57..d757fb6 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -32,7 +32,8 @@ pub struct ProtocolIDBuilder<'a> {
 impl<'a> ProtocolIDBuilder<'a> {
     /// num is an upper bound on the number of children created.
     pub fn new(parent_id: &'a ProtocolID, num: u64) -> Self {
-        let num_bytes = (num.next_power_of_two().ilog2() + 7) / 8;
+        // The all-ones suffix is never used since it cannot be incremented.
+        let num_bytes = (u64::BITS - num.leading_zeros() + 7) / 8;
         ProtocolIDBuilder {
             id: parent_id,
             suffix: vec![0; num_bytes.try_into().unwrap()],
-- 
2.43.0


From 00e3c43cb11f55657c3831abaac8cf43266611ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 06/11] fix: restore the shape of the keys when loading
 preprocessing

The keys have shape (2, key length, blocks) but were restored with shape
(blocks, 2, key length). Loading material without any block divided by zero and
keys held in a non-standard memory layout were stored in the wrong order.
---
 src/protocol/preproc.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/protocol/preproc.rs b/src/protocol/preproc.rs
index 30ba86c..0cf80f6 100644
--- a/src/protocol/preproc.rs
+++ b/src/protocol/preproc.rs
@@ -472,7 +472,7 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
     fn from(value: PreProc<W>) -> Self {
         Self {
             masks: value.masks.to_vec(),
-            keys: value.keys.into_raw_vec(),
+            keys: value.keys.iter().cloned().collect(),
             randoms: value.randoms.into(),
             zeros: value.zeros.into(),
             errors: value.errors.into(),
@@ -482,11 +482,13 @@ impl<const W: u8> From<PreProc<W>> for PreProcSer<W> {
 
 impl<const W: u8> From<PreProcSer<W>> for PreProc<W> {
     fn from(value: PreProcSer<W>) -> Self {
-        let kshape = (
-            value.masks.len(),
-            2,
-            value.keys.len() / (2 * value.masks.len()),
-        );
+        let num_blocks = value.masks.len();
+        let key_len = value
+            .keys
+            .len()
+            .checked_div(2 * num_blocks)
+            .unwrap_or_default();
+        let kshape = (2, key_len, num_blocks);
 
         Self {
             masks: Array1::from_vec(value.masks),
-- 
2.43.0


From 505914429283f75581d577cab8b63448449a3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 07/11] fix: keep the order of circuit outputs

Circuits with more than one output value listed them in reverse order.
---
 src/circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index fa3129b..f6ad989 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -104,7 +104,7 @@ impl Circuit {
 
         let num_outputs = next_meta_number();
         let out_lens: Vec<_> = (0..num_outputs).map(|_| next_meta_number()).collect();
-        let outputs: Vec<Vec<WireID>> = out_lens
+        let mut outputs: Vec<Vec<WireID>> = out_lens
             .into_iter()
             .rev()
             .scan(num_wires, |state, v| {
@@ -112,6 +112,8 @@ impl Circuit {
                 Some(((*state)..(*state + v)).collect())
             })
             .collect();
+        // The wires were assigned starting from the last output.
+        outputs.reverse();
 
         let mut gates = Vec::new();
 
-- 
2.43.0


From 7fd8882a43bdee3f03326a01796d7e0f5c7a0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 08/11] fix: transform the keys of each block with the block's
 own masks

The keys have shape (2, key length, blocks). They were reinterpreted as a matrix
with one row per block without moving the block axis to the front, so a row
mixed keys of different blocks and labels.
---
 src/protocol/garble.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 62b9f45..2dd38fa 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -176,9 +176,13 @@ pub async fn garble<const W: u8>(
     let out_shares = {
         let (rand, rand_n) = tf_out_fut.await.unwrap();
 
+        // Reorder the axes to (num_blocks, 2, lpn_key_len) before flattening.
         let mut inp = preproc
             .keys
-            .clone()
+            .view()
+            .permuted_axes([2, 0, 1])
+            .as_standard_layout()
+            .into_owned()
             .into_shape((num_blocks, 2 * mpcctx.lpn_key_len))
             .unwrap();
         inp.push(Axis(1), preproc.masks.view()).unwrap();
-- 
2.43.0


From 1a8249475b6a6f7cca2ea997ee4c4b004ca4f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 09/11] fix: negate the input when garbling an INV gate

The first row corresponds to masked input 0, so its masked output is the negation
of the input mask plus the output mask. Without the negation the table was that
of a buffer.
---
 src/protocol/garble.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 2dd38fa..8e2f11d 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -582,7 +582,7 @@ async fn garble_inv<const W: u8>(
     // Select the message to be encrypted in each row of the garbled table.
     // Shape: (2, lpn_mssg_len)
     let mssgs = {
-        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask);
+        let selector = Array1::from_elem(mpcctx.lpn_key_len + 1, inp_mask + out_mask + GF::ONE);
         let multiplicand =
             (&out_keys.index_axis(Axis(0), 1) - &out_keys.index_axis(Axis(0), 0)).to_owned();
 
-- 
2.43.0


From ca1f00a6b7084d7ecb44a7d2fd8baa6529a1882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:02 +0000
Subject: [PATCH 10/11] fix: encrypt the masked output value in garbled rows

Output keys are indexed by the masked value of the wire, and the evaluator needs
the masked value to choose the row of the next gate. The appended value was the
masked value plus the mask, i.e., the cleartext value of every internal wire.
---
 src/protocol/garble.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protocol/garble.rs b/src/protocol/garble.rs
index 8e2f11d..f1111bf 100644
--- a/src/protocol/garble.rs
+++ b/src/protocol/garble.rs
@@ -379,9 +379,9 @@ async fn garble_and<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 4 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append the corresponding masked value to each key.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     let inp_mask_prod = core::mult(
@@ -491,9 +491,9 @@ async fn garble_xor<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 4 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append the corresponding masked value to each key.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     // Select the message to be encrypted in each row of the garbled table.
@@ -574,9 +574,9 @@ async fn garble_inv<const W: u8>(
     debug_assert_eq!(zeros.len(), num_mult);
     debug_assert_eq!(errors.len(), 2 * mpcctx.lpn_mssg_len);
 
-    // Append corresponding masks to keys.
+    // Append the corresponding masked value to each key.
     out_keys
-        .push_column(Array1::from_vec(vec![out_mask, out_mask + GF::ONE]).view())
+        .push_column(Array1::from_vec(vec![GF::ZERO, GF::ONE]).view())
         .unwrap();
 
     // Select the message to be encrypted in each row of the garbled table.
-- 
2.43.0


From fb6daaccebd58e425d15341aa38c38bc2ebb2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:45 +0000
Subject: [PATCH 11/11] fix: record the number of threads in benchmark reports

The saved details stored the number of repetitions as the number of threads.
---
 src/bin/garble.rs  | 2 +-
 src/bin/preproc.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/garble.rs b/src/bin/garble.rs
index fed627e..e2fe725 100644
--- a/src/bin/garble.rs
+++ b/src/bin/garble.rs
@@ -159,7 +159,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: Garble) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps,
+                    threads: opts.threads,
                 },
                 benchmarks: json::JsonValue::new_array()
             };
diff --git a/src/bin/preproc.rs b/src/bin/preproc.rs
index aa84bef..f0a616c 100644
--- a/src/bin/preproc.rs
+++ b/src/bin/preproc.rs
@@ -163,7 +163,7 @@ async fn benchmark(circ: PackedCircuit, ipaddrs: Vec<String>, opts: PreProc) {
                     lpn_key_len: opts.lpn_key_len,
                     lpn_mssg_len: opts.lpn_mssg_len,
                     reps: opts.reps,
-                    threads: opts.reps
+                    threads: opts.threads
                 },
                 benchmarks: json::JsonValue::new_array()
             };
-- 
2.43.0

