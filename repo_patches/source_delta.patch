From f819acfde4a87eb89b7ba3d5ad2d59e079a3cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/13] fix: DirectHasher::crh returns DomainTooLarge instead
 of panicking on long domains

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From 2d141b2ed9037e513c93ebdcc7742a913e97947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 02/13] fix: PublicKeyCache::aggregate recognises a key in any
 projective representation

---
 crates/bls-crypto/src/bls/cache.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bls-crypto/src/bls/cache.rs b/crates/bls-crypto/src/bls/cache.rs
index c5cda0e..724c039 100644
--- a/crates/bls-crypto/src/bls/cache.rs
+++ b/crates/bls-crypto/src/bls/cache.rs
@@ -1,5 +1,6 @@
 use super::PublicKey;
 use ark_bls12_377::G2Projective;
+use ark_ec::{AffineCurve, ProjectiveCurve};
 use ark_ff::Zero;
 use ark_serialize::{CanonicalDeserialize, SerializationError};
 
@@ -65,7 +66,10 @@ impl PublicKeyCache {
     pub fn aggregate(&mut self, public_keys: Vec<PublicKey>) -> PublicKey {
         let mut keys: HashSet<WrappedPublicKey> = HashSet::with_capacity(public_keys.len());
         for key in public_keys {
-            keys.insert(WrappedPublicKey(key));
+            // `WrappedPublicKey` compares coordinates, so the same key must always be represented
+            // the same way. This is free for deserialized keys, which are already normalized.
+            let key = key.0.into_affine().into_projective();
+            keys.insert(WrappedPublicKey(PublicKey(key)));
         }
 
         let mut combined = self.combined.0;
-- 
2.43.0


From f250bd094f8d57fbce1f34b910a826a063c4df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 03/13] verif-hooks: expose the bitmap gadget to the
 verification harness (guarded)

---
 crates/bls-gadgets/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/bls-gadgets/src/lib.rs b/crates/bls-gadgets/src/lib.rs
index 4714ae7..5e0c78b 100644
--- a/crates/bls-gadgets/src/lib.rs
+++ b/crates/bls-gadgets/src/lib.rs
@@ -17,3 +17,9 @@ pub use hash_to_group::{hash_to_bits, HashToGroupGadget};
 
 /// Utility functions which do not involve generating constraints
 pub mod utils;
+
+/// Private items, for the verification harness only
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub use crate::bitmap::Bitmap;
+}
-- 
2.43.0


From 3a0c05f300666ba277616bf271e1ab8454f3ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 04/13] verif-hooks: expose epoch gadgets and encodings to the
 verification harness (guarded)

---
 crates/epoch-snark/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/epoch-snark/src/lib.rs b/crates/epoch-snark/src/lib.rs
index 74db489..599e218 100644
--- a/crates/epoch-snark/src/lib.rs
+++ b/crates/epoch-snark/src/lib.rs
@@ -32,3 +32,14 @@ pub use epoch_block::{EpochBlock, EpochTransition};
 
 mod gadgets;
 pub use gadgets::ValidatorSetUpdate;
+
+/// Private items, for the verification harness only
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub use crate::encoding::encode_public_key;
+    pub use crate::epoch_block::{hash_first_last_epoch_block, hash_to_bits, EpochType};
+    pub use crate::gadgets::{
+        pack, ConstrainedEpoch, EpochBits, EpochData, HashToBits, HashToBitsHelper,
+        MultipackGadget, SingleUpdate, ValidatorSetUpdate,
+    };
+}
-- 
2.43.0


From ef3f15ab05130057fca28240a35c8d5097e5ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:42 +0000
Subject: [PATCH 05/13] fix: the bitmap gadget counts occurrences beyond 255

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0


From 2e2f2d3684e0db6a8b07477fbcf6f53bed90faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 06/13] fix: numbers in epoch circuits must fit the width they
 are encoded in

---
 crates/epoch-snark/src/gadgets/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/epoch-snark/src/gadgets/mod.rs b/crates/epoch-snark/src/gadgets/mod.rs
index 9477c23..95edd6a 100644
--- a/crates/epoch-snark/src/gadgets/mod.rs
+++ b/crates/epoch-snark/src/gadgets/mod.rs
@@ -94,6 +94,10 @@ fn bytes_to_fr(cs: ConstraintSystemRef<Fr>, bytes: Option<&[u8]>) -> Result<FrVa
 #[tracing::instrument(target = "r1cs")]
 fn fr_to_bits(input: &FrVar, length: usize) -> Result<Vec<Bool>, SynthesisError> {
     let input = input.to_bits_le()?;
+    // The input must fit in `length` bits
+    for bit in &input[length..] {
+        bit.enforce_equal(&Bool::constant(false))?;
+    }
     let result = input[0..length].to_vec();
     Ok(result)
 }
-- 
2.43.0


From 7eac53f3c6b40c443297a16ab37b3de97c877102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 07/13] fix: points compared or encoded by their coordinates
 must be affine

---
 crates/bls-gadgets/src/hash_to_group.rs      | 7 ++++++-
 crates/epoch-snark/src/gadgets/epoch_data.rs | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/hash_to_group.rs b/crates/bls-gadgets/src/hash_to_group.rs
index 7fbc6a9..100e260 100644
--- a/crates/bls-gadgets/src/hash_to_group.rs
+++ b/crates/bls-gadgets/src/hash_to_group.rs
@@ -19,7 +19,7 @@ use ark_r1cs_std::{
     bits::ToBitsGadget,
     boolean::Boolean,
     eq::EqGadget,
-    fields::fp::FpVar,
+    fields::{fp::FpVar, FieldVar},
     groups::bls12::G1Var,
     groups::CurveVar,
     uint8::UInt8,
@@ -294,6 +294,11 @@ impl<P: Bls12Parameters> HashToGroupGadget<P, Bls12_377_Fq> {
                 AllocationMode::Witness,
             )?;
 
+        // The coordinates are compared with the bits as they are, so they must be the affine ones
+        expected_point_before_cofactor
+            .z
+            .enforce_equal(&FpVar::one())?;
+
         trace!("compressing y");
         // Point compression on the G1 Gadget
         let (compressed_point, compressed_sign_bit): (
diff --git a/crates/epoch-snark/src/gadgets/epoch_data.rs b/crates/epoch-snark/src/gadgets/epoch_data.rs
index 3aeed97..940ce93 100644
--- a/crates/epoch-snark/src/gadgets/epoch_data.rs
+++ b/crates/epoch-snark/src/gadgets/epoch_data.rs
@@ -1,5 +1,5 @@
 use ark_bls12_377::{
-    constraints::{G1Var, G2Var},
+    constraints::{Fq2Var, G1Var, G2Var},
     Bls12_377, Fq as Bls12_377_Fq, Parameters as Bls12_377_Parameters,
 };
 use ark_bw6_761::Fr;
@@ -197,6 +197,9 @@ impl EpochData<Bls12_377> {
                 AllocationMode::Witness,
             )?;
 
+            // The coordinates are encoded as they are, so they must be the affine ones
+            pk_var.z.enforce_equal(&Fq2Var::one())?;
+
             // extend our epoch bits by the pubkeys
             let pk_bits = g2_to_bits(&pk_var)?;
             epoch_bits.extend_from_slice(&pk_bits);
-- 
2.43.0


From 39a5cd7662a07262b6ed986a2e3210e6e36e1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 08/13] fix: fill short chains up with dummies the padded
 validators can precede

prove() gave its dummy updates an all-ones bitmap, which the circuit refuses when the
validator set before the last block contains padding keys: proofs of short, padded chains
never verified.
---
 crates/epoch-snark/src/api/prover.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..31782f6 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -43,7 +43,7 @@ pub fn prove(
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, &epochs[num_epochs - 1].signed_bitmap))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -143,7 +143,9 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+/// Dummy updates come right before the last one: the bitmap that is admissible for the
+/// validators (and padding) preceding the last update is admissible for them, too.
+fn to_dummy_update(num_validators: u32, signed_bitmap: &[Option<bool>]) -> SingleUpdate<BLSCurve> {
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -155,6 +157,6 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap: signed_bitmap.to_vec(),
     }
 }
-- 
2.43.0


From 729e7dc0bd078398a1e6b18f6a74c7c8140fa851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 09/13] fix: foreign callers may pass a null pointer for an
 empty array

slice::from_raw_parts needs a non-null pointer also for no elements: it
aborts in debug builds and is undefined behaviour in release builds. C and
Go callers have no other pointer to give for an empty message, extra data
or list.
---
 crates/bls-snark-sys/src/serialization.rs     | 12 ++--
 crates/bls-snark-sys/src/signatures.rs        | 58 ++++++++-----------
 crates/bls-snark-sys/src/snark/epoch_block.rs | 18 +++---
 crates/bls-snark-sys/src/utils.rs             | 27 ++++++++-
 4 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..69bea4a 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -1,11 +1,12 @@
 use super::{convert_result_to_bool, PrivateKey, PublicKey, Signature};
 use crate::cache::PUBLIC_KEY_CACHE;
+use crate::utils::slice_from;
 use ark_bls12_377::{Fq, Fq2, G1Affine, G2Affine};
 use ark_ec::AffineCurve;
 use ark_ff::FromBytes;
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use bls_crypto::BLSError;
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 // Serialization & deserialization
 
@@ -48,8 +49,7 @@ pub extern "C" fn deserialize_public_key_cached(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let mut cache = PUBLIC_KEY_CACHE.lock().expect("mutex poisoned");
-        let bytes =
-            unsafe { slice::from_raw_parts(in_public_key_bytes, in_public_key_bytes_len as usize) };
+        let bytes = unsafe { slice_from(in_public_key_bytes, in_public_key_bytes_len as usize) };
         let key = cache.deserialize(bytes.to_vec())?;
         unsafe {
             *out_public_key = Box::into_raw(Box::new(key));
@@ -110,7 +110,7 @@ fn deserialize<T: CanonicalDeserialize>(
     out: *mut *mut T,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let bytes = unsafe { slice::from_raw_parts(in_bytes, in_bytes_len as usize) };
+        let bytes = unsafe { slice_from(in_bytes, in_bytes_len as usize) };
         #[allow(clippy::redundant_slicing)]
         let key: T = CanonicalDeserialize::deserialize(&mut &bytes[..])?;
         unsafe {
@@ -171,7 +171,7 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
+        let signature = unsafe { slice_from(in_signature, in_signature_len as usize) };
         let x = Fq::read(&signature[0..48]).unwrap();
         let y = Fq::read(&signature[48..96]).unwrap();
         let affine = G1Affine::new(x, y, false);
@@ -196,7 +196,7 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
+        let pubkey = unsafe { slice_from(in_pubkey, in_pubkey_len as usize) };
         let x = Fq2::read(&pubkey[0..96]).unwrap();
         let y = Fq2::read(&pubkey[96..192]).unwrap();
         let affine = G2Affine::new(x, y, false);
diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..08a537a 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -1,7 +1,7 @@
 use crate::{
     cache::PUBLIC_KEY_CACHE,
     convert_result_to_bool,
-    utils::{BatchMessageFFI, Message, MessageFFI},
+    utils::{slice_from, slice_from_mut, BatchMessageFFI, Message, MessageFFI},
     Batch, PrivateKey, PublicKey, Signature, COMPOSITE_HASH_TO_G1, DIRECT_HASH_TO_G1,
 };
 use ark_ec::ProjectiveCurve;
@@ -10,7 +10,7 @@ use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP
 use bls_crypto::hashers::{DirectHasher, COMPOSITE_HASHER};
 use bls_crypto::Hasher;
 use bls_crypto::{BLSError, HashToCurve, POP_DOMAIN, SIG_DOMAIN};
-use std::{os::raw::c_int, slice};
+use std::os::raw::c_int;
 
 /// # Safety
 ///
@@ -53,9 +53,8 @@ pub extern "C" fn sign_message(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from(in_extra_data, in_extra_data_len as usize) };
         let signature = match (should_use_composite, should_use_cip22) {
             (true, true) => private_key.sign(message, extra_data, &*COMPOSITE_HASH_TO_G1_CIP22)?,
             (false, true) => return Err(BLSError::HashToCurveError),
@@ -79,7 +78,7 @@ pub extern "C" fn sign_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let private_key = unsafe { &*in_private_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let signature = private_key.sign_pop(message, &*DIRECT_HASH_TO_G1)?;
         unsafe {
             *out_signature = Box::into_raw(Box::new(signature));
@@ -98,7 +97,7 @@ pub extern "C" fn hash_direct(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let hash = DIRECT_HASH_TO_G1.hash(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -123,7 +122,7 @@ pub extern "C" fn hash_direct_with_attempt(
     use_pop: bool,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let domain = if use_pop { POP_DOMAIN } else { SIG_DOMAIN };
         let (hash, c) = DIRECT_HASH_TO_G1.hash_with_attempt(domain, message, &[])?;
         let mut obj_bytes = vec![];
@@ -149,9 +148,8 @@ pub extern "C" fn hash_composite(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from(in_extra_data, in_extra_data_len as usize) };
         let hash = COMPOSITE_HASH_TO_G1.hash(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -174,7 +172,7 @@ pub extern "C" fn hash_crh(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let hash = COMPOSITE_HASHER.crh(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -197,7 +195,7 @@ pub extern "C" fn hash_direct_first_step(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let hash = DirectHasher.hash(SIG_DOMAIN, message, hash_bytes as usize)?;
         let mut obj_bytes = vec![];
         hash.write(&mut obj_bytes)?;
@@ -222,9 +220,8 @@ pub extern "C" fn hash_composite_cip22(
     attempt_counter: *mut u8,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from(in_extra_data, in_extra_data_len as usize) };
         let (hash, counter) =
             COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, message, extra_data)?;
         let mut obj_bytes = vec![];
@@ -254,9 +251,8 @@ pub extern "C" fn verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
-        let extra_data =
-            unsafe { slice::from_raw_parts(in_extra_data, in_extra_data_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
+        let extra_data = unsafe { slice_from(in_extra_data, in_extra_data_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = match (should_use_composite, should_use_cip22) {
             (true, true) => public_key
@@ -296,7 +292,7 @@ pub extern "C" fn batch_verify_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         // Get the pointers slice
-        let messages: &[MessageFFI] = unsafe { slice::from_raw_parts(messages_ptr, messages_len) };
+        let messages: &[MessageFFI] = unsafe { slice_from(messages_ptr, messages_len) };
 
         // Get the data from the underlying pointers in the right format
         let messages = messages.iter().map(Message::from).collect::<Vec<_>>();
@@ -349,25 +345,22 @@ pub extern "C" fn batch_verify_strict(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let batch_messages: &[BatchMessageFFI] =
-            unsafe { slice::from_raw_parts(in_batches_ptr, in_batches_len) };
+            unsafe { slice_from(in_batches_ptr, in_batches_len) };
 
-        let results: &mut [bool] =
-            unsafe { slice::from_raw_parts_mut(out_results, in_batches_len) };
+        let results: &mut [bool] = unsafe { slice_from_mut(out_results, in_batches_len) };
         let mut all_valid = true;
 
         for (index, batch) in batch_messages.iter().enumerate() {
             let message = <&[u8]>::from(&batch.data);
             let extra_data = <&[u8]>::from(&batch.extra);
 
-            let public_keys =
-                unsafe { slice::from_raw_parts(batch.public_keys, batch.public_keys_len) };
+            let public_keys = unsafe { slice_from(batch.public_keys, batch.public_keys_len) };
             let public_keys = public_keys
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
                 .collect::<Vec<_>>();
 
-            let signatures =
-                unsafe { slice::from_raw_parts(batch.signatures, batch.signatures_len) };
+            let signatures = unsafe { slice_from(batch.signatures, batch.signatures_len) };
             let signatures = signatures
                 .iter()
                 .map(|ptr| unsafe { (**ptr).clone() })
@@ -413,7 +406,7 @@ pub extern "C" fn verify_pop(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let public_key = unsafe { &*in_public_key };
-        let message = unsafe { slice::from_raw_parts(in_message, in_message_len as usize) };
+        let message = unsafe { slice_from(in_message, in_message_len as usize) };
         let signature = unsafe { &*in_signature };
         let verified = public_key
             .verify_pop(message, signature, &*DIRECT_HASH_TO_G1)
@@ -431,8 +424,7 @@ pub extern "C" fn aggregate_public_keys(
     out_public_key: *mut *mut PublicKey,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+        let public_keys_ptrs = unsafe { slice_from(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -459,8 +451,7 @@ pub extern "C" fn aggregate_public_keys_subtract(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let aggregated_public_key = unsafe { &*in_aggregated_public_key };
-        let public_keys_ptrs =
-            unsafe { slice::from_raw_parts(in_public_keys, in_public_keys_len as usize) };
+        let public_keys_ptrs = unsafe { slice_from(in_public_keys, in_public_keys_len as usize) };
         let public_keys = public_keys_ptrs
             .iter()
             .copied()
@@ -488,8 +479,7 @@ pub extern "C" fn aggregate_signatures(
     out_signature: *mut *mut Signature,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signatures_ptrs =
-            unsafe { slice::from_raw_parts(in_signatures, in_signatures_len as usize) };
+        let signatures_ptrs = unsafe { slice_from(in_signatures, in_signatures_len as usize) };
         let signatures = signatures_ptrs
             .iter()
             .copied()
diff --git a/crates/bls-snark-sys/src/snark/epoch_block.rs b/crates/bls-snark-sys/src/snark/epoch_block.rs
index 3cb5824..04e1e8d 100644
--- a/crates/bls-snark-sys/src/snark/epoch_block.rs
+++ b/crates/bls-snark-sys/src/snark/epoch_block.rs
@@ -1,4 +1,5 @@
 use crate::convert_result_to_bool;
+use crate::utils::slice_from;
 use ark_bls12_377::G2Affine;
 use ark_ec::{AffineCurve, ProjectiveCurve};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
@@ -7,7 +8,6 @@ use epoch_snark::{EncodingError, EpochBlock};
 use std::{
     convert::TryFrom,
     os::raw::{c_int, c_uchar, c_uint, c_ushort},
-    slice,
 };
 
 /// Each pubkey is a BLS G2Projective element
@@ -29,9 +29,8 @@ pub extern "C" fn encode_epoch_block_to_bytes_cip22(
     out_extra_data_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -75,9 +74,8 @@ pub extern "C" fn encode_epoch_block_to_bytes(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, EncodingError, _>(|| {
-        let added_public_keys_ptrs = unsafe {
-            slice::from_raw_parts(in_added_public_keys, in_added_public_keys_len as usize)
-        };
+        let added_public_keys_ptrs =
+            unsafe { slice_from(in_added_public_keys, in_added_public_keys_len as usize) };
         let added_public_keys = added_public_keys_ptrs
             .iter()
             .copied()
@@ -155,7 +153,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
     ptr: *const u8,
     len: usize,
 ) -> Result<C, EncodingError> {
-    let mut data = slice::from_raw_parts(ptr, len);
+    let mut data = slice_from(ptr, len);
     Ok(C::deserialize(&mut data)?)
 }
 
@@ -166,7 +164,7 @@ pub unsafe fn read_slice<C: CanonicalDeserialize>(
 /// This WILL read invalid data if you give it a larger `num` argument
 /// than expected. Use with caution.
 unsafe fn read_serialized_pubkeys<'a>(ptr: *const u8, num: usize) -> &'a [u8] {
-    slice::from_raw_parts(ptr, num * PUBKEY_BYTES)
+    slice_from(ptr, num * PUBKEY_BYTES)
 }
 
 /// Serializes the inner G2 elements of the pubkeys to a vector
@@ -205,7 +203,7 @@ unsafe fn read_epoch_entropy(ptr: *const u8) -> Option<Vec<u8>> {
     if ptr.is_null() {
         None
     } else {
-        Some(slice::from_raw_parts(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
+        Some(slice_from(ptr, EpochBlock::ENTROPY_BYTES).to_vec())
     }
 }
 
diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index b52ba8a..30eadb4 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -4,6 +4,31 @@
 use super::{PublicKey, Signature};
 use std::slice;
 
+/// The `len` elements at `ptr`. Foreign callers may pass any pointer, also a null one,
+/// for no elements.
+///
+/// # Safety
+///
+/// Unless `len` is 0, `ptr` must be valid for reads of `len` elements.
+pub(crate) unsafe fn slice_from<'a, T>(ptr: *const T, len: usize) -> &'a [T] {
+    if len == 0 {
+        return &[];
+    }
+    slice::from_raw_parts(ptr, len)
+}
+
+/// The `len` elements at `ptr`, to be written to.
+///
+/// # Safety
+///
+/// Unless `len` is 0, `ptr` must be valid for reads and writes of `len` elements.
+pub(crate) unsafe fn slice_from_mut<'a, T>(ptr: *mut T, len: usize) -> &'a mut [T] {
+    if len == 0 {
+        return &mut [];
+    }
+    slice::from_raw_parts_mut(ptr, len)
+}
+
 /// A per-epoch block witness to be used with the batch sig verification
 #[derive(Clone, Debug, PartialEq)]
 pub struct Message<'a> {
@@ -92,7 +117,7 @@ impl From<&[u8]> for Buffer {
 
 impl<'a> From<&Buffer> for &'a [u8] {
     fn from(src: &Buffer) -> &'a [u8] {
-        unsafe { slice::from_raw_parts(src.ptr, src.len) }
+        unsafe { slice_from(src.ptr, src.len) }
     }
 }
 
-- 
2.43.0


From 7b91bb1c7908b13e43bf073fe2608d29c4de0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 10/13] fix: compressing what is no pair of coordinates fails
 instead of ending the process

---
 crates/bls-snark-sys/src/serialization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 69bea4a..3558e15 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -171,9 +171,9 @@ pub extern "C" fn compress_signature(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let signature = unsafe { slice_from(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut signature = unsafe { slice_from(in_signature, in_signature_len as usize) };
+        let x = Fq::read(&mut signature)?;
+        let y = Fq::read(&mut signature)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -196,9 +196,9 @@ pub extern "C" fn compress_pubkey(
     out_len: *mut c_int,
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
-        let pubkey = unsafe { slice_from(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut pubkey = unsafe { slice_from(in_pubkey, in_pubkey_len as usize) };
+        let x = Fq2::read(&mut pubkey)?;
+        let y = Fq2::read(&mut pubkey)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From 875df0fe5a04fdad633e4ef636d21d89c037d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 11/13] fix: an empty slice makes an empty buffer instead of
 panicking

---
 crates/bls-snark-sys/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/utils.rs b/crates/bls-snark-sys/src/utils.rs
index 30eadb4..f41192b 100644
--- a/crates/bls-snark-sys/src/utils.rs
+++ b/crates/bls-snark-sys/src/utils.rs
@@ -109,7 +109,7 @@ pub struct Buffer {
 impl From<&[u8]> for Buffer {
     fn from(src: &[u8]) -> Self {
         Self {
-            ptr: &src[0] as *const u8,
+            ptr: src.as_ptr(),
             len: src.len(),
         }
     }
-- 
2.43.0


From 7c81b09cf6f62ff5ee12754964a2fa2910fdd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 12/13] fix: batch_verify_strict refuses a batch with more keys
 than signatures or the reverse

The keys and signatures were zipped, so the surplus entries were silently
left unverified and the batch was reported as good.
---
 crates/bls-snark-sys/src/signatures.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 08a537a..4ddf849 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -381,6 +381,8 @@ pub extern "C" fn batch_verify_strict(
                 (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
                 (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
             };
+            // an entry without a counterpart was not verified
+            let result = result && public_keys.len() == signatures.len();
 
             if !result {
                 all_valid = false;
-- 
2.43.0


From 44410fad6202aad05ab1cc013fffec70fd47b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 13/13] fix: keys and signatures announce the size of their
 uncompressed encoding

---
 crates/bls-crypto/src/bls/public.rs    | 4 ++++
 crates/bls-crypto/src/bls/signature.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/bls-crypto/src/bls/public.rs b/crates/bls-crypto/src/bls/public.rs
index e5706dc..869cb40 100644
--- a/crates/bls-crypto/src/bls/public.rs
+++ b/crates/bls-crypto/src/bls/public.rs
@@ -132,6 +132,10 @@ impl CanonicalSerialize for PublicKey {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for PublicKey {
diff --git a/crates/bls-crypto/src/bls/signature.rs b/crates/bls-crypto/src/bls/signature.rs
index 46aa7b3..0a37762 100644
--- a/crates/bls-crypto/src/bls/signature.rs
+++ b/crates/bls-crypto/src/bls/signature.rs
@@ -40,6 +40,10 @@ impl CanonicalSerialize for Signature {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for Signature {
-- 
2.43.0

