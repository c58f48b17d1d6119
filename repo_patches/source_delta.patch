From 34d457edb7e2d3e9a50877e805f99c7290076ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 01/28] fix: bind circom's constant wire and public signals to
 Spartan's constant and inputs

convert_to_spartan_r1cs mapped every wire, including the constant-one wire
and the public signals, to private variables: the inputs the verifier
supplied occurred in no constraint, so a proof verified for any of them.
---
 packages/circuit_reader/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..d36defc 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -25,23 +25,34 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     let mut B = vec![];
     let mut C = vec![];
 
+    // Wire 0 is the constant one, and the wires after it are the public signals.
+    // Point them at the constant and input columns of Spartan's z = (vars, 1, inputs),
+    // so that the constraints refer to the values the verifier supplies.
+    let column = |wire: usize| {
+        if wire <= num_pub_inputs {
+            num_vars + wire
+        } else {
+            wire
+        }
+    };
+
     for (i, constraint) in r1cs.constraints.iter().enumerate() {
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
 
-            A.push((i, *j, bytes));
+            A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            B.push((i, *j, bytes));
+            B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
             let bytes: [u8; 32] = coeff.to_repr().into();
-            C.push((i, *j, bytes));
+            C.push((i, column(*j), bytes));
         }
     }
 
-- 
2.43.0


From 5958db88bd5aa0d6b910cff5403bbb4e29cf3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 02/28] fix: decode the big-endian public inputs given to prove
 and verify

The TypeScript client and this crate's test encode public inputs big-endian,
but they were passed to Assignment::new, which reads little-endian.
---
 packages/spartan_wasm/src/wasm.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..d4b4880 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -34,11 +34,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut input = Vec::new();
-    for i in 0..num_inputs {
-        input.push(public_inputs[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-    let input = Assignment::new(&input).unwrap();
+    let input = Assignment::new(&read_public_inputs(public_inputs, num_inputs)).unwrap();
 
     let mut prover_transcript = Transcript::new(b"nizk_example");
 
@@ -66,12 +62,7 @@ pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool,
     // produce public parameters
     let gens = NIZKGens::new(num_cons, num_vars, num_inputs);
 
-    let mut inputs = Vec::new();
-    for i in 0..num_inputs {
-        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
-    }
-
-    let inputs = Assignment::new(&inputs).unwrap();
+    let inputs = Assignment::new(&read_public_inputs(public_input, num_inputs)).unwrap();
 
     let mut verifier_transcript = Transcript::new(b"nizk_example");
 
@@ -96,6 +87,18 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
     Ok(result.to_bytes().to_vec())
 }
 
+// The public inputs are 32-byte big-endian field elements, one after the other,
+// whereas `Assignment` expects little-endian bytes.
+fn read_public_inputs(bytes: &[u8], num_inputs: usize) -> Vec<[u8; 32]> {
+    (0..num_inputs)
+        .map(|i| {
+            let mut input: [u8; 32] = bytes[(i * 32)..((i + 1) * 32)].try_into().unwrap();
+            input.reverse();
+            input
+        })
+        .collect()
+}
+
 // Copied from Nova Scotia
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
-- 
2.43.0


From a4318016af194bc5a6e566efcd56a4fa4e742393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 03/28] fix: serialize field elements in the form
 deserialization reads

Serialize wrote the 40 bytes of the five internal Montgomery limbs while
Deserialize reads 32 bytes of the plain value, so nothing round-tripped.
---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 packages/secq256k1/src/field/field_secq.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..9f7cafb 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -283,7 +283,7 @@ impl SqrtRatio for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..d5433df 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -347,7 +347,7 @@ impl BaseField for FieldElement {
 
 impl Serialize for FieldElement {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        let values: Vec<u8> = self.0.iter().map(|v| v.to_le_bytes()).flatten().collect();
+        let values = self.to_bytes();
         let mut seq = serializer.serialize_seq(Some(values.len()))?;
         for val in values.iter() {
             seq.serialize_element(val)?;
-- 
2.43.0


From 03fabe823331c35da03014551f4e858ce3247ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 04/28] fix: report an undecodable group element instead of
 panicking

The error path of unpack converted the 33-byte SEC1 encoding to [u8; 32],
which always panicked, and decompress unwrapped the error it was to map to None.
---
 packages/Spartan-secq/src/errors.rs | 2 +-
 packages/Spartan-secq/src/group.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/Spartan-secq/src/errors.rs b/packages/Spartan-secq/src/errors.rs
index 18e157b..145127e 100644
--- a/packages/Spartan-secq/src/errors.rs
+++ b/packages/Spartan-secq/src/errors.rs
@@ -6,7 +6,7 @@ pub enum ProofVerifyError {
   #[error("Proof verification failed")]
   InternalError,
   #[error("Compressed group element failed to decompress: {0:?}")]
-  DecompressionError([u8; 32]),
+  DecompressionError(Vec<u8>),
 }
 
 impl Default for ProofVerifyError {
diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..8e7274a 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -20,7 +20,7 @@ impl CompressedGroupExt for CompressedGroup {
       return Ok(result.unwrap());
     } else {
       Err(ProofVerifyError::DecompressionError(
-        (*self.to_bytes()).try_into().unwrap(),
+        self.as_bytes().to_vec(),
       ))
     }
   }
@@ -32,7 +32,7 @@ pub trait DecompressEncodedPoint {
 
 impl DecompressEncodedPoint for CompressedGroup {
   fn decompress(&self) -> Option<GroupElement> {
-    Some(self.unpack().unwrap())
+    self.unpack().ok()
   }
 }
 
-- 
2.43.0


From 9f075f6bd0e505f79d809819a39539c3e49a728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 05/28] fix: refuse inner-product proofs with more R than L
 elements

An extra R element took the place of the commitment in the verifier's
multi-scalar multiplication without ever entering the transcript, so a
prover could open a commitment to any value.
---
 packages/Spartan-secq/src/nizk/bullet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..eade884 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -163,7 +163,7 @@ impl BulletReductionProof {
       // and this check prevents overflow in 1<<lg_n below.
       return Err(ProofVerifyError::InternalError);
     }
-    if n != (1 << lg_n) {
+    if n != (1 << lg_n) || self.R_vec.len() != lg_n {
       return Err(ProofVerifyError::InternalError);
     }
 
-- 
2.43.0


From f1f50665052b4147fd4ce3b78739006a8828e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 06/28] fix: check the lengths of the evaluations in the
 sparse-polynomial hash layer

The verifier looped over as many addresses as the proof supplied. As all
evaluations are opened as one concatenated vector, a prover could move the
addresses into the timestamps and skip every read and write check.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..4b3c799 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -937,6 +937,13 @@ impl HashLayerProof {
     let (eval_row_addr_vec, eval_row_read_ts_vec, eval_row_audit_ts) = &self.eval_row;
     let (eval_col_addr_vec, eval_col_read_ts_vec, eval_col_audit_ts) = &self.eval_col;
 
+    // the evaluations are decommitted as one concatenated vector, so check where each part ends
+    assert_eq!(eval_row_addr_vec.len(), eval_row_ops_val.len());
+    assert_eq!(eval_row_read_ts_vec.len(), eval_row_ops_val.len());
+    assert_eq!(eval_col_addr_vec.len(), eval_row_ops_val.len());
+    assert_eq!(eval_col_read_ts_vec.len(), eval_row_ops_val.len());
+    assert_eq!(eval_val_vec.len(), eval_row_ops_val.len());
+
     let mut evals_ops: Vec<Scalar> = Vec::new();
     evals_ops.extend(eval_row_addr_vec);
     evals_ops.extend(eval_row_read_ts_vec);
-- 
2.43.0


From 72f984c7f779a72cf9b18765879d982effad5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 07/28] fix: read field elements of circom files as
 little-endian

The bytes were given to the big-endian from_repr, so the parsers returned
byte-reversed values and panicked on valid elements whose low bytes are all ones.
Reading and re-encoding cancelled out for the remaining values.
---
 packages/circuit_reader/src/circom_reader.rs |  7 ++++---
 packages/circuit_reader/src/lib.rs           | 12 +++++++++---
 packages/spartan_wasm/src/wasm.rs            | 11 ++++++-----
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..5aab60d 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -69,11 +69,12 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    // The file stores field elements little-endian, Fr's representation is big-endian.
+    repr.as_mut().reverse();
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Field element is not canonical"))
 }
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index d36defc..045c856 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -13,6 +13,12 @@ pub fn load_as_spartan_inst(circuit_file: PathBuf, num_pub_inputs: usize) -> Ins
     spartan_inst
 }
 
+fn to_le_bytes<F: PrimeField<Repr = FieldBytes>>(coeff: &F) -> [u8; 32] {
+    let mut bytes: [u8; 32] = coeff.to_repr().into();
+    bytes.reverse();
+    bytes
+}
+
 fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
@@ -40,18 +46,18 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
 
             A.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             B.push((i, column(*j), bytes));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
+            let bytes = to_le_bytes(coeff);
             C.push((i, column(*j), bytes));
         }
     }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index d4b4880..9c55a42 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -5,7 +5,7 @@ use libspartan::{Assignment, Instance, NIZKGens, NIZK};
 use merlin::Transcript;
 use poseidon::poseidon_k256::{hash, FieldElement};
 use secq256k1::{affine::Group, field::BaseField};
-use std::io::{Error, Read};
+use std::io::{Error, ErrorKind, Read};
 use wasm_bindgen::prelude::*;
 
 pub type G1 = secq256k1::AffinePoint;
@@ -21,7 +21,7 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| w.to_bytes())
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -103,11 +103,12 @@ fn read_public_inputs(bytes: &[u8], num_inputs: usize) -> Vec<[u8; 32]> {
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    // The file stores field elements little-endian, Fr's representation is big-endian.
+    repr.as_mut().reverse();
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Field element is not canonical"))
 }
 
 pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
-- 
2.43.0


From 4f3392e50975d55a20ee4c7bf009d741027d59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:44 +0000
Subject: [PATCH 08/28] fix: refuse R1CS and witness files over another prime
 field

The header's prime was read and ignored, so a circuit compiled for another
curve was converted and proved over the wrong field. Also compute the
expected witness section size without u32 overflow.
---
 packages/circuit_reader/src/circom_reader.rs | 15 +++++++++++----
 packages/spartan_wasm/src/wasm.rs            | 12 ++++++++----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 5aab60d..91fdb47 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -1,6 +1,6 @@
 // Code borrowed from Nova-Scotia https://github.com/nalinbhardwaj/Nova-Scotia
 use byteorder::{LittleEndian, ReadBytesExt};
-use ff::PrimeField;
+use ff::{Field, PrimeField};
 use group::Group;
 use itertools::Itertools;
 use std::{
@@ -189,9 +189,16 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
             "This parser only supports 32-byte fields",
         ));
     }
-    // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
-    //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
-    // }
+    // The modulus is -1 + 1; it is odd, so adding one to the lowest byte of -1 does not carry.
+    let mut prime = (-<G1 as Group>::Scalar::one()).to_repr();
+    prime.as_mut().reverse();
+    prime.as_mut()[0] += 1;
+    if header.prime_size != prime.as_ref() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "The file's prime is not the modulus of the scalar field",
+        ));
+    }
 
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&constraint_type).unwrap(),
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 9c55a42..06b234e 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -144,9 +144,13 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
     }
     let mut prime = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime)?;
-    // if prime != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
-    //     bail!("invalid curve prime {:?}", prime);
-    // }
+    // The modulus is -1 + 1; it is odd, so adding one to the lowest byte of -1 does not carry.
+    let mut modulus = (-Fr::one()).to_repr();
+    modulus.as_mut().reverse();
+    modulus.as_mut()[0] += 1;
+    if prime != modulus.as_ref() {
+        panic!("invalid curve prime {:?}", prime);
+    }
     let witness_len = reader.read_u32::<LittleEndian>()?;
     // println!("witness len {}", witness_len);
     let sec_type = reader.read_u32::<LittleEndian>()?;
@@ -154,7 +158,7 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
         panic!("invalid section type");
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         panic!("invalid witness section size {}", sec_size);
     }
     let mut result = Vec::with_capacity(witness_len as usize);
-- 
2.43.0


From f4a09bc0a905fff722b67eacd04f83b277909267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 09/28] fix: give the characteristic's bits in little-endian
 order

---
 packages/secq256k1/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..8dbe6f1 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -310,7 +310,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From 5a6c6ac09b98e32c75aa6d67f16d9be2cb9b382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 10/28] fix: start every Poseidon hash at the first round
 constant

---
 packages/poseidon/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..9c7e033 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,7 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From 6ca704db42a863c16ea59d5b90b3d01b8e6c2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 11/28] fix: refuse serialized field elements of a wrong length

---
 packages/Spartan-secq/src/scalar/scalar.rs | 11 +++++++++--
 packages/secq256k1/src/field/field_secp.rs | 11 +++++++++--
 packages/secq256k1/src/field/field_secq.rs | 11 +++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..fcce526 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -222,7 +222,7 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
   type Value = Scalar;
 
   fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-    formatter.write_str("a sequence of 4 u64 values")
+    formatter.write_str("a sequence of 32 bytes")
   }
 
   fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
@@ -234,11 +234,18 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     for i in 0..4 {
       let mut val: u64 = 0;
       for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
+        let byte: u8 = seq
+          .next_element()?
+          .ok_or_else(|| serde::de::Error::invalid_length(8 * i + j as usize, &self))?;
+        val += (byte as u64) * 256u64.pow(j)
       }
       result[i] = val;
     }
 
+    if seq.next_element::<u8>()?.is_some() {
+      return Err(serde::de::Error::invalid_length(33, &self));
+    }
+
     Ok(Scalar::from_raw(result))
   }
 }
diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 9f7cafb..deb00cf 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -299,7 +299,7 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
@@ -311,11 +311,18 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
         for i in 0..4 {
             let mut val: u64 = 0;
             for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
+                let byte: u8 = seq
+                    .next_element()?
+                    .ok_or_else(|| serde::de::Error::invalid_length(8 * i + j as usize, &self))?;
+                val += (byte as u64) * 256u64.pow(j)
             }
             result[i] = val;
         }
 
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
+        }
+
         Ok(FieldElement::from_raw(result))
     }
 }
diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index d5433df..de26e31 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -363,7 +363,7 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     type Value = FieldElement;
 
     fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("a sequence of 4 u64 values")
+        formatter.write_str("a sequence of 32 bytes")
     }
 
     fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
@@ -375,11 +375,18 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
         for i in 0..4 {
             let mut val: u64 = 0;
             for j in 0..8 {
-                val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
+                let byte: u8 = seq
+                    .next_element()?
+                    .ok_or_else(|| serde::de::Error::invalid_length(8 * i + j as usize, &self))?;
+                val += (byte as u64) * 256u64.pow(j)
             }
             result[i] = val;
         }
 
+        if seq.next_element::<u8>()?.is_some() {
+            return Err(serde::de::Error::invalid_length(33, &self));
+        }
+
         Ok(FieldElement::from_raw(result))
     }
 }
-- 
2.43.0


From 7f8d7df789e56ebfd630ba00b7fec4634b2b49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 12/28] fix: pad an instance without constraints to two
 constraints

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..9672252 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -151,8 +151,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From c9f6f2d26ee51231ce614b8d474a360857be259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 13/28] fix: report a wrong number of variables as such

---
 packages/Spartan-secq/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 9672252..469b122 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -235,7 +235,7 @@ impl Instance {
     inputs: &InputsAssignment,
   ) -> Result<bool, R1CSError> {
     if vars.assignment.len() > self.inst.get_num_vars() {
-      return Err(R1CSError::InvalidNumberOfInputs);
+      return Err(R1CSError::InvalidNumberOfVars);
     }
 
     if inputs.assignment.len() != self.inst.get_num_inputs() {
-- 
2.43.0


From 1026e1c0c72d16a90d87cb235bcc062c25a6d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 14/28] fix: refuse sum-check proofs with more sub-proofs than
 rounds

---
 packages/Spartan-secq/src/sumcheck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From 5cf652b147f571916ac51f0005ea59c2fcb939e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 15/28] fix: support instances with at most one constraint or
 non-zero entry in the SNARK

The SNARK could not be set up for them: the parameters were not padded
to two constraints as the instance is, and the product circuits need at
least two (padded) entries per matrix.
---
 packages/Spartan-secq/src/lib.rs           | 3 +++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 469b122..fa98233 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -294,6 +294,9 @@ impl SNARKGens {
       num_vars_padded
     };
 
+    // instances have at least 2 constraints after padding
+    let num_cons = max(num_cons, 2);
+
     let gens_r1cs_sat = R1CSGens::new(b"gens_r1cs_sat", num_cons, num_vars_padded);
     let gens_r1cs_eval = R1CSCommitmentGens::new(
       b"gens_r1cs_eval",
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 4b3c799..df52b7e 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -297,6 +297,8 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
+    // the dense representation has at least 2 entries per matrix
+    let num_nz_entries = num_nz_entries.max(2);
     let num_vars_ops =
       num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
@@ -381,6 +383,7 @@ impl SparseMatPolynomial {
       .map(|i| sparse_polys[i].get_num_nz_entries())
       .max()
       .unwrap()
+      .max(2) // the product circuits need at least one layer
       .next_power_of_two();
 
     let mut ops_row_vec: Vec<Vec<usize>> = Vec::new();
-- 
2.43.0


From 006ff92fec4f837c90e680847e2b2e7eeb7f7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 16/28] fix: check the number of claims in product-circuit
 proofs

Extra claims in the lists of a proof were ignored.
---
 packages/Spartan-secq/src/product_tree.rs  | 5 +++++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..d760fbf 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -232,6 +232,7 @@ impl ProductCircuitEvalProof {
       let (claim_last, rand_prod) = self.proof[i].verify(claim, num_rounds, 3, transcript);
 
       let claims_prod = &self.proof[i].claims;
+      assert_eq!(claims_prod.len(), 2);
       transcript.append_scalar(b"claim_prod_left", &claims_prod[0]);
       transcript.append_scalar(b"claim_prod_right", &claims_prod[1]);
 
@@ -393,6 +394,10 @@ impl ProductCircuitEvalProofBatched {
     let mut rand: Vec<Scalar> = Vec::new();
     //let mut num_rounds = 0;
     assert_eq!(self.proof.len(), num_layers);
+    // each dot product is split into two halves, and each half has one claim
+    assert_eq!(self.claims_dotp.0.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.1.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.2.len(), claims_dotp_vec.len());
 
     let mut claims_to_verify = claims_prod_vec.to_owned();
     let mut claims_to_verify_dotp: Vec<Scalar> = Vec::new();
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index df52b7e..621412a 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1278,7 +1278,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
-- 
2.43.0


From e20a9650a87cf73b0a900b063441272b61803971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 17/28] fix: check the number of rows of an opened polynomial
 commitment

---
 packages/Spartan-secq/src/dense_mlpoly.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/Spartan-secq/src/dense_mlpoly.rs b/packages/Spartan-secq/src/dense_mlpoly.rs
index 6977304..5d2f526 100644
--- a/packages/Spartan-secq/src/dense_mlpoly.rs
+++ b/packages/Spartan-secq/src/dense_mlpoly.rs
@@ -376,6 +376,11 @@ impl PolyEvalProof {
     let eq = EqPolynomial::new(r.to_vec());
     let (L, R) = eq.compute_factored_evals();
 
+    // the commitment has one row for each element of L
+    if comm.C.len() != L.len() {
+      return Err(ProofVerifyError::InternalError);
+    }
+
     // compute a weighted sum of commitments and L
     let C_decompressed = comm.C.iter().map(|pt| pt.decompress().unwrap());
 
-- 
2.43.0


From 47c1979f420be906fec9c3023400c0d4e3dd1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:10 +0000
Subject: [PATCH 18/28] fix: complete addition returned infinity for points
 with yP + yQ = 1

zeroizeA compared isXEqual with 1 - (yP + yQ), which also holds when the x
coordinates differ and the y coordinates add up to one.
---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..9adc070 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -100,9 +100,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYOpposite = IsZero();
+    isYOpposite.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYOpposite.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From b554d17afb4ee9616434743633d66b5aa21ccc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 19/28] fix: the scalar reduction lost the carry between its
 128-bit halves

For s below 2^128 - tQlo's complement the low halves carry while the quotient
is zero; khi ignored the carry, so K output (s + tQ) mod q minus 2^128 and
Secp256k1Mul a wrong point (e.g. s = 2^128 - 1).
---
 .../circuits/eff_ecdsa_membership/secp256k1/mul.circom | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..9786c57 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -164,18 +164,18 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < qlo
     component theta = GreaterThan(129);
     theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
     component kloBits = Num2Bits(256);
     kloBits.in <== klo;
-- 
2.43.0


From 2af9e40aff69a5dcd8cea487d647614bb6627974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 20/28] fix: complete addition left lambdaA unconstrained for
 equal x coordinates

With xP = xQ both sides of dx * lambdaA === dy are zero for any lambdaA, so a
prover could choose the slope, and with it the result, of a doubling.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index 9adc070..e3b3371 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -74,6 +74,8 @@ template Secp256k1AddComplete() {
     signal dy <== (yQ - yP) * (1 - isXEqual.out);
     signal lambdaA <-- ((yQ - yP) / dx) * (1 - isXEqual.out);
     dx * lambdaA === dy;
+    // dx and dy are both zero when xP = xQ, so the above does not determine lambdaA
+    lambdaA * isXEqual.out === 0;
 
     // lambdaB = (3 * xP^2) / (2 * yP)
     signal lambdaB <-- ((3 * xPSquared) / (2 * yP));
-- 
2.43.0


From d0de7f64c21c23270737be3fb24c627b4f1a4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 21/28] fix: constrain the registers of the scalar reduction to
 the scalar

slo and shi were free: any pair gave a satisfying witness, so Secp256k1Mul and
everything above it could be made to multiply by a scalar other than s.
klo and khi are below 2^128; decomposing them into 256 bits left room for a
second decomposition.
---
 .../eff_ecdsa_membership/secp256k1/mul.circom | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 9786c57..94adbf2 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -123,6 +123,23 @@ template K() {
     signal slo <-- s & (2 ** (128) - 1);
     signal shi <-- s >> 128;
 
+    // s = slo + shi * 2^128, with both registers below 2^128 ...
+    slo + shi * 2 ** 128 === s;
+    component sloBits = Num2Bits(128);
+    sloBits.in <== slo;
+    component shiBits = Num2Bits(128);
+    shiBits.in <== shi;
+
+    // ... and slo + shi * 2^128 below the field's modulus 2^256 - 2^32 - 977,
+    // because s + modulus is a second 256-bit representation of a small s
+    component shiIsMax = IsEqual();
+    shiIsMax.in[0] <== shi;
+    shiIsMax.in[1] <== 2 ** 128 - 1;
+    component sloOverflows = GreaterEqThan(129);
+    sloOverflows.in[0] <== slo;
+    sloOverflows.in[1] <== 2 ** 128 - 2 ** 32 - 977;
+    shiIsMax.out * sloOverflows.out === 0;
+
     // Get carry bit of (slo + tQlo)
 
     component inBits = Num2Bits(128 + 1);
@@ -177,10 +194,10 @@ template K() {
     signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
     signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From b5d9e38b71ab9a09a4dc7fb6ddec83574ba60fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:20 +0000
Subject: [PATCH 22/28] fix: a small public key coordinate had two
 decompositions into bits

A prover could hash coordinate + modulus instead of a coordinate below
2^32 + 977 and so be a member under an address that is not the key's.
---
 .../addr_membership.circom                    |  4 +--
 .../eff_ecdsa_to_addr.circom                  |  4 +--
 .../to_address/zk-identity/eth.circom         | 34 +++++++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/addr_membership.circom b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
index b4d9f27..6f7ef0a 100644
--- a/packages/circuits/eff_ecdsa_membership/addr_membership.circom
+++ b/packages/circuits/eff_ecdsa_membership/addr_membership.circom
@@ -32,10 +32,10 @@ template AddrMembership(nLevels) {
     effEcdsa.Uy <== Uy;
     effEcdsa.s <== s;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = CoordinateToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = CoordinateToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
index 0c54599..c3b54a3 100644
--- a/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
+++ b/packages/circuits/eff_ecdsa_membership/eff_ecdsa_to_addr.circom
@@ -25,10 +25,10 @@ template EfficientECDSAToAddr() {
     effEcdsa.Ux <== Ux;
     effEcdsa.Uy <== Uy;
 
-    component pubKeyXBits = Num2Bits(256);
+    component pubKeyXBits = CoordinateToBits();
     pubKeyXBits.in <== effEcdsa.pubKeyX;
 
-    component pubKeyYBits = Num2Bits(256);
+    component pubKeyYBits = CoordinateToBits();
     pubKeyYBits.in <== effEcdsa.pubKeyY;
 
     component pubToAddr = PubkeyToAddress();
diff --git a/packages/circuits/eff_ecdsa_membership/to_address/zk-identity/eth.circom b/packages/circuits/eff_ecdsa_membership/to_address/zk-identity/eth.circom
index aafb2f0..84252f2 100644
--- a/packages/circuits/eff_ecdsa_membership/to_address/zk-identity/eth.circom
+++ b/packages/circuits/eff_ecdsa_membership/to_address/zk-identity/eth.circom
@@ -3,6 +3,7 @@ pragma circom 2.0.2;
 include "../vocdoni-keccak/keccak.circom";
 
 include "../../../../../node_modules/circomlib/circuits/bitify.circom";
+include "../../../../../node_modules/circomlib/circuits/comparators.circom";
 
 /*
  * Possibly generalizable, but for now just flatten a single pubkey from k n-bit chunks to a * single bit array
@@ -49,6 +50,39 @@ template FlattenPubkey(numBits, k) {
   }
 }
 
+/*
+ * Convert a public key coordinate to its 256 bits (little-endian).
+ *
+ * The field's modulus is 2^256 - 2^32 - 977, so Num2Bits(256) alone would accept the
+ * bits of coordinate + modulus as well when the coordinate is below 2^32 + 977.
+ */
+template CoordinateToBits() {
+    signal input in;
+    signal output out[256];
+
+    component bits = Num2Bits(256);
+    bits.in <== in;
+
+    var lo = 0;
+    var hi = 0;
+    for (var i = 0; i < 128; i++) {
+      lo += bits.out[i] * 2 ** i;
+      hi += bits.out[i + 128] * 2 ** i;
+    }
+
+    component hiIsMax = IsEqual();
+    hiIsMax.in[0] <== hi;
+    hiIsMax.in[1] <== 2 ** 128 - 1;
+    component loOverflows = GreaterEqThan(129);
+    loOverflows.in[0] <== lo;
+    loOverflows.in[1] <== 2 ** 128 - 2 ** 32 - 977;
+    hiIsMax.out * loOverflows.out === 0;
+
+    for (var i = 0; i < 256; i++) {
+      out[i] <== bits.out[i];
+    }
+}
+
 /*
  * Helper for verifying an eth address refers to the correct public key point
  *
-- 
2.43.0


From 39f533113b3d688799c4df279e0a88f167218df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 23/28] fix: a public input whose r is out of range or no
 x-coordinate is invalid

verifyEffEcdsaPubInput threw for an r that is not the x-coordinate of a point
and accepted some r above the group order; ECDSA requires r in [1, n - 1].
---
 packages/lib/src/helpers/publicInputs.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/lib/src/helpers/publicInputs.ts b/packages/lib/src/helpers/publicInputs.ts
index cc094ef..c0e4a92 100644
--- a/packages/lib/src/helpers/publicInputs.ts
+++ b/packages/lib/src/helpers/publicInputs.ts
@@ -116,6 +116,11 @@ export const computeEffEcdsaPubInput = (
   v: bigint,
   msgHash: Buffer
 ): EffECDSAPubInput => {
+  // Like in ECDSA, r must be in [1, n - 1]
+  if (r <= BigInt(0) || new BN(r).gte(SECP256K1_N)) {
+    throw new RangeError("r is out of range");
+  }
+
   const isYOdd = (v - BigInt(27)) % BigInt(2);
   const rPoint = ec.keyFromPublic(
     ec.curve.pointFromX(new BN(r), isYOdd).encode("hex"),
@@ -150,11 +155,13 @@ export const verifyEffEcdsaPubInput = ({
   msgHash,
   circuitPubInput
 }: PublicInput): boolean => {
-  const expectedCircuitInput = computeEffEcdsaPubInput(
-    r,
-    rV,
-    msgHash
-  );
+  let expectedCircuitInput: EffECDSAPubInput;
+  try {
+    expectedCircuitInput = computeEffEcdsaPubInput(r, rV, msgHash);
+  } catch (_e) {
+    // r is out of range, or isn't the x-coordinate of a point on the curve
+    return false;
+  }
 
   const isValid =
     expectedCircuitInput.Tx === circuitPubInput.Tx &&
-- 
2.43.0


From eb8d47af54d5127829b0820c0a3af574d08349bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 24/28] fix: computeEffEcdsaPubInput threw for messages that
 are 0 modulo the group order

---
 packages/lib/src/helpers/publicInputs.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/lib/src/helpers/publicInputs.ts b/packages/lib/src/helpers/publicInputs.ts
index c0e4a92..5d35b3a 100644
--- a/packages/lib/src/helpers/publicInputs.ts
+++ b/packages/lib/src/helpers/publicInputs.ts
@@ -141,8 +141,9 @@ export const computeEffEcdsaPubInput = (
   return {
     Tx: BigInt(T.getX().toString()),
     Ty: BigInt(T.getY().toString()),
-    Ux: BigInt(U.getX().toString()),
-    Uy: BigInt(U.getY().toString())
+    // The circuits represent the point at infinity by (0, 0)
+    Ux: U.isInfinity() ? BigInt(0) : BigInt(U.getX().toString()),
+    Uy: U.isInfinity() ? BigInt(0) : BigInt(U.getY().toString())
   };
 };
 
-- 
2.43.0


From 0f7bf3120ef436331ad1b83f0b653b60a27a8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 25/28] fix: bytesLeToBigInt reversed its argument in place

---
 packages/lib/src/helpers/utils.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 60f7c97..7b34137 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -46,7 +46,8 @@ export const bytesToBigInt = (bytes: Uint8Array): bigint =>
   BigInt("0x" + Buffer.from(bytes).toString("hex"));
 
 export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
-  const reversed = bytes.reverse();
+  // Copy, because reverse() works in place
+  const reversed = Uint8Array.from(bytes).reverse();
   return bytesToBigInt(reversed);
 };
 
-- 
2.43.0


From da002526b4c847453f726114f2155222ec9b1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 26/28] fix: bigIntToBytes returned wrong bytes for integers
 that don't fit

Negative integers became zeros, odd digits were dropped, and longer results
spilled into neighbouring fields: Poseidon.hash([a + 2^256, b]) was
Poseidon.hash([a, b]), and a serialized v above 255 another v.
---
 packages/lib/src/helpers/utils.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 7b34137..15dbd55 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -53,6 +53,9 @@ export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
 
 export const bigIntToBytes = (n: bigint, size: number): Uint8Array => {
   const hex = n.toString(16);
+  if (n < BigInt(0) || hex.length > size * 2) {
+    throw new RangeError(`${n} doesn't fit in ${size} bytes`);
+  }
   const hexPadded = hex.padStart(size * 2, "0");
   return Buffer.from(hexPadded, "hex");
 };
-- 
2.43.0


From bbee620d430614f9a96cbde83edc0045f51970f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 27/28] fix: Merkle proofs with further fields failed or
 overrode the prover's inputs

A proof made by @zk-kit/incremental-merkle-tree itself also has the leaf, which
the witness generator refuses as an unknown signal.
---
 packages/lib/src/core/prover.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/lib/src/core/prover.ts b/packages/lib/src/core/prover.ts
index b5578f5..63b6ce7 100644
--- a/packages/lib/src/core/prover.ts
+++ b/packages/lib/src/core/prover.ts
@@ -67,7 +67,10 @@ export class MembershipProver extends Profiler implements IProver {
 
     const witnessGenInput = {
       s,
-      ...merkleProof,
+      // Not the whole proof, which may have other fields (e.g. the leaf)
+      root: merkleProof.root,
+      siblings: merkleProof.siblings,
+      pathIndices: merkleProof.pathIndices,
       ...effEcdsaPubInput
     };
 
-- 
2.43.0


From 36080861afd09b386d106a460f60569465c11846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 28/28] fix: verify threw instead of returning false for a
 malformed public input

---
 packages/lib/src/core/verifier.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/lib/src/core/verifier.ts b/packages/lib/src/core/verifier.ts
index b891fd7..53cba4f 100644
--- a/packages/lib/src/core/verifier.ts
+++ b/packages/lib/src/core/verifier.ts
@@ -49,7 +49,13 @@ export class MembershipVerifier extends Profiler implements IVerifier {
     this.timeEnd("Load circuit");
 
     this.time("Verify public input");
-    const publicInput = PublicInput.deserialize(publicInputSer);
+    let publicInput: PublicInput;
+    try {
+      publicInput = PublicInput.deserialize(publicInputSer);
+    } catch (_e) {
+      this.timeEnd("Verify public input");
+      return false;
+    }
     const isPubInputValid = verifyEffEcdsaPubInput(publicInput);
     this.timeEnd("Verify public input");
 
-- 
2.43.0

