From a56a2c8011c97ef7b7424e9177930200df2c8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:52 +0000
Subject: [PATCH 01/10] fix: report stream errors and partial points when
 reading a verifying key

---
 src/helpers/groth16/verifier.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 35e7b61..6b7a871 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -161,7 +161,7 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
 
         let mut ic = vec![];
 
-        while reader.read_exact(g1_repr.as_mut()).is_ok() {
+        while read_exact_or_eof(&mut reader, g1_repr.as_mut())? {
             let g1 = g1_repr
                 .into_affine()
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
@@ -188,6 +188,27 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
     }
 }
 
+// Fills `buf` and returns true, or returns false if the stream ends right before it.
+// A stream that fails or ends in the middle of `buf` is an error.
+fn read_exact_or_eof<R: Read>(reader: &mut R, buf: &mut [u8]) -> io::Result<bool> {
+    let mut filled = 0;
+    while filled < buf.len() {
+        match reader.read(&mut buf[filled..]) {
+            Ok(0) if filled == 0 => return Ok(false),
+            Ok(0) => {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "failed to fill whole buffer",
+                ))
+            }
+            Ok(n) => filled += n,
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(true)
+}
+
 pub fn truncate_verifying_key<E: Engine>(vk: &VerifyingKey<E>) -> TruncatedVerifyingKey<E> {
     TruncatedVerifyingKey {
         alpha_g1: vk.alpha_g1.clone(),
-- 
2.43.0


From ac4a18a6a18b28631dbef3091df12917f99d365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 02/10] fix: write the whole solidity verifier when the file
 takes it in parts

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 48fde1d..3bf96c1 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -374,7 +374,7 @@ macro_rules! groth16_ethereum_bindings {
                 let sol_str = generate_sol_data(&vk);
                 File::create(o.solidity)
                     .unwrap()
-                    .write(&sol_str.into_bytes())
+                    .write_all(&sol_str.into_bytes())
                     .unwrap();
                 println!("solidity verifier generated")
             }
-- 
2.43.0


From c590fe4e4665a1ea515ac21f0a27c3e6200c46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 03/10] fix: reject a SizedVec of the wrong length on
 deserialization

---
 src/core/sizedvec.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/sizedvec.rs b/src/core/sizedvec.rs
index fdb2204..624f2bd 100644
--- a/src/core/sizedvec.rs
+++ b/src/core/sizedvec.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use serde::{
-    de::{Deserialize, Deserializer},
+    de::{self, Deserialize, Deserializer},
     ser::{Serialize, Serializer},
 };
 use typenum::Unsigned;
@@ -33,7 +33,12 @@ impl<T: Serialize, L: Unsigned> Serialize for SizedVec<T, L> {
 
 impl<'de, T: Deserialize<'de>, L: Unsigned> Deserialize<'de> for SizedVec<T, L> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SizedVec<T, L>, D::Error> {
-        Vec::<T>::deserialize(deserializer).map(|v| SizedVec::<T, L>(v, PhantomData))
+        let v = Vec::<T>::deserialize(deserializer)?;
+        if v.len() == L::USIZE {
+            Ok(SizedVec::<T, L>(v, PhantomData))
+        } else {
+            Err(de::Error::custom("Wrong length of SizedVec"))
+        }
     }
 }
 
-- 
2.43.0


From 36ee57eb003d4eafebcfda438d93a541f5524843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 04/10] fix: divide a constant by a signal, not the signal by
 the constant

---
 src/circuit/num.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/circuit/num.rs b/src/circuit/num.rs
index 7793fbd..1530190 100644
--- a/src/circuit/num.rs
+++ b/src/circuit/num.rs
@@ -496,9 +496,6 @@ impl<'l, 'a, CS: ConstraintSystem> DivAssign<&'l CNum<'a, CS>> for CNum<'a, CS>
     #[inline]
     fn div_assign(&mut self, other: &'l CNum<'a, CS>) {
         match (self.as_const(), other.as_const()) {
-            (Some(a), _) => {
-                *self = other / a;
-            }
             (_, Some(b)) => *self /= b,
             _ => {
                 let value = match (self.get_value(), other.get_value()) {
-- 
2.43.0


From eb165e57c4c9281b8c8d2b4f014d534373f633c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:04 +0000
Subject: [PATCH 05/10] fix: reject bn256 G2 points outside the prime order
 subgroup

---
 src/helpers/groth16/mod.rs      |  7 ++++++-
 src/helpers/groth16/prover.rs   | 14 +++++++++++---
 src/helpers/groth16/verifier.rs | 15 +++++++++++++++
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index 78d1f4c..a82290c 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -134,7 +134,12 @@ impl Into<bn256::G2Affine> for G2PointData<bn256::Fq> {
             is_on_curve(x, y, is_zero, &BN256_B_COEFF_FQ2),
             "point should be in curve"
         );
-        unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) }
+        let res = unsafe { transmute::<_, bn256::G2Affine>((x, y, is_zero)) };
+        assert!(
+            res.mul(bn256::Fr::char()).is_zero(),
+            "point should be in subgroup"
+        );
+        res
     }
 }
 
diff --git a/src/helpers/groth16/prover.rs b/src/helpers/groth16/prover.rs
index 64a35b0..b5ec77e 100644
--- a/src/helpers/groth16/prover.rs
+++ b/src/helpers/groth16/prover.rs
@@ -1,12 +1,12 @@
 use std::io::{self, Read, Write};
 
 use bellman::{self, SynthesisError};
-use pairing::{bls12_381, bn256, Engine};
+use pairing::{bls12_381, bn256, CurveAffine, CurveProjective, Engine};
 use serde::{Deserialize, Serialize};
 
 use crate::{
     core::cs::Circuit,
-    core::field::Field,
+    core::field::{Field, PrimeField},
     core::osrng::OsRng,
     helpers::groth16::Groth16CS,
     helpers::groth16::{G1PointData, G2PointData},
@@ -76,7 +76,15 @@ impl Proof<bn256::Bn256> {
     }
 
     pub fn read<R: Read>(reader: R) -> io::Result<Self> {
-        Ok(Self(bellman::groth16::Proof::read(reader)?))
+        let proof: bellman::groth16::Proof<bn256::Bn256> = bellman::groth16::Proof::read(reader)?;
+        // the bn256 point decoder does not check it
+        if !proof.b.mul(bn256::Fr::char()).is_zero() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "point should be in subgroup",
+            ));
+        }
+        Ok(Self(proof))
     }
 }
 
diff --git a/src/helpers/groth16/verifier.rs b/src/helpers/groth16/verifier.rs
index 6b7a871..725244c 100644
--- a/src/helpers/groth16/verifier.rs
+++ b/src/helpers/groth16/verifier.rs
@@ -124,6 +124,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(E::Fr::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point should be in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
@@ -139,6 +144,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(E::Fr::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point should be in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
@@ -154,6 +164,11 @@ impl<E: Engine> TruncatedVerifyingKey<E> {
                         io::ErrorKind::InvalidData,
                         "point at infinity",
                     ))
+                } else if !e.mul(E::Fr::char()).is_zero() {
+                    Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "point should be in subgroup",
+                    ))
                 } else {
                     Ok(e)
                 }
-- 
2.43.0


From f847ef75ac70d197723628694f4f20891baf389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 06/10] fix: SizedVec signals without a value or not constant
 say None instead of panicking

---
 src/core/signal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.rs b/src/core/signal.rs
index d1af1cd..66ce938 100644
--- a/src/core/signal.rs
+++ b/src/core/signal.rs
@@ -53,7 +53,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     type Value = SizedVec<T::Value, L>;
 
     fn get_value(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.get_value()).collect()
+        let values = self.iter().map(|v| v.get_value());
+        values.collect::<Option<Vec<_>>>().map(|v| v.into_iter().collect())
     }
 
     fn switch(&self, bit: &CBool<'a, CS>, if_else: &Self) -> Self {
@@ -72,7 +73,8 @@ impl<'a, CS: 'a + ConstraintSystem, T: Signal<'a, CS>, L: Unsigned> Signal<'a, C
     }
 
     fn as_const(&self) -> Option<Self::Value> {
-        self.iter().map(|v| v.as_const()).collect()
+        let values = self.iter().map(|v| v.as_const());
+        values.collect::<Option<Vec<_>>>().map(|v| v.into_iter().collect())
     }
 
     fn alloc(cs: &'a CS, value: Option<&Self::Value>) -> Self {
-- 
2.43.0


From 27fed072e3ea180d2e91d37f6fc60972254c39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:40 +0000
Subject: [PATCH 07/10] fix: leave zero terms out of the backend's linear
 combinations

---
 src/helpers/groth16/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helpers/groth16/mod.rs b/src/helpers/groth16/mod.rs
index a82290c..f5ad067 100644
--- a/src/helpers/groth16/mod.rs
+++ b/src/helpers/groth16/mod.rs
@@ -330,6 +330,8 @@ impl<BE: bellman::pairing::Engine, BCS: bellman::ConstraintSystem<BE>> Constrain
         ) -> bellman::LinearCombination<BE> {
             let res =
                 s.lc.iter()
+                    // the prover would look for bases that key generation drops
+                    .filter(|(_, v)| !v.is_zero())
                     .map(|(k, v)| (*k, v.into_inner()))
                     .collect::<Vec<_>>();
             unsafe { std::mem::transmute(res) }
-- 
2.43.0


From 2ab33bda24b9de9957083391eb29880ec8ce8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:47 +0000
Subject: [PATCH 08/10] fix: generate a contract that compiles for a key
 without public inputs

uint256[0] is refused by the Solidity compiler, so the generated verifier of a
circuit without public inputs could not be deployed.
---
 src/helpers/groth16/ethereum.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/helpers/groth16/ethereum.rs b/src/helpers/groth16/ethereum.rs
index 07f2ce3..0dd65d1 100644
--- a/src/helpers/groth16/ethereum.rs
+++ b/src/helpers/groth16/ethereum.rs
@@ -170,6 +170,7 @@ contract Verifier {
         _proof.C = Pairing.G1Point(p[6], p[7]);
 
         VerifyingKey memory vk = verifyingKey();
+        require(input.length + 1 == vk.IC.length, "verifier-bad-input");
 
         // Compute the linear combination vk_x
         Pairing.G1Point memory vk_x = Pairing.G1Point(0, 0);
@@ -216,7 +217,13 @@ contract Verifier {
     tpl = tpl.replace("<%vk_delta2%>", &stringify_g2(&vk.delta_g2));
 
     tpl = tpl.replace("<%vk_ic_length%>", &vk.ic.len().to_string());
-    tpl = tpl.replace("<%vk_input_length%>", &(vk.ic.len() - 1).to_string());
+    // Solidity has no arrays of length zero: a key without public inputs takes a dynamic
+    // array, and the contract requires it to be empty
+    let input_length = match vk.ic.len() - 1 {
+        0 => String::new(),
+        n => n.to_string(),
+    };
+    tpl = tpl.replace("<%vk_input_length%>", &input_length);
 
     let mut vi = String::from("");
     for i in 0..vk.ic.len() {
-- 
2.43.0


From b25aa1dbfc9aecc37da0f2d27c18caba719de28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:02 +0000
Subject: [PATCH 09/10] fix: convert the smallest i32 and i64 to the number
 they are

abs() overflows for i32::MIN and i64::MIN: with overflow checks the
conversion panics, and without them i32::MIN is sign-extended to another
number.
---
 src/native/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/native/num.rs b/src/native/num.rs
index e58594a..06e02a4 100644
--- a/src/native/num.rs
+++ b/src/native/num.rs
@@ -287,7 +287,7 @@ impl<T: Field> From<BigInt> for Num<T> {
 impl<T: Field> From<i64> for Num<T> {
     fn from(n: i64) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs();
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
@@ -307,7 +307,7 @@ impl<T: Field> From<u32> for Num<T> {
 impl<T: Field> From<i32> for Num<T> {
     fn from(n: i32) -> Self {
         let mut repr = T::zero().into_raw_repr();
-        repr.as_mut()[0] = n.abs() as u64;
+        repr.as_mut()[0] = n.unsigned_abs() as u64;
         if n >= 0 {
             Num::new(T::from_repr(repr).unwrap())
         } else {
-- 
2.43.0


From 82a159b1f426a4d709e9ad7a679f2e70c9b46151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 10/10] fix: use a generator of the bn256 embedded curve's
 scalar field

7 is a square modulo the order of the subgroup, so the derived ROOT_OF_UNITY
has no full order and the square root of half of the squares underflows a
loop bound: a panic with overflow checks, billions of iterations without.
31 is a generator.
---
 src/native/bn256.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/bn256.rs b/src/native/bn256.rs
index 4020a8e..2f57ab3 100644
--- a/src/native/bn256.rs
+++ b/src/native/bn256.rs
@@ -11,7 +11,7 @@ pub use bellman::pairing::bn256::Fr;
 
 #[derive(PrimeField)]
 #[PrimeFieldModulus = "2736030358979909402780800718157159386076813972158567259200215660948447373041"]
-#[PrimeFieldGenerator = "7"]
+#[PrimeFieldGenerator = "31"]
 pub struct Fs(FsRepr);
 
 #[derive(Clone)]
-- 
2.43.0

