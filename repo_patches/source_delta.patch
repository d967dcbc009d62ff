From 821bd14f228a15002994a52855aebd3e73786d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 01/21] fix: deserializing a scalar from a short or failing
 sequence returns an error

visit_seq unwrapped both the result and the option of next_element, so a truncated or
unreadable proof made the verifier panic instead of reporting an error.
---
 packages/Spartan-secq/src/scalar/scalar.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..36cb8bc 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -234,7 +234,10 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
     for i in 0..4 {
       let mut val: u64 = 0;
       for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
+        let byte = seq
+          .next_element::<u8>()?
+          .ok_or_else(|| serde::de::Error::invalid_length(8 * i + j as usize, &self))?;
+        val += (byte as u64) * 256u64.pow(j)
       }
       result[i] = val;
     }
-- 
2.43.0


From ac4306edadc9b3a65603199e3560f62d5fbbed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 02/21] fix: an R1CS coefficient outside the field is reported
 as an error

---
 packages/circuit_reader/src/circom_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..ac04e37 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -72,8 +72,8 @@ pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
         // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
-    let fr = Fr::from_repr(repr).unwrap();
-    Ok(fr)
+    Option::from(Fr::from_repr(repr))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Field element is not in range"))
 }
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
-- 
2.43.0


From 8e85c43f45a46e0e5cc7a39f58d1af3ef268c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 03/21] fix: an R1CS file without one of its sections is
 reported as an error

---
 packages/circuit_reader/src/circom_reader.rs | 31 ++++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index ac04e37..07f53ed 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -176,12 +176,23 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
         reader.seek(SeekFrom::Current(section_size as i64))?;
     }
 
+    let section = |section_type: u32| -> Result<(u64, u64)> {
+        match (
+            section_offsets.get(&section_type),
+            section_sizes.get(&section_type),
+        ) {
+            (Some(offset), Some(size)) => Ok((*offset, *size)),
+            _ => Err(Error::new(ErrorKind::InvalidData, "Missing section")),
+        }
+    };
+
     let header_type = 1;
     let constraint_type = 2;
     let wire2label_type = 3;
 
-    reader.seek(SeekFrom::Start(*section_offsets.get(&header_type).unwrap()))?;
-    let header = read_header(&mut reader, *section_sizes.get(&header_type).unwrap())?;
+    let (header_offset, header_size) = section(header_type)?;
+    reader.seek(SeekFrom::Start(header_offset))?;
+    let header = read_header(&mut reader, header_size)?;
     if header.field_size != 32 {
         return Err(Error::new(
             ErrorKind::InvalidData,
@@ -192,19 +203,13 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
     // }
 
-    reader.seek(SeekFrom::Start(
-        *section_offsets.get(&constraint_type).unwrap(),
-    ))?;
+    let (constraint_offset, _) = section(constraint_type)?;
+    reader.seek(SeekFrom::Start(constraint_offset))?;
     let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(&mut reader, &header)?;
 
-    reader.seek(SeekFrom::Start(
-        *section_offsets.get(&wire2label_type).unwrap(),
-    ))?;
-    let wire_mapping = read_map(
-        &mut reader,
-        *section_sizes.get(&wire2label_type).unwrap(),
-        &header,
-    )?;
+    let (wire2label_offset, wire2label_size) = section(wire2label_type)?;
+    reader.seek(SeekFrom::Start(wire2label_offset))?;
+    let wire_mapping = read_map(&mut reader, wire2label_size, &header)?;
 
     Ok(R1CSFile {
         version,
-- 
2.43.0


From 0764d89137ac71709143014e3cf027f4fffb553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 04/21] fix: an R1CS header with fewer wires than public
 signals is reported as an error

---
 packages/circuit_reader/src/circom_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 07f53ed..160ce4c 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -199,6 +199,12 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
             "This parser only supports 32-byte fields",
         ));
     }
+    if 1 + header.n_pub_in as u64 + header.n_pub_out as u64 > header.n_wires as u64 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Fewer wires than public inputs and outputs",
+        ));
+    }
     // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
     //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
     // }
-- 
2.43.0


From b95dd04fd240526c0c63c3f58b2a8d1a7e00dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:54 +0000
Subject: [PATCH 05/21] fix: R1CS counts no longer size allocations before the
 data is read

---
 packages/circuit_reader/src/circom_reader.rs | 21 +++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 160ce4c..52eaa50 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -40,6 +40,9 @@ pub struct R1CSFile<Fr: PrimeField> {
     pub wire_mapping: Vec<u64>,
 }
 use std::fs::OpenOptions;
+
+// Counts in a file are not trusted to size an allocation before the data has been read
+const MAX_PREALLOC: usize = 1024;
 use std::path::Path;
 
 pub fn load_r1cs_from_bin_file<G1: Group>(filename: &Path) -> (R1CS<G1::Scalar>, Vec<usize>) {
@@ -78,6 +81,12 @@ pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
+    if field_size != 32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-byte fields",
+        ));
+    }
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
@@ -101,7 +110,7 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
 
 fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::with_capacity(n_vec.min(MAX_PREALLOC));
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -116,7 +125,7 @@ fn read_constraints<R: Read, Fr: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::with_capacity((header.n_constraints as usize).min(MAX_PREALLOC));
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, Fr>(&mut reader)?,
@@ -134,7 +143,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
             "Invalid map section size",
         ));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::with_capacity((header.n_wires as usize).min(MAX_PREALLOC));
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
@@ -193,12 +202,6 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     let (header_offset, header_size) = section(header_type)?;
     reader.seek(SeekFrom::Start(header_offset))?;
     let header = read_header(&mut reader, header_size)?;
-    if header.field_size != 32 {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-byte fields",
-        ));
-    }
     if 1 + header.n_pub_in as u64 + header.n_pub_out as u64 > header.n_wires as u64 {
         return Err(Error::new(
             ErrorKind::InvalidData,
-- 
2.43.0


From 5a29d4d4a091ff0dbb39065caf4c7efeeedadc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 06/21] fix: an inner-product proof with unpaired R points is
 refused

---
 packages/Spartan-secq/src/nizk/bullet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..6b3797c 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -166,6 +166,10 @@ impl BulletReductionProof {
     if n != (1 << lg_n) {
       return Err(ProofVerifyError::InternalError);
     }
+    // every round contributes one L and one R; an unpaired point would never be absorbed by the transcript
+    if self.R_vec.len() != lg_n {
+      return Err(ProofVerifyError::InternalError);
+    }
 
     // 1. Recompute x_k,...,x_1 based on the proof transcript
     let mut challenges = Vec::with_capacity(lg_n);
-- 
2.43.0


From 8d9ab99da56aba5aacf594a86a40179cbfa89103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 07/21] fix: a multi-scalar product of vectors of different
 length is refused

---
 packages/Spartan-secq/src/group.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index e14091f..d018c57 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -106,6 +106,7 @@ impl VartimeMultiscalarMul for GroupElement {
   type Scalar = super::scalar::Scalar;
   // TODO Borrow the arguments so we don't have to clone them, as it was in the original implementation
   fn vartime_multiscalar_mul(scalars: Vec<Scalar>, points: Vec<GroupElement>) -> Self {
+    assert_eq!(scalars.len(), points.len());
     let points: Vec<ProjectivePoint> = points.iter().map(|p| ProjectivePoint::from(p.0)).collect();
 
     let pairs: Vec<(ScalarBytes, ProjectivePoint)> = scalars
-- 
2.43.0


From 2ed344fe9f21a426dfe8e947adfadca9c6bfd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 08/21] fix: a hash-layer proof with missing evaluations is
 refused

---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..28b6ac8 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -937,6 +937,14 @@ impl HashLayerProof {
     let (eval_row_addr_vec, eval_row_read_ts_vec, eval_row_audit_ts) = &self.eval_row;
     let (eval_col_addr_vec, eval_col_read_ts_vec, eval_col_audit_ts) = &self.eval_col;
 
+    // there is one evaluation per instance, otherwise some of the claims are not checked below
+    let num_instances = eval_row_ops_val.len();
+    assert_eq!(eval_val_vec.len(), num_instances);
+    assert_eq!(eval_row_addr_vec.len(), num_instances);
+    assert_eq!(eval_row_read_ts_vec.len(), num_instances);
+    assert_eq!(eval_col_addr_vec.len(), num_instances);
+    assert_eq!(eval_col_read_ts_vec.len(), num_instances);
+
     let mut evals_ops: Vec<Scalar> = Vec::new();
     evals_ops.extend(eval_row_addr_vec);
     evals_ops.extend(eval_row_read_ts_vec);
-- 
2.43.0


From ff376e46789085262066f6c7eae295e9c9f193ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:28 +0000
Subject: [PATCH 09/21] fix: an instance without constraints is padded to two
 like one with a single constraint

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..9672252 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -151,8 +151,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From b292ba648052b72383dc24428c65c03111986e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:54 +0000
Subject: [PATCH 10/21] fix: complete addition gave the point at infinity for
 different points with yP + yQ = 1

zeroizeA compared isXEqual with 1 - (yP + yQ), so it was also set when
both were 0, that is for xP != xQ and yP + yQ = 1.
---
 .../circuits/eff_ecdsa_membership/secp256k1/add.circom   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index f304940..6d9950c 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -100,9 +100,12 @@ template Secp256k1AddComplete() {
     signal outDy <== isXqZero.out * yP;
 
     // zeroizeA = (xP = xQ and yP = -yQ) ? 1 : 0
-    component zeroizeA = IsEqual();
-    zeroizeA.in[0] <== isXEqual.out;
-    zeroizeA.in[1] <== 1 - (yP + yQ);
+    component isYSumZero = IsZero();
+    isYSumZero.in <== yP + yQ;
+
+    component zeroizeA = AND();
+    zeroizeA.a <== isXEqual.out;
+    zeroizeA.b <== isYSumZero.out;
 
     // zeroizeB = (xP = 0 and xQ = 0) ? 1 : 0
     component zeroizeB = AND();
-- 
2.43.0


From 788d818fe7ccb3b54c6152f695363b1646c6a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:54 +0000
Subject: [PATCH 11/21] fix: complete addition of a point to itself did not
 constrain lambdaA

With xP = xQ the constraint dx * lambdaA === dy is 0 === 0, and lambda
is lambdaB + lambdaA: any slope was accepted when doubling.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/add.circom | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
index 6d9950c..eab682f 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/add.circom
@@ -74,6 +74,8 @@ template Secp256k1AddComplete() {
     signal dy <== (yQ - yP) * (1 - isXEqual.out);
     signal lambdaA <-- ((yQ - yP) / dx) * (1 - isXEqual.out);
     dx * lambdaA === dy;
+    // dx = dy = 0 leaves lambdaA free when xP = xQ
+    lambdaA * isXEqual.out === 0;
 
     // lambdaB = (3 * xP^2) / (2 * yP)
     signal lambdaB <-- ((3 * xPSquared) / (2 * yP));
-- 
2.43.0


From 6b6eef25c2833d16aae268de24c3148e7efad55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 12/21] fix: K did not tie its 128-bit halves to the scalar

slo and shi were assigned with <-- only, so a prover could multiply by any scalar.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 7c9ee91..09b9a28 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -123,6 +123,12 @@ template K() {
     signal slo <-- s & (2 ** (128) - 1);
     signal shi <-- s >> 128;
 
+    component sloBits = Num2Bits(128);
+    sloBits.in <== slo;
+    component shiBits = Num2Bits(128);
+    shiBits.in <== shi;
+    s === slo + shi * 2 ** 128;
+
     // Get carry bit of (slo + tQlo)
 
     component inBits = Num2Bits(128 + 1);
-- 
2.43.0


From d7d8ee03fd526d757efbecf253d3b244971a8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:22 +0000
Subject: [PATCH 13/21] fix: K dropped the carry between the halves of s + tQ
 when it stays below q

For s from 2^128 - tQlo to 2^128 - 1 the sum has a carry into the high half and is not
reduced: khi left the carry out, so that s * T came out as (s - 2^128) * T.
---
 .../circuits/eff_ecdsa_membership/secp256k1/mul.circom | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 09b9a28..15b3d39 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -170,18 +170,18 @@ template K() {
     isQuotientOne.a <== betaANDgamma.out;
     isQuotientOne.b <== alpha.out;
 
-    // theta: (slo + tQlo) < qlo
+    // theta: alo < qlo
     component theta = GreaterThan(129);
     theta.in[0] <== qlo;
-    theta.in[1] <== slo + tQlo;
+    theta.in[1] <== alo;
 
-    // borrow: (slo + tQlo) < qlo and isQuotientOne ? 1 : 0
+    // borrow: alo < qlo and isQuotientOne ? 1 : 0
     component borrow = AND();
     borrow.a <== theta.out;
     borrow.b <== isQuotientOne.out;
 
-    signal klo <== (slo + tQlo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
-    signal khi <== (shi + tQhi - borrow.out * 1)  - isQuotientOne.out * qhi;
+    signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
+    signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
     component kloBits = Num2Bits(256);
     kloBits.in <== klo;
-- 
2.43.0


From 43e86d412bbb55eb3fd79fded132c367be35cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:23 +0000
Subject: [PATCH 14/21] fix: K decomposed its result into 256 bits, which is
 not unique in the field

klo and khi are below 2^128; with 256 bits a value below 2^256 - p also has the bits of value + p.
---
 packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 15b3d39..11a5158 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -183,10 +183,10 @@ template K() {
     signal klo <== (alo + borrow.out * (2 ** 128)) - isQuotientOne.out * qlo;
     signal khi <== (ahi - borrow.out * 1)  - isQuotientOne.out * qhi;
 
-    component kloBits = Num2Bits(256);
+    component kloBits = Num2Bits(128);
     kloBits.in <== klo;
 
-    component khiBits = Num2Bits(256);
+    component khiBits = Num2Bits(128);
     khiBits.in <== khi;
 
     for (var i = 0; i < 128; i++) {
-- 
2.43.0


From 96246863f71e00d9144beb6556bf6a17cae64faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:23 +0000
Subject: [PATCH 15/21] fix: K accepted the halves of s + p for a scalar below
 2^256 - p

---
 .../circuits/eff_ecdsa_membership/secp256k1/mul.circom | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
index 11a5158..e0a6100 100644
--- a/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
+++ b/packages/circuits/eff_ecdsa_membership/secp256k1/mul.circom
@@ -129,6 +129,16 @@ template K() {
     shiBits.in <== shi;
     s === slo + shi * 2 ** 128;
 
+    // The halves must be those of s and not of s + p (p is the order of the field)
+    var pMinus1Lo = 0xfffffffffffffffffffffffefffffc2e;
+    component isShiMax = IsEqual();
+    isShiMax.in[0] <== shi;
+    isShiMax.in[1] <== (2 ** 128) - 1;
+    component isSloOver = GreaterThan(129);
+    isSloOver.in[0] <== slo;
+    isSloOver.in[1] <== pMinus1Lo;
+    isShiMax.out * isSloOver.out === 0;
+
     // Get carry bit of (slo + tQlo)
 
     component inBits = Num2Bits(128 + 1);
-- 
2.43.0


From d97fbd24513de34385e3db88d09bea155972d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:10 +0000
Subject: [PATCH 16/21] fix: two-adicity of the secq256k1 base field (n - 1 is
 divisible by 2^6)

---
 packages/secq256k1/src/field/field_secq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/field/field_secq.rs b/packages/secq256k1/src/field/field_secq.rs
index 78b3c83..ab8b3f4 100644
--- a/packages/secq256k1/src/field/field_secq.rs
+++ b/packages/secq256k1/src/field/field_secq.rs
@@ -467,7 +467,7 @@ impl PrimeField for FieldElement {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 1;
+    const S: u32 = 6;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         Self::from_sec1(bytes)
-- 
2.43.0


From 54cbd24599b7f410ff8130d200dae8b4bdb29f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:10 +0000
Subject: [PATCH 17/21] fix: two-adicity, generator and root of unity of the
 secq256k1 scalar field

---
 packages/secq256k1/src/scalar.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index a3aa073..bb1389a 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -73,7 +73,7 @@ impl PrimeField for Scalar {
 
     const NUM_BITS: u32 = 256;
     const CAPACITY: u32 = 255;
-    const S: u32 = 4;
+    const S: u32 = 1;
 
     fn from_repr(bytes: FieldBytes) -> CtOption<Self> {
         ScalarCore::from_be_bytes(bytes).map(Self)
@@ -88,14 +88,14 @@ impl PrimeField for Scalar {
     }
 
     fn multiplicative_generator() -> Self {
-        7u64.into()
+        3u64.into()
     }
 
     fn root_of_unity() -> Self {
         Self::from_repr(arr![u8;
-            0xff, 0xc9, 0x7f, 0x06, 0x2a, 0x77, 0x09, 0x92, 0xba, 0x80, 0x7a, 0xce, 0x84, 0x2a,
-            0x3d, 0xfc, 0x15, 0x46, 0xca, 0xd0, 0x04, 0x37, 0x8d, 0xaf, 0x05, 0x92, 0xd7, 0xfb,
-            0xb4, 0x1e, 0x66, 0x02,
+            0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+            0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
+            0xff, 0xff, 0xfc, 0x2e,
         ])
         .unwrap()
     }
-- 
2.43.0


From 33708682e2a493b66c7640d1fb91e41f8f8b1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:35 +0000
Subject: [PATCH 18/21] fix: sqrt of the secp256k1 field element returned a
 value for non-residues

---
 packages/secq256k1/src/field/field_secp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/field/field_secp.rs b/packages/secq256k1/src/field/field_secp.rs
index 80becd1..b7d7689 100644
--- a/packages/secq256k1/src/field/field_secp.rs
+++ b/packages/secq256k1/src/field/field_secp.rs
@@ -395,7 +395,7 @@ impl Field for FieldElement {
         let res = x223.pow2k(23).mul(&x22).pow2k(6).mul(&x2).pow2k(2);
 
         // Only return Some if it's the square root.
-        CtOption::new(res, Choice::from(1))
+        CtOption::new(res, res.square().ct_eq(self))
     }
 
     fn is_zero_vartime(&self) -> bool {
-- 
2.43.0


From 36adb31e46121d750c52d299477f650628d8daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:44 +0000
Subject: [PATCH 19/21] fix: char_le_bits of the secq256k1 scalar gave the
 modulus in big-endian byte order

---
 packages/secq256k1/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/secq256k1/src/scalar.rs b/packages/secq256k1/src/scalar.rs
index bb1389a..360acfc 100644
--- a/packages/secq256k1/src/scalar.rs
+++ b/packages/secq256k1/src/scalar.rs
@@ -310,7 +310,7 @@ impl PrimeFieldBits for Scalar {
     }
 
     fn char_le_bits() -> ff::FieldBits<Self::ReprBits> {
-        ScalarCore::MODULUS.to_be_bytes().into()
+        ScalarCore::MODULUS.to_le_bytes().into()
     }
 }
 
-- 
2.43.0


From 405c25ca1d5e4d1da6b2bee9686ae5397af42266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:31 +0000
Subject: [PATCH 20/21] fix: report a point that does not decode instead of
 panicking

unpack() converted the (33-byte) encoding into the error's 32-byte array
and panicked on it, and decompress() unwrapped the result.
---
 packages/Spartan-secq/src/errors.rs | 2 +-
 packages/Spartan-secq/src/group.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/Spartan-secq/src/errors.rs b/packages/Spartan-secq/src/errors.rs
index 18e157b..145127e 100644
--- a/packages/Spartan-secq/src/errors.rs
+++ b/packages/Spartan-secq/src/errors.rs
@@ -6,7 +6,7 @@ pub enum ProofVerifyError {
   #[error("Proof verification failed")]
   InternalError,
   #[error("Compressed group element failed to decompress: {0:?}")]
-  DecompressionError([u8; 32]),
+  DecompressionError(Vec<u8>),
 }
 
 impl Default for ProofVerifyError {
diff --git a/packages/Spartan-secq/src/group.rs b/packages/Spartan-secq/src/group.rs
index d018c57..2ab2d1e 100644
--- a/packages/Spartan-secq/src/group.rs
+++ b/packages/Spartan-secq/src/group.rs
@@ -20,7 +20,7 @@ impl CompressedGroupExt for CompressedGroup {
       return Ok(result.unwrap());
     } else {
       Err(ProofVerifyError::DecompressionError(
-        (*self.to_bytes()).try_into().unwrap(),
+        self.as_bytes().to_vec(),
       ))
     }
   }
@@ -32,7 +32,7 @@ pub trait DecompressEncodedPoint {
 
 impl DecompressEncodedPoint for CompressedGroup {
   fn decompress(&self) -> Option<GroupElement> {
-    Some(self.unpack().unwrap())
+    self.unpack().ok()
   }
 }
 
-- 
2.43.0


From db23f1cfdd8a3fd7104287a817b0a1c126417703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 21/21] fix: a proof with a point that does not decode is an
 error, not a panic

---
 packages/Spartan-secq/src/dense_mlpoly.rs | 10 +++++++---
 packages/Spartan-secq/src/nizk/mod.rs     |  6 +++++-
 packages/Spartan-secq/src/r1csproof.rs    | 10 +++++-----
 packages/Spartan-secq/src/sumcheck.rs     |  6 +++---
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/packages/Spartan-secq/src/dense_mlpoly.rs b/packages/Spartan-secq/src/dense_mlpoly.rs
index 6977304..34b2a34 100644
--- a/packages/Spartan-secq/src/dense_mlpoly.rs
+++ b/packages/Spartan-secq/src/dense_mlpoly.rs
@@ -7,7 +7,7 @@ use super::nizk::{DotProductProofGens, DotProductProofLog};
 use super::random::RandomTape;
 use super::scalar::Scalar;
 use super::transcript::{AppendToTranscript, ProofTranscript};
-use crate::group::DecompressEncodedPoint;
+use crate::group::CompressedGroupExt;
 use core::ops::Index;
 use merlin::Transcript;
 use serde::{Deserialize, Serialize};
@@ -377,9 +377,13 @@ impl PolyEvalProof {
     let (L, R) = eq.compute_factored_evals();
 
     // compute a weighted sum of commitments and L
-    let C_decompressed = comm.C.iter().map(|pt| pt.decompress().unwrap());
+    let C_decompressed = comm
+      .C
+      .iter()
+      .map(|pt| pt.unpack())
+      .collect::<Result<Vec<_>, _>>()?;
 
-    let C_LZ = GroupElement::vartime_multiscalar_mul(L, C_decompressed.collect()).compress();
+    let C_LZ = GroupElement::vartime_multiscalar_mul(L, C_decompressed).compress();
 
     self
       .proof
diff --git a/packages/Spartan-secq/src/nizk/mod.rs b/packages/Spartan-secq/src/nizk/mod.rs
index f0db69e..5a60f54 100644
--- a/packages/Spartan-secq/src/nizk/mod.rs
+++ b/packages/Spartan-secq/src/nizk/mod.rs
@@ -237,7 +237,11 @@ impl ProductProof {
     z1: &Scalar,
     z2: &Scalar,
   ) -> bool {
-    let lhs = (P.decompress().unwrap() + c * X.decompress().unwrap()).compress();
+    let (P, X) = match (P.decompress(), X.decompress()) {
+      (Some(P), Some(X)) => (P, X),
+      _ => return false,
+    };
+    let lhs = (P + c * X).compress();
     let rhs = z1.commit(z2, gens_n).compress();
 
     lhs == rhs
diff --git a/packages/Spartan-secq/src/r1csproof.rs b/packages/Spartan-secq/src/r1csproof.rs
index b24570a..3f8514b 100644
--- a/packages/Spartan-secq/src/r1csproof.rs
+++ b/packages/Spartan-secq/src/r1csproof.rs
@@ -14,7 +14,7 @@ use super::sparse_mlpoly::{SparsePolyEntry, SparsePolynomial};
 use super::sumcheck::ZKSumcheckInstanceProof;
 use super::timer::Timer;
 use super::transcript::{AppendToTranscript, ProofTranscript};
-use crate::group::DecompressEncodedPoint;
+use crate::group::CompressedGroupExt;
 use core::iter;
 use merlin::Transcript;
 use serde::{Deserialize, Serialize};
@@ -405,7 +405,7 @@ impl R1CSProof {
       .map(|i| rx[i] * tau[i] + (Scalar::one() - rx[i]) * (Scalar::one() - tau[i]))
       .product();
     let expected_claim_post_phase1 = (taus_bound_rx
-      * (comm_prod_Az_Bz_claims.decompress().unwrap() - comm_Cz_claim.decompress().unwrap()))
+      * (comm_prod_Az_Bz_claims.unpack()? - comm_Cz_claim.unpack()?))
     .compress();
 
     // verify proof that expected_claim_post_phase1 == claim_post_phase1
@@ -430,8 +430,8 @@ impl R1CSProof {
       iter::once(&comm_Az_claim)
         .chain(iter::once(&comm_Bz_claim))
         .chain(iter::once(&comm_Cz_claim))
-        .map(|pt| pt.decompress().unwrap())
-        .collect(),
+        .map(|pt| pt.unpack())
+        .collect::<Result<Vec<_>, _>>()?,
     )
     .compress();
 
@@ -472,7 +472,7 @@ impl R1CSProof {
         .chain(iter::once(ry[0]))
         .map(|s| s)
         .collect(),
-      iter::once(self.comm_vars_at_ry.decompress().unwrap())
+      iter::once(self.comm_vars_at_ry.unpack()?)
         .chain(iter::once(
           poly_input_eval.commit(&Scalar::zero(), &gens.gens_pc.gens.gens_1),
         ))
diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..c074135 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -9,7 +9,7 @@ use super::random::RandomTape;
 use super::scalar::Scalar;
 use super::transcript::{AppendToTranscript, ProofTranscript};
 use super::unipoly::{CompressedUniPoly, UniPoly};
-use crate::group::DecompressEncodedPoint;
+use crate::group::{CompressedGroupExt, DecompressEncodedPoint};
 use core::iter;
 use itertools::izip;
 use merlin::Transcript;
@@ -129,8 +129,8 @@ impl ZKSumcheckInstanceProof {
           w.clone(),
           iter::once(&comm_claim_per_round)
             .chain(iter::once(&comm_eval))
-            .map(|pt| pt.decompress().unwrap())
-            .collect(),
+            .map(|pt| pt.unpack())
+            .collect::<Result<Vec<_>, _>>()?,
         )
         .compress();
 
-- 
2.43.0

