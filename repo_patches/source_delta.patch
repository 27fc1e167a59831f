From e64a6930aa819dcff83f179047933abb60596ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 01/18] Add verification hooks behind cfg(qesa_verif)

---
 src/copy/copy.rs      | 22 +++++++++++++++++++++
 src/copy/mapping.rs   | 40 +++++++++++++++++++++++++++++++++++++
 src/copy/mod.rs       |  6 ++++++
 src/ipa/alm_zk.rs     | 10 ++++++++++
 src/ipa/no_zk.rs      | 15 ++++++++++++++
 src/ipa/qesa_inner.rs | 18 +++++++++++++++++
 src/lib.rs            |  3 +++
 src/lmpa/no_zk.rs     | 46 +++++++++++++++++++++++++++++++++++++++++++
 src/lmpa/simple_zk.rs | 20 +++++++++++++++++++
 src/qesa_zk.rs        | 10 ++++++++++
 src/verif.rs          |  6 ++++++
 11 files changed, 196 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..1ab80bd 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -233,6 +233,28 @@ impl Copy {
         proof_inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
     }
 }
+#[cfg(qesa_verif)]
+impl Copy {
+    pub fn verif_parts(&self) -> (CompressedRistretto, qesa_inner::Inner) {
+        (self.C_w, self.inner.clone())
+    }
+    pub fn verif_from(C_w: CompressedRistretto, inner: qesa_inner::Inner) -> Copy {
+        Copy { C_w, inner }
+    }
+    pub fn verif_verify(
+        &self,
+        transcript: &mut Transcript,
+        G_Vec: Vec<RistrettoPoint>,
+        H_Vec: Vec<RistrettoPoint>,
+        Q: &RistrettoPoint,
+        gamma_i: BlockMatrix,
+        map: Mapping,
+        commitments: Vec<RistrettoPoint>,
+    ) -> bool {
+        self.verify(transcript, G_Vec, H_Vec, Q, gamma_i, map, commitments)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..dd5e328 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -144,6 +144,46 @@ pub fn compute_mapping(
     }
 }
 
+#[cfg(qesa_verif)]
+impl Mapping {
+    /// (number of commitments, per message (id, commitment index, commitment, slot), used indices, last slot)
+    pub fn verif_parts(&self) -> (usize, Vec<(usize, u16, u16, u16)>, BTreeSet<u16>, u16) {
+        let msgs = self
+            .msgs_map
+            .iter()
+            .map(|m| (m.msg_id, m.commitment_index, m.commitment_crs_id, m.position_in_witness))
+            .collect();
+        (
+            self.num_commitments,
+            msgs,
+            self.unique_commitment_indices.clone(),
+            self.last_index,
+        )
+    }
+    pub fn verif_from(
+        num_commitments: usize,
+        msgs: Vec<(usize, u16, u16, u16)>,
+        unique_commitment_indices: BTreeSet<u16>,
+        last_index: u16,
+    ) -> Mapping {
+        let msgs_map = msgs
+            .into_iter()
+            .map(|(msg_id, commitment_index, commitment_crs_id, position_in_witness)| MessageMap {
+                msg_id,
+                commitment_index,
+                commitment_crs_id,
+                position_in_witness,
+            })
+            .collect();
+        Mapping {
+            num_commitments,
+            msgs_map,
+            unique_commitment_indices,
+            last_index,
+        }
+    }
+}
+
 #[test]
 fn test_random_compute_mapping() {
     use rand::Rng;
diff --git a/src/copy/mod.rs b/src/copy/mod.rs
index 1467674..541f7a1 100644
--- a/src/copy/mod.rs
+++ b/src/copy/mod.rs
@@ -1,2 +1,8 @@
 mod copy;
 mod mapping;
+
+#[cfg(qesa_verif)]
+pub mod verif {
+    pub use super::copy::{create, Copy};
+    pub use super::mapping::{commit, compute_mapping, Mapping, MessageMap};
+}
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..4cc1408 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -112,6 +112,16 @@ impl AlmZK {
     }
 }
 
+#[cfg(qesa_verif)]
+impl AlmZK {
+    pub fn verif_parts(&self) -> (CompressedRistretto, no_zk::NoZK) {
+        (self.C_r, self.NoZK.clone())
+    }
+    pub fn verif_from(C_r: CompressedRistretto, NoZK: no_zk::NoZK) -> AlmZK {
+        AlmZK { C_r, NoZK }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..e1f283a 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -179,6 +179,21 @@ fn vector_vector_add(a: &mut [RistrettoPoint], b: &mut [RistrettoPoint]) -> Vec<
     a.iter().zip(b.iter()).map(|(a, b)| a + b).collect()
 }
 
+#[cfg(qesa_verif)]
+impl NoZK {
+    pub fn verif_parts(&self) -> (Vec<CompressedRistretto>, Vec<CompressedRistretto>, Scalar, Scalar) {
+        (self.L_vec.clone(), self.R_vec.clone(), self.a, self.b)
+    }
+    pub fn verif_from(
+        L_vec: Vec<CompressedRistretto>,
+        R_vec: Vec<CompressedRistretto>,
+        a: Scalar,
+        b: Scalar,
+    ) -> NoZK {
+        NoZK { L_vec, R_vec, a, b }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..a9141d7 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -211,6 +211,24 @@ fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     gamma_prime
 }
 
+#[cfg(qesa_verif)]
+impl Inner {
+    pub fn verif_parts(&self) -> (CompressedRistretto, CompressedRistretto, alm_zk::AlmZK) {
+        (self.c_prime_w, self.c_prime_prime_w, self.alm_zk.clone())
+    }
+    pub fn verif_from(
+        c_prime_w: CompressedRistretto,
+        c_prime_prime_w: CompressedRistretto,
+        alm_zk: alm_zk::AlmZK,
+    ) -> Inner {
+        Inner {
+            alm_zk,
+            c_prime_w,
+            c_prime_prime_w,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index c596d75..d140d43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,3 +13,6 @@ mod tests {
         assert_eq!(2 + 2, 4);
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod verif;
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..bf2e39e 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -384,6 +384,52 @@ impl lmpa_noZK {
 
 
 
+#[cfg(qesa_verif)]
+impl NoZK {
+    pub fn verif_parts(&self) -> (Vec<Vec<RistrettoPoint>>, Vec<Vec<RistrettoPoint>>, Scalar) {
+        (self.L_Vec.clone(), self.R_Vec.clone(), self.w)
+    }
+    pub fn verif_from(
+        L_Vec: Vec<Vec<RistrettoPoint>>,
+        R_Vec: Vec<Vec<RistrettoPoint>>,
+        w: Scalar,
+    ) -> NoZK {
+        NoZK { L_Vec, R_Vec, w }
+    }
+}
+
+#[cfg(qesa_verif)]
+impl lmpa_noZK {
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        Vec<Vec<RistrettoPoint>>,
+        Vec<RistrettoPoint>,
+        Vec<Scalar>,
+        Vec<Vec<Vec<RistrettoPoint>>>,
+    ) {
+        (
+            self.A_Matrix.clone(),
+            self.t_Vec.clone(),
+            self.w_Vec.clone(),
+            self.u_proof_Block.clone(),
+        )
+    }
+    pub fn verif_from(
+        A_Matrix: Vec<Vec<RistrettoPoint>>,
+        t_Vec: Vec<RistrettoPoint>,
+        w_Vec: Vec<Scalar>,
+        u_proof_Block: Vec<Vec<Vec<RistrettoPoint>>>,
+    ) -> lmpa_noZK {
+        lmpa_noZK {
+            A_Matrix,
+            t_Vec,
+            w_Vec,
+            u_proof_Block,
+        }
+    }
+}
+
 use sha3::Sha3_512;
 
 #[test]
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..38ab450 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -148,6 +148,26 @@ impl SimpleZK {
     }
 }
 
+#[cfg(qesa_verif)]
+impl SimpleZK {
+    pub fn verif_parts(&self) -> (&Vec<RistrettoPoint>, &no_zk::NoZK) {
+        (&self.a, &self.no_zk)
+    }
+    pub fn verif_from(a: Vec<RistrettoPoint>, no_zk: no_zk::NoZK) -> SimpleZK {
+        SimpleZK { no_zk, a }
+    }
+}
+
+#[cfg(qesa_verif)]
+impl SimpleZK_general {
+    pub fn verif_parts(&self) -> (&Vec<RistrettoPoint>, &no_zk::lmpa_noZK) {
+        (&self.a, &self.lamp_no_zk)
+    }
+    pub fn verif_from(a: Vec<RistrettoPoint>, lamp_no_zk: no_zk::lmpa_noZK) -> SimpleZK_general {
+        SimpleZK_general { a, lamp_no_zk }
+    }
+}
+
 use sha3::Sha3_512;
 
 #[test]
diff --git a/src/qesa_zk.rs b/src/qesa_zk.rs
index 5f4b0a0..d491b60 100644
--- a/src/qesa_zk.rs
+++ b/src/qesa_zk.rs
@@ -44,3 +44,13 @@ impl Zk {
         self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)
     }
 }
+
+#[cfg(qesa_verif)]
+impl Zk {
+    pub fn verif_parts(&self) -> qesa_inner::Inner {
+        self.inner.clone()
+    }
+    pub fn verif_from(inner: qesa_inner::Inner) -> Zk {
+        Zk { inner }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..663a19e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,6 @@
+//! Verification hooks, compiled only with `--cfg qesa_verif`.
+//! Re-exports of private modules, and (in the modules that own the fields)
+//! `verif_parts`/`verif_from` pairs to take proofs apart and put them together.
+pub use crate::copy::verif as copy;
+pub use crate::ipa::{alm_zk, gramschmidt, no_zk, qesa_inner};
+pub use crate::math_utils::{inner_product, vandemonde_challenge};
-- 
2.43.0


From d86dabc73986693773389d7d54ba20208029b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:32 +0000
Subject: [PATCH 02/18] fix: prove the blinded pre-image in the general
 zero-knowledge LMPA

create_general computed the blinded witness but then ran the sub-protocol on
the witness itself, so the proof revealed it.
---
 src/lmpa/simple_zk.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 38ab450..7bee779 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -79,11 +79,18 @@ pub fn create_general(
         .map(|(witness, random)| beta * witness + random)
         .collect();
 
+    //Blinding the image accordingly.
+    let t_prime: Vec<RistrettoPoint> = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
+
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
-        t.clone(),
+        w_prime,
+        t_prime,
         n, //cols
         m, //rows
         k, //k
-- 
2.43.0


From d946a82eeac9ef58bc68d08b72b3efd08d8e3e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/18] fix: check the k-ary LMPA proof against the statement
 in every row

verify_lmpa_noZK used the image and the folded matrix found in the proof
instead of the ones it was given, and compared only the first row.
---
 src/lmpa/no_zk.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index bf2e39e..2b25906 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -307,6 +307,11 @@ impl lmpa_noZK {
             let vec_len = 2*shift+1; // index 0~2*shift
             
 
+            // The middle entry stands for the image itself
+            if self.u_proof_Block[challenge_index][shift] != t {
+                return false;
+            }
+
             for u_v in self.u_proof_Block[challenge_index].iter() {
                 for u_l in u_v.iter() {
                     transcript.append_message(b"u_l", u_l.compress().as_bytes());
@@ -376,9 +381,14 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        // The final matrix and image follow from the statement and the challenges
+        if self.A_Matrix != A || self.t_Vec != t || self.w_Vec.len() != n {
+            return false;
+        }
 
-        expected_t[0] == t[0]
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
+
+        expected_t == t
     }
 }
 
-- 
2.43.0


From cb34fd46c20d1997ee3ff9951b9b1cb02c465886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:54 +0000
Subject: [PATCH 04/18] fix: compare every row of the image in the LMPA
 verifier

---
 src/lmpa/no_zk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 2b25906..23db070 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -280,7 +280,7 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
-- 
2.43.0


From c43c5af239214021f18e93f57469d97779dd1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 05/18] fix: do not print the witness and the challenges

The LMPA provers and verifiers wrote the folded witness, the challenges and
every intermediate value to standard output.
---
 src/lmpa/no_zk.rs | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 23db070..6276a23 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -59,7 +59,6 @@ pub fn create(
         R_Vec.push(R);
 
         let challenge = transcript.challenge_scalar(b"challenge");
-        println!("zouyudi-create challenge:{:?}", challenge);
 
         let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
         A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
@@ -102,7 +101,6 @@ pub fn create_lmpa_noZK(
         let chunk_size = n/k;
         let A_T = matrix_split(&A, chunk_size);
         let w_T: Vec<_> = matrix_split(&vec![w.clone()], chunk_size);
-        println!("A_T:{:?}\n, w_T:{:?}", A_T, w_T);
 
         let mut i = 0;
         let mut j = 0;
@@ -114,7 +112,6 @@ pub fn create_lmpa_noZK(
                 let l = shift + j - i;
                 if( l != shift) {
                     let u_l_t = matrixpoint_vector_mul(&A_t, &w_vec[0]);
-                    println!("u_l_t:{:?}, u_vec_l: {:?}", u_l_t, u_vec[l]);
                     u_vec[l] = rowpoint_rowpoint_add(&u_vec[l], &u_l_t);
                    
                 } else {
@@ -128,7 +125,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         j = 0;
 
-        println!("u_vec: {:?}", u_vec);
 
         for u_v in u_vec.iter() {
             for u_l in u_v.iter() {
@@ -140,10 +136,8 @@ pub fn create_lmpa_noZK(
         let x = transcript.challenge_scalar(b"challenge_x");
 
         let x_vec: Vec<_> = vandemonde_vector(x, k); 
-        println!("x_vec: {:?}", x_vec);
 
         let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-        println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
         let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
         for x in x_vec.clone() {
@@ -161,7 +155,6 @@ pub fn create_lmpa_noZK(
         }
         i = 0;
         j = 0;
-        println!("z_vec: {:?}", z_vec);
 
         let mut new_A: Vec<_> = Vec::new();
         while i < k {
@@ -176,7 +169,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         
         A = new_A.pop().unwrap();
-        println!("A: {:?}", A);
 
         let mut new_w: Vec<_> = Vec::new();
         while i < k {
@@ -191,7 +183,6 @@ pub fn create_lmpa_noZK(
         i = 0;
 
         w = new_w.pop().unwrap().pop().unwrap();
-        println!("w:{:?}", w);
 
         let mut new_t: Vec<_> = Vec::new();
         while i < vec_len {
@@ -203,9 +194,7 @@ pub fn create_lmpa_noZK(
             }
             i += 1;
         }
-        println!("new_t:{:?}", new_t);
         t = new_t.pop().unwrap();
-        println!("t:{:?}", t);
 
         i = 0;
         j = 0;
@@ -262,7 +251,6 @@ impl NoZK {
             }
 
             let challenge = transcript.challenge_scalar(b"challenge");
-            println!("zouyudi-verify challenge:{:?}", challenge);
             let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
             A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
 
@@ -321,10 +309,8 @@ impl lmpa_noZK {
             let x = transcript.challenge_scalar(b"challenge_x");
 
             let x_vec: Vec<_> = vandemonde_vector(x, k); 
-            println!("x_vec: {:?}", x_vec);
 
             let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-            println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
             let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
             for x in x_vec.clone() {
@@ -342,7 +328,6 @@ impl lmpa_noZK {
             }
             i = 0;
             j = 0;
-            println!("z_vec: {:?}", z_vec);
 
             let mut new_A: Vec<_> = Vec::new();
             while i < k {
@@ -357,7 +342,6 @@ impl lmpa_noZK {
             i = 0;
             
             A = new_A.pop().unwrap();
-            println!("A: {:?}", A);
 
            
 
@@ -371,9 +355,7 @@ impl lmpa_noZK {
                 }
                 i += 1;
             }
-            println!("new_t:{:?}", new_t);
             t = new_t.pop().unwrap();
-            println!("t:{:?}", t);
 
             i = 0;
             j = 0;
-- 
2.43.0


From a47f8107aa6bd604c632c73d6f63f4ac87a642a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 06/18] fix: batch every matrix of the quadratic system

Only n challenges were made, and batching stopped at the shorter of the two
lists, so equations after the n-th were not checked at all.
---
 src/ipa/qesa_inner.rs | 11 ++++++++---
 src/matrix.rs         |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index a9141d7..da1878c 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,11 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    // There is one challenge for each matrix, and at least `n`
+    let num_challenges = n.max(gamma_i.block.len());
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
+    assert_eq!(x_challenges.len(), num_challenges);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -131,7 +134,9 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        let num_challenges = n.max(gamma_i.block.len());
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
diff --git a/src/matrix.rs b/src/matrix.rs
index c64cca1..79730ac 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -80,6 +80,9 @@ impl BlockMatrix {
     // Takes a block matrix and uses challenges to batch all vectors together into one matrix
     // by summing them
     pub fn block_matrix_batch(&self, challenges: &[Scalar]) -> Vec<Vec<Scalar>> {
+        // Every matrix needs a challenge, otherwise it would not be part of the sum
+        assert!(self.block.len() <= challenges.len());
+
         // This returns the block of matrices with each matrix multiplied by challenge
         let block_challenge: Vec<Vec<Vec<Scalar>>> = self
             .block
-- 
2.43.0


From f47d7a7fe74b63cd371c8375ae383204a042fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 07/18] fix: accept vectors that are already orthogonal

Projecting a vector that is already orthogonal (or projecting on the zero
vector) is well defined, but aborted the prover.
---
 src/ipa/gramschmidt.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipa/gramschmidt.rs b/src/ipa/gramschmidt.rs
index a4834d1..0b26200 100644
--- a/src/ipa/gramschmidt.rs
+++ b/src/ipa/gramschmidt.rs
@@ -32,8 +32,6 @@ pub fn orth(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
     let aa: Scalar = inner_product(&a, &a);
     let ab: Scalar = inner_product(&a, &b);
 
-    assert_ne!(Scalar::zero(), ab);
-
     let x: Scalar = ab * aa.invert();
 
     let ax: Vec<Scalar> = a.iter().map(|k| k * x).collect();
-- 
2.43.0


From b65bbd33a3644c2033a50101e43f8ed646e57486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 08/18] fix: refuse a mapping whose commitments use the
 reserved first position

The result of the check was discarded.
---
 src/copy/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index dd5e328..027fd9e 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -78,7 +78,7 @@ pub fn compute_mapping(
         .collect();
 
     // The first element in the witness is reserved and so users cannot commit to it.
-    unique_indices.contains(&0);
+    assert!(!unique_indices.contains(&0));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From 3e2a4fd6baf81a059678c0d12be878c5724fa8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 09/18] fix: reject malformed proofs instead of aborting

Undecodable points, missing, surplus or wrongly sized round messages made the
verifiers panic, or were silently cut to the expected length.
---
 src/copy/copy.rs      | 10 +++++++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/no_zk.rs      | 21 +++++++++++++++++----
 src/ipa/qesa_inner.rs | 10 ++++++++--
 src/lmpa/no_zk.rs     | 23 ++++++++++++++++++++++-
 src/lmpa/simple_zk.rs |  8 ++++++++
 6 files changed, 68 insertions(+), 9 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 1ab80bd..286f9f2 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -173,6 +173,14 @@ impl Copy {
     ) -> bool {
         let n = G_Vec.len();
 
+        if commitments.len() != map.num_commitments {
+            return false;
+        }
+        let C_w = match self.C_w.decompress() {
+            Some(C_w) => C_w,
+            None => return false,
+        };
+
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
@@ -187,7 +195,7 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        commitment = commitment + C_w;
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index 4cc1408..6eb6b25 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(C_r) => C_r,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index e1f283a..dbc28ef 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,11 +122,24 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
+        // There must be exactly one `L` and one `R` for each halving of the vectors
+        if !n.is_power_of_two()
+            || G.len() != n
+            || H.len() != n
+            || self.L_vec.len() != n.trailing_zeros() as usize
+            || self.R_vec.len() != self.L_vec.len()
+        {
+            return false;
+        }
+
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
 
-        let mut n = 1 << Ls.len();
+        let mut n = n;
 
         transcript.append_u64(b"n", n as u64);
 
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index da1878c..98a4a74 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -130,7 +130,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(c_prime_w) => c_prime_w,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -149,7 +152,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(c_prime_prime_w) => c_prime_prime_w,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 6276a23..c1850eb 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -222,6 +222,17 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // There must be one `L` and one `R` for each halving of the pre-image,
+        // with one entry for each row
+        let m = A.len();
+        if t.len() != m
+            || self.L_Vec.len() != n.trailing_zeros() as usize
+            || self.R_Vec.len() != self.L_Vec.len()
+            || self.L_Vec.iter().chain(self.R_Vec.iter()).any(|u| u.len() != m)
+        {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -293,7 +304,12 @@ impl lmpa_noZK {
             let mut j = 0;
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
             let vec_len = 2*shift+1; // index 0~2*shift
-            
+
+            // There must be a round of the proof left, with the right dimensions
+            match self.u_proof_Block.get(challenge_index) {
+                Some(u) if u.len() == vec_len && u.iter().all(|u_l| u_l.len() == m) => (),
+                _ => return false,
+            }
 
             // The middle entry stands for the image itself
             if self.u_proof_Block[challenge_index][shift] != t {
@@ -363,6 +379,11 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
+        // All rounds of the proof must have been used
+        if self.u_proof_Block.len() != challenge_index {
+            return false;
+        }
+
         // The final matrix and image follow from the statement and the challenges
         if self.A_Matrix != A || self.t_Vec != t || self.w_Vec.len() != n {
             return false;
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 7bee779..a943318 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -112,6 +112,10 @@ impl SimpleZK_general {
         k: usize,
     ) -> bool {
 
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
@@ -140,6 +144,10 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 333cfedf702051541d18b4d77f65b3f0a0b0fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 10/18] fix: check the inner witness commitment carried by a
 copy proof

The verifier ignored the field, so a proof could be altered there and still
be accepted.
---
 src/copy/copy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 286f9f2..98d2b0b 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -196,6 +196,9 @@ impl Copy {
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
         commitment = commitment + C_w;
+        if self.inner.c_prime_w != commitment.compress() {
+            return false;
+        }
 
         // 3. Modify gamma to match the new commited values
         //
-- 
2.43.0


From 2f143c231f8199c840b622ef95645be7a860a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 11/18] fix: bind the quadratic-equation challenges to the
 statement

The generators and the equations were not part of the transcript, so they
could be chosen after the challenges were known.
---
 src/ipa/qesa_inner.rs | 25 +++++++++++++++++++++++++
 src/transcript.rs     | 20 +++++++++++++++++++-
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 98a4a74..e61896e 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -30,6 +30,8 @@ pub fn create(
     assert_eq!(w.len(), n - 2);
     assert_eq!(r_prime.len(), 2);
 
+    append_statement(transcript, &G_Vec, &H_Vec, Q, gamma_i);
+
     // 1. Compute w' (extended witness)
     //
     let w_prime = [&w[..], &r_prime[..]].concat();
@@ -127,6 +129,8 @@ impl Inner {
     ) -> bool {
         let n = H_Vec.len();
 
+        append_statement(transcript, &G_Vec, &H_Vec, Q, gamma_i);
+
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
@@ -196,6 +200,27 @@ impl Inner {
     }
 }
 
+// Binds all challenges to the statement
+pub(crate) fn append_statement(
+    transcript: &mut Transcript,
+    G_Vec: &[RistrettoPoint],
+    H_Vec: &[RistrettoPoint],
+    Q: &RistrettoPoint,
+    gamma_i: &BlockMatrix,
+) {
+    transcript.append_points(b"G", G_Vec);
+    transcript.append_points(b"H", H_Vec);
+    transcript.append_message(b"Q", Q.compress().as_bytes());
+
+    transcript.append_u64(b"num_matrices", gamma_i.block.len() as u64);
+    for matrix in gamma_i.block.iter() {
+        transcript.append_u64(b"num_rows", matrix.len() as u64);
+        for row in matrix.iter() {
+            transcript.append_scalars(b"row", row);
+        }
+    }
+}
+
 fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     // Pad the gamma rows with zeroes at the end (iss#1)
     let mut gamma_prime: Vec<Vec<Scalar>> = gamma
diff --git a/src/transcript.rs b/src/transcript.rs
index 3d14e3e..73690ba 100644
--- a/src/transcript.rs
+++ b/src/transcript.rs
@@ -1,11 +1,15 @@
 //! Defines a `TranscriptProtocol` trait for using a Merlin transcript.
 
-use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::{ristretto::RistrettoPoint, scalar::Scalar};
 use merlin::Transcript;
 
 pub trait TranscriptProtocol {
     /// Compute a `label`ed challenge variable.
     fn challenge_scalar(&mut self, label: &'static [u8]) -> Scalar;
+    /// Append a list of points, preceded by its length.
+    fn append_points(&mut self, label: &'static [u8], points: &[RistrettoPoint]);
+    /// Append a list of scalars, preceded by its length.
+    fn append_scalars(&mut self, label: &'static [u8], scalars: &[Scalar]);
 }
 
 impl TranscriptProtocol for Transcript {
@@ -15,4 +19,18 @@ impl TranscriptProtocol for Transcript {
 
         Scalar::from_bytes_mod_order_wide(&buf)
     }
+
+    fn append_points(&mut self, label: &'static [u8], points: &[RistrettoPoint]) {
+        self.append_u64(b"len", points.len() as u64);
+        for point in points {
+            self.append_message(label, point.compress().as_bytes());
+        }
+    }
+
+    fn append_scalars(&mut self, label: &'static [u8], scalars: &[Scalar]) {
+        self.append_u64(b"len", scalars.len() as u64);
+        for scalar in scalars {
+            self.append_message(label, scalar.as_bytes());
+        }
+    }
 }
-- 
2.43.0


From de6efcab8ef330b188d11a98ceef1dd2036d7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 12/18] fix: bind the LMPA challenges to the matrix and its
 image

Neither was part of the transcript, so an image without a known pre-image
could be chosen after the challenges were known.
---
 src/lmpa/no_zk.rs     | 21 +++++++++++++++++++++
 src/lmpa/simple_zk.rs |  8 ++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index c1850eb..fbb1ed4 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -27,6 +27,8 @@ pub fn create(
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
+    append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     while n != 1 {
         n = n / 2;
         let (A_0_1): Vec<_> = A
@@ -77,6 +79,19 @@ pub fn create(
     }
 }
 
+// Binds all challenges to the statement
+pub(crate) fn append_statement(
+    transcript: &mut Transcript,
+    A: &Vec<Vec<RistrettoPoint>>,
+    t: &[RistrettoPoint],
+) {
+    transcript.append_u64(b"num_rows", A.len() as u64);
+    for row in A.iter() {
+        transcript.append_points(b"A", row);
+    }
+    transcript.append_points(b"t", t);
+}
+
 // For protocol 3.9 in qesa paper.
 pub struct lmpa_noZK{
     A_Matrix: Vec<Vec<RistrettoPoint>>,
@@ -96,6 +111,8 @@ pub fn create_lmpa_noZK(
     zero: RistrettoPoint,
 ) -> lmpa_noZK
 {
+    append_statement(transcript, &A, &t);
+
     let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
     while n >= k {
         let chunk_size = n/k;
@@ -233,6 +250,8 @@ impl NoZK {
             return false;
         }
 
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -295,6 +314,8 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        append_statement(transcript, &A, &t);
+
         let mut challenge_index = 0;
         while n >= k {
             let chunk_size = n/k;
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index a943318..e1d30e6 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -25,6 +25,8 @@ pub fn create(
 ) -> SimpleZK {
     let mut n = G_Vec.len();
 
+    no_zk::append_statement(transcript, &A, &matrixpoint_vector_mul(&A, &w));
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -63,6 +65,8 @@ pub fn create_general(
     k: usize,
 ) -> SimpleZK_general {
 
+    no_zk::append_statement(transcript, &A, &t);
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -116,6 +120,8 @@ impl SimpleZK_general {
             return false;
         }
 
+        no_zk::append_statement(transcript, &A, &t);
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
@@ -148,6 +154,8 @@ impl SimpleZK {
             return false;
         }
 
+        no_zk::append_statement(transcript, &A, &t);
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 846ccc98854a49bb66fad4edb3324b657a0091b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 13/18] fix: bind the copy-proof challenges to the commitments
 and their mapping

They were not part of the transcript, so commitments could be chosen after
the aggregation challenge was known.
---
 src/copy/copy.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 98d2b0b..a67a7a8 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -1,5 +1,5 @@
 #![allow(non_snake_case)]
-use crate::copy::mapping::{Mapping, MessageMap};
+use crate::copy::mapping::{commit, Mapping, MessageMap};
 use crate::ipa::qesa_inner;
 use crate::math_utils::vandemonde_challenge;
 use crate::matrix::*;
@@ -10,6 +10,7 @@ use curve25519_dalek::{
     traits::VartimeMultiscalarMul,
 };
 use merlin::Transcript;
+use std::collections::BTreeSet;
 /// Qesa_Zk alone is used to ensure quadratic eqaution satisfiability
 /// It cannot provide any guarantees regarding external input such as Pedersen Commitments
 /// Qesa_Copy acts as a layer on top to allow us to `map` commitments onto the witness
@@ -34,6 +35,16 @@ pub fn create(
 
     assert_eq!(map.num_commitments, openings.len());
 
+    append_statement(
+        transcript,
+        &G_Vec,
+        &H_Vec,
+        Q,
+        &gamma_i,
+        &map,
+        &commitments(&G_Vec, &map, &openings),
+    );
+
     // Ensure the first element in the witness is `1` (see paper)
     assert_eq!(w[0], Scalar::one());
 
@@ -181,6 +192,8 @@ impl Copy {
             None => return false,
         };
 
+        append_statement(transcript, &G_Vec, &H_Vec, Q, &gamma_i, &map, &commitments);
+
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
@@ -244,6 +257,45 @@ impl Copy {
         proof_inner.verify(transcript, G_Vec, H_Vec, Q, &gamma_i)
     }
 }
+
+// Computes the commitments from their openings
+fn commitments(
+    G_Vec: &[RistrettoPoint],
+    map: &Mapping,
+    openings: &[(Vec<Scalar>, Scalar)],
+) -> Vec<RistrettoPoint> {
+    let mut indices = map.msgs_map.iter().map(|msg_map| msg_map.commitment_index);
+
+    openings
+        .iter()
+        .map(|(msgs, rand)| {
+            let indices: BTreeSet<u16> = indices.by_ref().take(msgs.len()).collect();
+            commit(G_Vec, &indices, msgs, rand)
+        })
+        .collect()
+}
+
+// Binds all challenges to the statement
+fn append_statement(
+    transcript: &mut Transcript,
+    G_Vec: &[RistrettoPoint],
+    H_Vec: &[RistrettoPoint],
+    Q: &RistrettoPoint,
+    gamma_i: &BlockMatrix,
+    map: &Mapping,
+    commitments: &[RistrettoPoint],
+) {
+    qesa_inner::append_statement(transcript, G_Vec, H_Vec, Q, gamma_i);
+
+    transcript.append_u64(b"num_messages", map.msgs_map.len() as u64);
+    for msg_map in map.msgs_map.iter() {
+        transcript.append_u64(b"commitment_index", msg_map.commitment_index as u64);
+        transcript.append_u64(b"commitment_crs_id", msg_map.commitment_crs_id as u64);
+        transcript.append_u64(b"position_in_witness", msg_map.position_in_witness as u64);
+    }
+    transcript.append_points(b"commitment", commitments);
+}
+
 #[cfg(qesa_verif)]
 impl Copy {
     pub fn verif_parts(&self) -> (CompressedRistretto, qesa_inner::Inner) {
-- 
2.43.0


From 495130ffc1d08faecbe7694f681bfa1b754b93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:13 +0000
Subject: [PATCH 14/18] fix: fix the first witness element with a challenge of
 its own

It was scaled with the challenge that batches the second matrix. A prover
committing to another first element could make it move with the challenge so
that it cancelled the residual of an equation that does not hold, and have a
proof of a false statement accepted (systems of three or more matrices).
---
 src/ipa/qesa_inner.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index e61896e..8d0a3fc 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -43,8 +43,9 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    // There is one challenge for each matrix, and at least `n`
-    let num_challenges = n.max(gamma_i.block.len());
+    // There is one challenge for each matrix, one more to fix the first element of the witness,
+    // and at least `n`
+    let num_challenges = n.max(gamma_i.block.len() + 1);
     let x_challenges: Vec<Scalar> =
         vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
     assert_eq!(x_challenges.len(), num_challenges);
@@ -57,7 +58,9 @@ pub fn create(
 
     //5. Fix the first element of the witness to be one (see paper)
     //
-    let beta = x_challenges[1];
+    // The challenge must not be one of those that batch the matrices, otherwise a first element
+    // that moves with it can make up for an equation that does not hold
+    let beta = x_challenges[gamma_i.block.len()];
     G_Vec[0] = G_Vec[0] * beta.invert();
 
     //6. Compute r'' by rotating the r' by 90 degrees
@@ -141,7 +144,7 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let num_challenges = n.max(gamma_i.block.len());
+        let num_challenges = n.max(gamma_i.block.len() + 1);
         let x_challenges: Vec<Scalar> =
             vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
@@ -151,7 +154,7 @@ impl Inner {
 
         //4. Fix the first element of the witness to be one (see paper)
         //
-        let beta = x_challenges[1];
+        let beta = x_challenges[gamma_i.block.len()];
         G_Vec[0] = G_Vec[0] * beta.invert();
 
         //5. Decompress the commitment (C''_w)
-- 
2.43.0


From 08bd67cc8143729c4e75c718c08082001f9e5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 15/18] fix: refuse a mapping whose commitments use the
 reserved last two positions

---
 src/copy/mapping.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index 027fd9e..abf7d57 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -79,6 +79,8 @@ pub fn compute_mapping(
 
     // The first element in the witness is reserved and so users cannot commit to it.
     assert!(!unique_indices.contains(&0));
+    // So are the last two, which blind the witness.
+    assert!(unique_indices.iter().all(|i| *i + 2 < n));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From 23b119fad1c25a2d0e6bc9560febe8c96179a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:27 +0000
Subject: [PATCH 16/18] fix: refuse sizes that do not fit the 16-bit positions
 of a mapping

---
 src/copy/mapping.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index abf7d57..75991f8 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -66,6 +66,9 @@ pub fn compute_mapping(
     witness_size: usize,
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
+    // Positions and commitments are numbered with 16 bits
+    let max = u16::max_value() as usize;
+    assert!(n <= max && witness_size <= max && sets_of_indices.len() <= max);
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
-- 
2.43.0


From ea3a1ac9b821139b4e8dca855cbd89e9ad547b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:15 +0000
Subject: [PATCH 17/18] fix: keep the two witness commitments apart with a
 challenge

---
 src/ipa/qesa_inner.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 8d0a3fc..1f94d19 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -20,7 +20,7 @@ pub struct Inner {
 pub fn create(
     transcript: &mut Transcript,
     mut G_Vec: Vec<RistrettoPoint>,
-    H_Vec: Vec<RistrettoPoint>,
+    mut H_Vec: Vec<RistrettoPoint>,
     Q: &RistrettoPoint,
     gamma_i: &BlockMatrix,
     w: Vec<Scalar>,
@@ -86,6 +86,12 @@ pub fn create(
     let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
     let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);
 
+    // Keep C'_w and C''_w apart, otherwise a part of the witness could be committed in C''_w,
+    // after the challenges that batch the matrices
+    //
+    let delta = transcript.challenge_scalar(b"delta");
+    H_Vec = H_Vec.iter().map(|H| H * delta).collect();
+
     //10. compute s' by concatenating `s` and `b`
     //
     let s_prime = [&s_challenges[..], &b_challenges[..]].concat();
@@ -126,7 +132,7 @@ impl Inner {
         &self,
         transcript: &mut Transcript,
         mut G_Vec: Vec<RistrettoPoint>,
-        H_Vec: Vec<RistrettoPoint>,
+        mut H_Vec: Vec<RistrettoPoint>,
         Q: &RistrettoPoint,
         gamma_i: &BlockMatrix,
     ) -> bool {
@@ -171,6 +177,11 @@ impl Inner {
         let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
         let b_challenges = vandemonde_challenge(transcript.challenge_scalar(b"b"), 2);
 
+        // Keep C'_w and C''_w apart, by moving C''_w to generators of its own
+        //
+        let delta = transcript.challenge_scalar(b"delta");
+        H_Vec = H_Vec.iter().map(|H| H * delta).collect();
+
         //7. compute s' by concatenating `s` and `b`
         //
         let s_prime = [&s_challenges[..], &b_challenges[..]].concat();
@@ -191,7 +202,7 @@ impl Inner {
         // 9. Compute commitment (C_w) to witness
         //
         let mut C_w = c_prime_w
-            + c_prime_prime_w
+            + delta * c_prime_prime_w
             + RistrettoPoint::vartime_multiscalar_mul(gamma_prime_t_s_prime.iter(), H_Vec.iter());
         C_w = C_w - RistrettoPoint::vartime_multiscalar_mul(s_prime.iter(), G_Vec.iter());
         transcript.append_message(b"c_w", C_w.compress().as_bytes());
-- 
2.43.0


From cd374aa8c7c63a717d0330971024a30c3cf9bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:21 +0000
Subject: [PATCH 18/18] fix: aggregate the commitments with challenges whose
 products are none of them

---
 src/copy/copy.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index a67a7a8..d0ba997 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -83,7 +83,7 @@ pub fn create(
     // 6. Use challenges to adjust the witness value
     //
     let alpha = transcript.challenge_scalar(b"alpha");
-    let alpha_challenges = vandemonde_challenge(alpha, openings.len());
+    let alpha_challenges = commitment_challenges(alpha, openings.len());
 
     // 7.Compute aggregated random value
     //
@@ -201,7 +201,7 @@ impl Copy {
         // 2. Use challenge to adjust the commitment values
         //
         let alpha = transcript.challenge_scalar(b"alpha");
-        let alpha_challenges = vandemonde_challenge(alpha, commitments.len());
+        let alpha_challenges = commitment_challenges(alpha, commitments.len());
 
         let mut commitment: RistrettoPoint = alpha_challenges
             .iter()
@@ -258,6 +258,15 @@ impl Copy {
     }
 }
 
+// Computes the challenges that aggregate the commitments
+//
+// The copy equations multiply the aggregated commitments by these challenges once more. No product
+// of two of them must be a challenge itself, otherwise a commitment with components where the
+// messages of another are placed can make up for a message that was not committed to
+fn commitment_challenges(alpha: Scalar, num_commitments: usize) -> Vec<Scalar> {
+    vandemonde_challenge(alpha, 2 * num_commitments).split_off(num_commitments)
+}
+
 // Computes the commitments from their openings
 fn commitments(
     G_Vec: &[RistrettoPoint],
-- 
2.43.0

