From 27fe22e232dc7af698adddea44c883fb7b2244a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 01/19] fix: master keys cover the last attribute value a
 policy allows

---
 src/core/engine.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..304e67f 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,11 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
-        self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+        // attribute values run from 1 to `max_attribute_creations` included
+        let size = (policy.max_attribute_creations as usize)
+            .checked_add(1)
+            .ok_or_else(|| FormatErr::InvalidSize("too many attribute creations".to_string()))?;
+        self.sch.generate_master_key(size)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From d22dec71ae52e988178cba95c17fe62630ad1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 02/19] fix: encryption refuses attribute values the public key
 does not cover

---
 src/core/gpsw/scheme.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..e5396df 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -489,18 +489,23 @@ impl<G: BilinearMap> Gpsw<G> {
         gamma: &[u32],
         pub_key: &GpswMasterPublicKey<G>,
     ) -> Result<GpswCipherText<G>, FormatErr> {
-        if pub_key.t_i.len() <= gamma.len() {
-            return Err(FormatErr::InternalOperation(format!(
-                "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
-                gamma.len(),
-                pub_key.t_i.len() - 1
-            )));
-        }
+        let big_t_i = gamma
+            .iter()
+            .map(|i| {
+                pub_key.t_i.get(*i as usize).ok_or_else(|| {
+                    FormatErr::InternalOperation(format!(
+                        "invalid attributes: gamma value incorrect (value: {i}, number of \
+                         attributes of the public key: {})",
+                        pub_key.t_i.len()
+                    ))
+                })
+            })
+            .collect::<Result<Vec<_>, _>>()?;
         let s = self.group.gen_random_scalar()?;
         let e_prime = self.group.gt_mul(msg, &self.group.gt_exp(&pub_key.y, &s));
-        let e_i = gamma
+        let e_i = big_t_i
             .iter()
-            .map(|i| self.group.g2_exp(&pub_key.t_i[*i as usize], &s))
+            .map(|t_i| self.group.g2_exp(t_i, &s))
             .collect();
         let enc_msg = GpswCipherText::<G> {
             gamma: gamma.to_vec(),
-- 
2.43.0


From 55f69c631b210d97491a39759888fc64f1fa64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 03/19] fix: delegation refuses attribute values the delegation
 key does not cover

---
 src/core/gpsw/scheme.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index e5396df..9c65a3d 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -393,6 +393,18 @@ impl<G: BilinearMap> Gpsw<G> {
         })
     }
 
+    fn delegation_slot(
+        del_key: &GpswMasterPublicDelegationKey<G>,
+        attribute: u32,
+    ) -> Result<&G::G3, FormatErr> {
+        del_key.inv_t_i.get(attribute as usize).ok_or_else(|| {
+            FormatErr::InternalOperation(
+                "Monotone Span Program is invalid: msp-row larger than delegation-key-inv_t_i"
+                    .to_string(),
+            )
+        })
+    }
+
     // assume the msp is more restrictive, otherwise the key will be useless
     pub fn key_delegation(
         &self,
@@ -416,7 +428,7 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = Self::delegation_slot(del_key, msp.get_attr_from_row(i))?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +471,7 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = Self::delegation_slot(del_key, msp.get_attr_from_row(i))?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From 6930d219cbcaa4988ff65c0a6d3a2bf8394ff4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 04/19] fix: delegation to a policy that replaces OR by AND
 gives a working key

The shares of an OR node are multiplied by coefficients that make them
shares of the same secret for the new policy, and delegation to a policy
that is not more restrictive is refused instead of giving a useless key.
---
 src/core/gpsw/scheme.rs | 110 +++++++++++++++++++++++++++++++++-------
 1 file changed, 92 insertions(+), 18 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 9c65a3d..f5c4ad4 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -405,7 +405,7 @@ impl<G: BilinearMap> Gpsw<G> {
         })
     }
 
-    // assume the msp is more restrictive, otherwise the key will be useless
+    // the msp must be more restrictive than the one of the user key
     pub fn key_delegation(
         &self,
         msp: &MonotoneSpanProgram<i32>,
@@ -423,23 +423,32 @@ impl<G: BilinearMap> Gpsw<G> {
                 u
             }
         };
-        // compute Di = g1^(<M_i, u>/-t_rho_i) = (g1^(t_rho_i)^-1)^(<M_i, u>)
+        // rows of the user key holding the attributes of the new msp
+        let rows = (0..msp.rows())
+            .map(|i| {
+                user_key
+                    .msp
+                    .get_row_from_attr(msp.get_attr_from_row(i))
+                    .ok_or_else(|| {
+                        FormatErr::InternalOperation("new attribute is not allowed".to_string())
+                    })
+            })
+            .collect::<Result<Vec<_>, _>>()?;
+        let matrix = MonotoneSpanProgram::<G::Scalar>::from(msp).matrix;
+        let coefs = Self::delegation_coefs(&matrix, &user_key.msp, &rows)?;
+        // compute Di = D_old^c_i · g1^(<M_i, u>/-t_rho_i)
+        //            = D_old^c_i · (g1^(t_rho_i)^-1)^(<M_i, u>)
         let mut big_d_i = Vec::with_capacity(msp.rows());
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
-        for (i, row) in msp.matrix().iter().enumerate() {
+        for (i, row) in matrix.iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
             let gt_rho_i = Self::delegation_slot(del_key, msp.get_attr_from_row(i))?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
-            if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-                let r_di = self.group.g3_mul(&user_key.raw_d_i[index], &di);
-                big_d_i.push(r_di.0);
-                raw_big_d_i.push(r_di.1);
-            } else {
-                return Err(FormatErr::InternalOperation(
-                    "new attribute is not allowed".to_string(),
-                ));
-            }
+            let old_di = self.group.g3_exp(&user_key.raw_d_i[rows[i]], &coefs[i]);
+            let r_di = self.group.g3_mul(&old_di, &di);
+            big_d_i.push(r_di.0);
+            raw_big_d_i.push(r_di.1);
         }
         Ok(GpswDecryptionKey::<G> {
             raw_d_i: raw_big_d_i,
@@ -568,6 +577,63 @@ impl<G: BilinearMap> Gpsw<G> {
         })
     }
 
+    // Compute the coefficients c_i by which the shares of the user key must be
+    // multiplied to become shares of the same secret for the new matrix M',
+    // i.e. Σ α_i⋅c_i⋅M_ρ(i) = 1,⋯,1 for every α such that Σ α_i⋅M'_i = 1,⋯,1.
+    // All the c_i are 1 when `Or` nodes are only replaced by one of their
+    // children
+    fn delegation_coefs(
+        matrix: &[Vec<G::Scalar>],
+        msp: &MonotoneSpanProgram<G::Scalar>,
+        rows: &[usize],
+    ) -> Result<Vec<G::Scalar>, FormatErr> {
+        let solutions = Self::all_span_coefs(matrix)?;
+        let mut scaled_rows = rows
+            .iter()
+            .enumerate()
+            .map(|(i, row)| {
+                solutions
+                    .iter()
+                    .flat_map(|a_i| msp.get_row(*row).iter().map(move |m| a_i[i].clone() * m))
+                    .collect::<Vec<_>>()
+            })
+            .collect::<Vec<_>>();
+        let is_valid = scaled_rows
+            .iter()
+            .cloned()
+            .reduce(|a, b| a.into_iter().zip(&b).map(|(x, y)| x + y).collect())
+            .map_or(false, |sum| sum.iter().all(|x| *x == G::ONE));
+        if is_valid {
+            return Ok(vec![G::ONE; rows.len()]);
+        }
+        Self::span_coefs(&mut scaled_rows)?.ok_or_else(|| {
+            FormatErr::InternalOperation(
+                "the new policy is not more restrictive than the one of the user key".to_string(),
+            )
+        })
+    }
+
+    // Compute solutions of Σ α_i⋅M_i = 1,⋯,1 whose affine combinations are all
+    // the solutions
+    fn all_span_coefs(matrix: &[Vec<G::Scalar>]) -> Result<Vec<Vec<G::Scalar>>, FormatErr> {
+        let base = Self::span_coefs(&mut matrix.to_vec())?.ok_or_else(|| {
+            FormatErr::InternalOperation("the new policy can never be satisfied".to_string())
+        })?;
+        let mut solutions = vec![base.clone()];
+        // each row depending on the previous ones gives one more solution
+        for i in 1..matrix.len() {
+            if let Some(coefs) = Self::linear_coefs(&mut matrix[..i].to_vec(), matrix[i].clone()) {
+                let mut solution = base.clone();
+                for (s, coef) in solution.iter_mut().zip(&coefs) {
+                    *s = s.clone() + coef;
+                }
+                solution[i] = solution[i].clone() - &G::ONE;
+                solutions.push(solution);
+            }
+        }
+        Ok(solutions)
+    }
+
     // assume v1.len() = v2.len()
     fn prod_scal<T: Clone + Into<G::Scalar>>(v1: &[T], v2: &[G::Scalar]) -> G::Scalar {
         v1.iter()
@@ -584,15 +650,23 @@ impl<G: BilinearMap> Gpsw<G> {
     pub fn span_coefs(
         matrix: &mut Vec<Vec<G::Scalar>>,
     ) -> Result<Option<Vec<G::Scalar>>, FormatErr> {
-        // Add the result vector 1,⋯,1 to the matrix
         if matrix.is_empty() || matrix[0].is_empty() {
             return Err(FormatErr::InternalOperation(
                 "empty input matrix".to_string(),
             ));
         }
-        let mut vec_res = Vec::with_capacity(matrix[0].len());
-        vec_res.resize(matrix[0].len(), G::ONE);
-        matrix.push(vec_res);
+        let target = vec![G::ONE; matrix[0].len()];
+        Ok(Self::linear_coefs(matrix, target))
+    }
+
+    // Compute a linear combination of row which span to the target vector
+    // assume that matrix is not empty
+    fn linear_coefs(
+        matrix: &mut Vec<Vec<G::Scalar>>,
+        target: Vec<G::Scalar>,
+    ) -> Option<Vec<G::Scalar>> {
+        // Add the result vector to the matrix
+        matrix.push(target);
         // current row for elimination
         let mut curr_row = 0;
         // current_col for pivot
@@ -660,7 +734,7 @@ impl<G: BilinearMap> Gpsw<G> {
 
         // the last pivot is in the last column so no solution
         if last_pivot_col == nb_col - 1 {
-            return Ok(None);
+            return None;
         }
         let mut sol = Vec::with_capacity(nb_col);
         let mut current_col = 0;
@@ -683,6 +757,6 @@ impl<G: BilinearMap> Gpsw<G> {
             }
         }
         sol.resize(nb_col - 1, G::ZERO);
-        Ok(Some(sol))
+        Some(sol)
     }
 }
-- 
2.43.0


From 4e9ca32771221cf9617892a51e627070bb231e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 05/19] fix: malformed lists, keys, ciphertexts and span
 programs are refused instead of panicking

---
 src/core/gpsw/mod.rs    | 14 ++++++++++++--
 src/core/gpsw/scheme.rs | 11 +++++++++++
 src/core/msp.rs         | 12 ++++++++----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..1cd9a47 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
@@ -74,7 +80,8 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        // an empty vector is serialized as no bytes at all
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -83,7 +90,10 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        let min_len = (len - 1)
+            .checked_mul(res0_len_bytes)
+            .and_then(|l| l.checked_add(4));
+        if min_len.map_or(true, |l| l >= bytes.len()) {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index f5c4ad4..d061cc2 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "the number of key elements differs from the number of MSP rows".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -218,6 +223,12 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
         let e_i_len = e_i.len_bytes();
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
+        if gamma.len() != e_i.len() {
+            return Err(FormatErr::Deserialization(
+                "the number of attributes differs from the number of ciphertext elements"
+                    .to_string(),
+            ));
+        }
 
         Ok(Self {
             gamma,
diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..217c084 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,7 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        if nb_row == 0 || nb_col == 0 || (bytes.len() - 8) / 4 < nb_row {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -72,13 +72,17 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         }
 
         let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        let matrix_len = nb_row
+            .checked_mul(nb_col)
+            .and_then(|l| l.checked_mul(first.len_bytes()));
+        if matrix_len.map_or(true, |l| bytes.len() - 8 - (4 * nb_row) < l) {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
         }
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From 9dfd452433d1434ac1f5bebfb7495c1cd8bb988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 06/19] fix: truncated structured headers are refused instead
 of panicking

---
 src/interfaces/hybrid_crypto/statics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..dece254 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -39,6 +39,11 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidSize(format!(
+                "header too short for a symmetric key of {symmetric_key_len} bytes"
+            )));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
@@ -75,6 +80,11 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `meta_data`
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidSize(format!(
+                "header too short for a symmetric key of {symmetric_key_len} bytes"
+            )));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
-- 
2.43.0


From c3dc9ed419dfa2e47c25df2ea30e878a6e810b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 07/19] fix: oversized lengths in a header are refused on 32
 bits architectures too

---
 src/interfaces/hybrid_crypto/statics.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index dece254..ceacbcf 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -165,6 +165,13 @@ where
         .read_u32()
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
         as usize;
+    // the scanner must not overflow on 32 bits architectures
+    if encrypted_symmetric_key_size > encrypted_header.len() {
+        return Err(FormatErr::InvalidSize(format!(
+            "announced {encrypted_symmetric_key_size} bytes, only {} bytes available",
+            encrypted_header.len()
+        )));
+    }
     let encrypted_symmetric_key = scanner
         .next(encrypted_symmetric_key_size)
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
@@ -192,6 +199,13 @@ where
             .read_u32()
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?
             as usize;
+        // the scanner must not overflow on 32 bits architectures
+        if encrypted_metadata_size > encrypted_header.len() {
+            return Err(FormatErr::InvalidSize(format!(
+                "announced {encrypted_metadata_size} bytes, only {} bytes available",
+                encrypted_header.len()
+            )));
+        }
 
         // UID
         let encrypted_metadata = scanner
-- 
2.43.0


From 7f8131516172ceb533346ce7a98ae2c198d0a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 08/19] fix: an axis attribute without values in a policy is
 refused instead of panicking

---
 src/core/msp.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 217c084..dfbb890 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -449,6 +449,20 @@ fn policy_to_formula(policy: &Policy, axis: &AccessPolicy) -> Result<Node, Forma
     })
 }
 
+// Return the Or of all the values of an attribute
+fn attribute_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr> {
+    policy
+        .attribute_to_int
+        .get(attr)
+        .and_then(|values| {
+            values
+                .iter()
+                .map(|value| Node::Leaf(*value))
+                .reduce(BitOr::bitor)
+        })
+        .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))
+}
+
 // Convert an Attribute to a Node for msp computation
 // take care of the hierarchical mode
 // In hierarchical, return the Or of all lower attributes
@@ -459,22 +473,14 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
-                .iter()
-                .map(|attr| Node::Leaf(*attr))
-                .reduce(std::ops::BitOr::bitor)
-                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
+            let mut val = attribute_to_node(policy, attr)?;
             if *hierarchical {
                 for (at, elem) in list.iter().enumerate() {
                     if at >= res {
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
-                            .iter()
-                            .map(|attr| Node::Leaf(*attr))
-                            .reduce(std::ops::BitOr::bitor)
-                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
+                        | attribute_to_node(policy, &(attr.axis.clone(), elem.clone()).into())?;
                 }
             }
 
-- 
2.43.0


From 2a6e9b113c3cadcd4330c3d83e3f2906f35c664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 09/19] fix: the C interface refuses null length pointers,
 negative lengths and short sizes

---
 src/interfaces/ffi/generate_gpsw_keys.rs | 11 ++--
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 74 ++++++++++++++++--------
 2 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..9fc4a4c 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,8 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    ffi_not_null!(master_keys_len, "Master keys length pointer should not be null");
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +112,15 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    ffi_not_null!(user_private_key_len, "User private key length pointer should not be null");
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +215,8 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    ffi_not_null!(new_policy_len, "New policy length pointer should not be null");
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..62da111 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,9 +71,10 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +143,16 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(header_bytes_len, "Header bytes length pointer should not be null");
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,14 +182,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -260,19 +263,21 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    ffi_not_null!(header_bytes_len, "Header bytes length pointer should not be null");
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,14 +312,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -398,11 +403,12 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +471,24 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
+    if !uid_ptr.is_null() {
+        ffi_not_null!(uid_len, "UID length pointer should not be null");
+    }
+    if !additional_data_ptr.is_null() {
+        ffi_not_null!(
+            additional_data_len,
+            "Additional data length pointer should not be null"
+        );
+    }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -559,7 +575,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
@@ -598,21 +614,31 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    ffi_not_null!(symmetric_key_len, "Symmetric key length pointer should not be null");
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
+    if !uid_ptr.is_null() {
+        ffi_not_null!(uid_len, "UID length pointer should not be null");
+    }
+    if !additional_data_ptr.is_null() {
+        ffi_not_null!(
+            additional_data_len,
+            "Additional data length pointer should not be null"
+        );
+    }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -714,7 +740,8 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    ffi_not_null!(encrypted_len, "Encrypted bytes length pointer should not be null");
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +750,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +766,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +813,8 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    ffi_not_null!(clear_text_len, "Clear text bytes length pointer should not be null");
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +823,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +839,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 2d36451341027b9115d71dde0efb142a55a4d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 10/19] fix: block encryption and decryption report the size of
 the buffer they need

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 62da111..9d74aa3 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -782,6 +782,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -790,7 +791,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -859,6 +859,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -867,7 +868,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From 5018bf1cdc1dd8a0e6311476fc14eafa3d743d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 11/19] fix: the last error is reported when its message
 contains zero bytes

---
 src/interfaces/ffi/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..365f234 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -181,7 +181,7 @@ pub unsafe extern "C" fn get_last_error(
 
     // Build a CString that will cleanup NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', ""))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 33a3e3f0bbe5363a92393af8620f39d503551f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 12/19] fix: the Python module refuses encrypted data shorter
 than its header

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..77e227b 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,6 +250,11 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
+    if encrypted_bytes.len() - 4 < header_size as usize {
+        return Err(PyTypeError::new_err(
+            "Encrypted value is shorter than its header",
+        ));
+    }
     let header = &encrypted_bytes[4..4 + header_size as usize];
     let ciphertext = &encrypted_bytes[4 + header_size as usize..];
 
-- 
2.43.0


From b89496ae2471ace70e0b24a19b063421dffb80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 13/19] fix: the Python module refuses a number of attribute
 creations that does not fit

---
 src/interfaces/pyo3/generate_gpsw_keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..c16950f 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use pyo3::{exceptions::PyTypeError, prelude::*};
 
 use crate::core::{
@@ -116,7 +118,9 @@ pub fn generate_policy(
 ) -> PyResult<Vec<u8>> {
     let policy_axis: Vec<PolicyAxis> = serde_json::from_slice(&policy_axis_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy Axis deserialization failed: {e}")))?;
-    let mut policy = Policy::new(max_attribute_creations as u32);
+    let max_attribute_creations = u32::try_from(max_attribute_creations)
+        .map_err(|e| PyTypeError::new_err(format!("Too many attribute creations: {e}")))?;
+    let mut policy = Policy::new(max_attribute_creations);
     for axis in &policy_axis {
         let attrs = axis
             .attributes
-- 
2.43.0


From 1ac547e729caeb5ede24f24d35f562d58341924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 14/19] fix: the WebAssembly module refuses unknown cache
 handles without trapping

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From a304c480ae030d872721187697cc6c8631e0f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 15/19] fix: key generation refuses a master private key with a
 zero exponent instead of panicking

---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index d061cc2..37e5c45 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -393,6 +393,11 @@ impl<G: BilinearMap> Gpsw<G> {
                 ));
             }
             let t_rho_i = &priv_key.t_i[attribute];
+            if *t_rho_i == G::ZERO {
+                return Err(FormatErr::InternalOperation(
+                    "Invalid master private key: t_i is zero".to_string(),
+                ));
+            }
             let di = self.group.g1_gen_exp(&(prod_scal / t_rho_i));
             big_d_i.push(di.0);
             big_raw_d_i.push(di.1)
-- 
2.43.0


From 048fad535ace9535e6822e23a1cfbf8b26bd9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 16/19] fix: a formula with two integers separated by spaces
 only is refused

---
 src/core/msp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index dfbb890..9771d17 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -302,6 +302,16 @@ impl Node {
                  formula: {s}"
             )));
         }
+        // Two integers separated by spaces only are not one integer
+        let words = s.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>();
+        if words.windows(2).any(|w| {
+            w[0].ends_with(|c: char| c.is_ascii_digit())
+                && w[1].starts_with(|c: char| c.is_ascii_digit())
+        }) {
+            return Err(ParsingError::UnexpectedCharacter(format!(
+                "operator expected between integers. Given formula: {s}"
+            )));
+        }
         // Remove all spaces
         let new_s = str::replace(s, " ", "");
 
-- 
2.43.0


From a7300e80451639821a747a0423a2854938f3ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 17/19] fix: rotation refuses a policy already beyond its
 maximum of attribute creations

---
 src/interfaces/ffi/generate_gpsw_keys.rs          |  7 +++++--
 src/interfaces/mod.rs                             | 13 +++++++++++++
 src/interfaces/pyo3/generate_gpsw_keys.rs         |  3 +--
 src/interfaces/wasm_bindgen/generate_gpsw_keys.rs |  3 +--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 9fc4a4c..363e42d 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -10,7 +10,10 @@ use crate::{
         Engine,
     },
     ffi_bail, ffi_not_null, ffi_unwrap,
-    interfaces::ffi::error::{set_last_error, FfiError},
+    interfaces::{
+        ffi::error::{set_last_error, FfiError},
+        rotate_attribute,
+    },
 };
 
 use abe_policy::{AccessPolicy, Attribute, Policy};
@@ -251,7 +254,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
     //
     // Rotate attributes of the current policy
     for attr in &attributes {
-        ffi_unwrap!(policy.rotate(attr));
+        ffi_unwrap!(rotate_attribute(&mut policy, attr));
     }
 
     //
diff --git a/src/interfaces/mod.rs b/src/interfaces/mod.rs
index 972f6ac..924e568 100644
--- a/src/interfaces/mod.rs
+++ b/src/interfaces/mod.rs
@@ -9,3 +9,16 @@ pub mod pyo3;
 #[cfg(feature = "wasm_bindgen")]
 pub mod wasm_bindgen;
 pub use abe_policy;
+
+/// Rotate an attribute of a policy that may come from outside: such a policy
+/// may already be beyond its maximum number of attribute creations
+#[cfg(any(feature = "ffi", feature = "python", feature = "wasm_bindgen"))]
+pub(crate) fn rotate_attribute(
+    policy: &mut abe_policy::Policy,
+    attribute: &abe_policy::Attribute,
+) -> Result<(), abe_policy::Error> {
+    if policy.last_attribute_value >= policy.max_attribute_creations {
+        return Err(abe_policy::Error::CapacityOverflow);
+    }
+    policy.rotate(attribute)
+}
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index c16950f..cd0df56 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -149,8 +149,7 @@ pub fn rotate_attributes(attributes_bytes: Vec<u8>, policy_bytes: Vec<u8>) -> Py
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing policy: {e}")))?;
 
     for attr in &attributes {
-        policy
-            .rotate(attr)
+        crate::interfaces::rotate_attribute(&mut policy, attr)
             .map_err(|e| PyTypeError::new_err(format!("Rotation failed: {e}")))?;
     }
     serde_json::to_vec(&policy)
diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 6e33b6c..902276f 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -94,8 +94,7 @@ pub fn webassembly_rotate_attributes(
     //
     // Rotate attributes of the current policy
     for attr in &attributes {
-        policy
-            .rotate(attr)
+        crate::interfaces::rotate_attribute(&mut policy, attr)
             .map_err(|e| JsValue::from_str(&format!("Error rotating attribute: {e}")))?;
     }
 
-- 
2.43.0


From 53c7554c27b12eb9d625971c5778308a90a3fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 18/19] fix: access policy texts with characters that are not
 ASCII are read as written

---
 src/interfaces/mod.rs                         | 49 +++++++++++++++++++
 src/interfaces/pyo3/generate_gpsw_keys.rs     |  7 +--
 .../wasm_bindgen/generate_gpsw_keys.rs        |  5 +-
 3 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/interfaces/mod.rs b/src/interfaces/mod.rs
index 924e568..c617ad7 100644
--- a/src/interfaces/mod.rs
+++ b/src/interfaces/mod.rs
@@ -22,3 +22,52 @@ pub(crate) fn rotate_attribute(
     }
     policy.rotate(attribute)
 }
+
+/// Read an access policy from a boolean expression.
+///
+/// The parser takes positions in characters for positions in bytes: it is
+/// shown the characters that are not ASCII under an ASCII form
+#[cfg(any(feature = "python", feature = "wasm_bindgen"))]
+pub(crate) fn parse_access_policy(
+    expression: &str,
+) -> Result<abe_policy::AccessPolicy, abe_policy::Error> {
+    use abe_policy::AccessPolicy;
+
+    if expression.is_ascii() {
+        return AccessPolicy::from_boolean_expression(expression);
+    }
+    fn unescape(escaped: &str) -> String {
+        let mut parts = escaped.split('%');
+        let mut text = parts.next().unwrap_or_default().to_owned();
+        for part in parts {
+            let (code, rest) = part.split_once(';').unwrap_or((part, ""));
+            text.extend(u32::from_str_radix(code, 16).ok().and_then(char::from_u32));
+            text.push_str(rest);
+        }
+        text
+    }
+    fn unescape_names(access_policy: AccessPolicy) -> AccessPolicy {
+        match access_policy {
+            AccessPolicy::Attr(a) => AccessPolicy::new(&unescape(&a.axis), &unescape(&a.name)),
+            AccessPolicy::And(l, r) => unescape_names(*l) & unescape_names(*r),
+            AccessPolicy::Or(l, r) => unescape_names(*l) | unescape_names(*r),
+            AccessPolicy::All => AccessPolicy::All,
+        }
+    }
+
+    // spaces of any kind around the separators are not part of the names
+    let mut text = expression.trim().to_owned();
+    for separator in ["(", ")", "||", "&&", "::"] {
+        let parts: Vec<&str> = text.split(separator).map(str::trim).collect();
+        text = parts.join(separator);
+    }
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        if c.is_ascii() && c != '%' {
+            escaped.push(c);
+        } else {
+            escaped.push_str(&format!("%{:x};", u32::from(c)));
+        }
+    }
+    AccessPolicy::from_boolean_expression(&escaped).map(unescape_names)
+}
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index cd0df56..a887d54 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -10,8 +10,9 @@ use crate::core::{
     },
     Engine,
 };
+use crate::interfaces::parse_access_policy;
 type UserDecryptionKey = <Gpsw<Bls12_381> as AbeScheme>::UserDecryptionKey;
-use abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};
+use abe_policy::{Attribute, Policy, PolicyAxis};
 
 /// Generate the master authority keys for supplied Policy
 ///
@@ -53,7 +54,7 @@ pub fn generate_user_private_key(
         GpswMasterPrivateKey::<Bls12_381>::try_from_bytes(&master_private_key_bytes)?;
     let policy = serde_json::from_slice(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy deserialization failed: {e}")))?;
-    let access_policy = AccessPolicy::from_boolean_expression(&access_policy_str)
+    let access_policy = parse_access_policy(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
 
     let user_key = Engine::<Gpsw<Bls12_381>>::new().generate_user_key(
@@ -90,7 +91,7 @@ pub fn generate_delegated_key(
     let delegation_key =
         GpswMasterPublicDelegationKey::<Bls12_381>::try_from_bytes(&delegation_key_bytes)?;
     let user_decryption_key = UserDecryptionKey::try_from_bytes(&user_decryption_key_bytes)?;
-    let access_policy = AccessPolicy::from_boolean_expression(&access_policy_str)
+    let access_policy = parse_access_policy(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
 
     let policy: Policy = serde_json::from_slice(&policy_bytes)
diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 902276f..4bf09b9 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -11,7 +11,8 @@ use crate::core::{
     gpsw::{scheme::GpswMasterPrivateKey, AsBytes, Gpsw},
     Engine,
 };
-use abe_policy::{AccessPolicy, Attribute, Policy};
+use crate::interfaces::parse_access_policy;
+use abe_policy::{Attribute, Policy};
 
 /// Generate the master authority keys for supplied Policy
 ///
@@ -60,7 +61,7 @@ pub fn webassembly_generate_user_private_key(
     .map_err(|e| JsValue::from_str(&format!("Error deserializing private key: {e}")))?;
     let policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
-    let access_policy = AccessPolicy::from_boolean_expression(access_policy_str)
+    let access_policy = parse_access_policy(access_policy_str)
         .map_err(|e| JsValue::from_str(&format!("Error deserializing access policy: {e}")))?;
 
     // Generate user decryption key
-- 
2.43.0


From 7824f697379b88ab7dc7dce631cdc32c30989373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 19/19] fix: JSON with escaped characters in attribute names is
 accepted

---
 src/interfaces/ffi/generate_gpsw_keys.rs        | 11 ++++++-----
 src/interfaces/ffi/hybrid_gpsw_aes.rs           |  9 +++++----
 src/interfaces/mod.rs                           |  8 ++++++++
 src/interfaces/pyo3/generate_gpsw_keys.rs       | 12 ++++++------
 src/interfaces/pyo3/hybrid_gpsw_aes.rs          | 17 ++++++++++-------
 .../wasm_bindgen/generate_gpsw_keys.rs          | 13 ++++++-------
 .../wasm_bindgen/hybrid_gpsw_aes_encryption.rs  |  9 ++++++---
 7 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 363e42d..ba40d4f 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -12,6 +12,7 @@ use crate::{
     ffi_bail, ffi_not_null, ffi_unwrap,
     interfaces::{
         ffi::error::{set_last_error, FfiError},
+        from_json,
         rotate_attribute,
     },
 };
@@ -54,7 +55,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
             return 1;
         }
     };
-    let policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
+    let policy: Policy = ffi_unwrap!(from_json(policy.as_bytes()));
 
     //
     // Generate master keys
@@ -153,7 +154,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
             return 1;
         }
     };
-    let access_policy: AccessPolicy = ffi_unwrap!(serde_json::from_str(&access_policy));
+    let access_policy: AccessPolicy = ffi_unwrap!(from_json(access_policy.as_bytes()));
 
     //
     // Policy
@@ -166,7 +167,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
             return 1;
         }
     };
-    let policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
+    let policy: Policy = ffi_unwrap!(from_json(policy.as_bytes()));
 
     //
     // Generate master keys
@@ -236,7 +237,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
             return 1;
         }
     };
-    let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
+    let attributes: Vec<Attribute> = ffi_unwrap!(from_json(attributes.as_bytes()));
 
     //
     // Policy
@@ -249,7 +250,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
             return 1;
         }
     };
-    let mut policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
+    let mut policy: Policy = ffi_unwrap!(from_json(policy.as_bytes()));
 
     //
     // Rotate attributes of the current policy
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 9d74aa3..7a309b9 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -25,6 +25,7 @@ use crate::{
     ffi_bail, ffi_not_null, ffi_unwrap,
     interfaces::{
         ffi::error::{set_last_error, FfiError},
+        from_json,
         hybrid_crypto::{
             self, decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block,
             encrypt_hybrid_header, ClearTextHeader,
@@ -84,7 +85,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
             ffi_bail!("Hybrid Cipher: invalid Policy".to_owned(),);
         }
     };
-    let policy: Policy = match serde_json::from_str(&policy) {
+    let policy: Policy = match from_json(policy.as_bytes()) {
         Ok(p) => p,
         Err(e) => {
             ffi_bail!(format!("Hybrid Cipher: invalid Policy: {e:?}"));
@@ -179,7 +180,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
             return 1;
         }
     };
-    let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
+    let attributes: Vec<Attribute> = ffi_unwrap!(from_json(attributes.as_bytes()));
 
     // UID
     let uid = if uid_ptr.is_null() || uid_len <= 0 {
@@ -292,7 +293,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
             return 1;
         }
     };
-    let policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
+    let policy: Policy = ffi_unwrap!(from_json(policy.as_bytes()));
 
     // Public Key
     let public_key_bytes =
@@ -309,7 +310,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
             return 1;
         }
     };
-    let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
+    let attributes: Vec<Attribute> = ffi_unwrap!(from_json(attributes.as_bytes()));
 
     // UID
     let uid = if uid_ptr.is_null() || uid_len <= 0 {
diff --git a/src/interfaces/mod.rs b/src/interfaces/mod.rs
index c617ad7..12c5bfa 100644
--- a/src/interfaces/mod.rs
+++ b/src/interfaces/mod.rs
@@ -23,6 +23,14 @@ pub(crate) fn rotate_attribute(
     policy.rotate(attribute)
 }
 
+/// Read JSON whichever way its strings are escaped: an attribute cannot be
+/// read from a string with escape sequences directly
+#[cfg(any(feature = "ffi", feature = "python", feature = "wasm_bindgen"))]
+pub(crate) fn from_json<T: serde::de::DeserializeOwned>(json: &[u8]) -> serde_json::Result<T> {
+    let value: serde_json::Value = serde_json::from_slice(json)?;
+    T::deserialize(&value)
+}
+
 /// Read an access policy from a boolean expression.
 ///
 /// The parser takes positions in characters for positions in bytes: it is
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index a887d54..c13c4fe 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -10,7 +10,7 @@ use crate::core::{
     },
     Engine,
 };
-use crate::interfaces::parse_access_policy;
+use crate::interfaces::{from_json, parse_access_policy};
 type UserDecryptionKey = <Gpsw<Bls12_381> as AbeScheme>::UserDecryptionKey;
 use abe_policy::{Attribute, Policy, PolicyAxis};
 
@@ -24,7 +24,7 @@ use abe_policy::{Attribute, Policy, PolicyAxis};
 ///  - `master_public_delegation_key`: serialized in bytes
 #[pyfunction]
 pub fn generate_master_keys(policy_bytes: Vec<u8>) -> PyResult<(Vec<u8>, Vec<u8>, Vec<u8>)> {
-    let policy: Policy = serde_json::from_slice(policy_bytes.as_slice())
+    let policy: Policy = from_json(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy deserialization failed: {e}")))?;
 
     //
@@ -52,7 +52,7 @@ pub fn generate_user_private_key(
 ) -> PyResult<Vec<u8>> {
     let master_private_key =
         GpswMasterPrivateKey::<Bls12_381>::try_from_bytes(&master_private_key_bytes)?;
-    let policy = serde_json::from_slice(&policy_bytes)
+    let policy = from_json(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy deserialization failed: {e}")))?;
     let access_policy = parse_access_policy(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
@@ -94,7 +94,7 @@ pub fn generate_delegated_key(
     let access_policy = parse_access_policy(&access_policy_str)
         .map_err(|e| PyTypeError::new_err(format!("Access policy creation failed: {e}")))?;
 
-    let policy: Policy = serde_json::from_slice(&policy_bytes)
+    let policy: Policy = from_json(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy deserialization failed: {e}")))?;
 
     let user_key = Engine::<Gpsw<Bls12_381>>::new().delegate_user_key(
@@ -144,9 +144,9 @@ pub fn generate_policy(
 /// Returns the new policy with refreshed attributes
 #[pyfunction]
 pub fn rotate_attributes(attributes_bytes: Vec<u8>, policy_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
-    let attributes: Vec<Attribute> = serde_json::from_slice(&attributes_bytes)
+    let attributes: Vec<Attribute> = from_json(&attributes_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing attributes: {e}")))?;
-    let mut policy: Policy = serde_json::from_slice(&policy_bytes)
+    let mut policy: Policy = from_json(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing policy: {e}")))?;
 
     for attr in &attributes {
diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index 77e227b..88abee7 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -17,11 +17,14 @@ use crate::{
         bilinear_map::bls12_381::Bls12_381,
         gpsw::{AbeScheme, AsBytes, Gpsw},
     },
-    interfaces::hybrid_crypto::{
-        decrypt_hybrid_block as core_decrypt_hybrid_block,
-        decrypt_hybrid_header as core_decrypt_hybrid_header,
-        encrypt_hybrid_block as core_encrypt_hybrid_block,
-        encrypt_hybrid_header as core_encrypt_hybrid_header,
+    interfaces::{
+        from_json,
+        hybrid_crypto::{
+            decrypt_hybrid_block as core_decrypt_hybrid_block,
+            decrypt_hybrid_header as core_decrypt_hybrid_header,
+            encrypt_hybrid_block as core_encrypt_hybrid_block,
+            encrypt_hybrid_header as core_encrypt_hybrid_header,
+        },
     },
 };
 
@@ -82,9 +85,9 @@ pub fn encrypt_hybrid_header(
     // Deserialize inputs
     let metadata: Metadata = serde_json::from_slice(&metadata_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing metadata: {e}")))?;
-    let policy = serde_json::from_slice(&policy_bytes)
+    let policy = from_json(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing policy: {e}")))?;
-    let attributes: Vec<Attribute> = serde_json::from_slice(&attributes_bytes)
+    let attributes: Vec<Attribute> = from_json(&attributes_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing attributes: {e}")))?;
     let public_key = PublicKey::try_from_bytes(&public_key_bytes)?;
 
diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 4bf09b9..a5d1dea 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -11,7 +11,7 @@ use crate::core::{
     gpsw::{scheme::GpswMasterPrivateKey, AsBytes, Gpsw},
     Engine,
 };
-use crate::interfaces::parse_access_policy;
+use crate::interfaces::{from_json, parse_access_policy};
 use abe_policy::{Attribute, Policy};
 
 /// Generate the master authority keys for supplied Policy
@@ -19,7 +19,7 @@ use abe_policy::{Attribute, Policy};
 ///  - `policy` : Policy to use to generate the keys (serialized from JSON)
 #[wasm_bindgen]
 pub fn webassembly_generate_master_keys(policy_bytes: Uint8Array) -> Result<Uint8Array, JsValue> {
-    let policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
+    let policy: Policy = from_json(&policy_bytes.to_vec())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy:{e}")))?;
 
     // Create ABE GPSW keys
@@ -59,7 +59,7 @@ pub fn webassembly_generate_user_private_key(
         master_private_key_bytes.to_vec().as_slice(),
     )
     .map_err(|e| JsValue::from_str(&format!("Error deserializing private key: {e}")))?;
-    let policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
+    let policy = from_json(&policy_bytes.to_vec())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
     let access_policy = parse_access_policy(access_policy_str)
         .map_err(|e| JsValue::from_str(&format!("Error deserializing access policy: {e}")))?;
@@ -86,10 +86,9 @@ pub fn webassembly_rotate_attributes(
     attributes_bytes: Uint8Array,
     policy_bytes: Uint8Array,
 ) -> Result<String, JsValue> {
-    let attributes: Vec<Attribute> =
-        serde_json::from_slice(attributes_bytes.to_vec().as_slice())
-            .map_err(|e| JsValue::from_str(&format!("Error deserializing attributes: {e}")))?;
-    let mut policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
+    let attributes: Vec<Attribute> = from_json(&attributes_bytes.to_vec())
+        .map_err(|e| JsValue::from_str(&format!("Error deserializing attributes: {e}")))?;
+    let mut policy: Policy = from_json(&policy_bytes.to_vec())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
 
     //
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index a1e902f..3cb5c4a 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -22,7 +22,10 @@ use crate::{
         bilinear_map::bls12_381::Bls12_381,
         gpsw::{AbeScheme, AsBytes, Gpsw},
     },
-    interfaces::hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header},
+    interfaces::{
+        from_json,
+        hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header},
+    },
 };
 
 use abe_policy::{Attributes, Policy};
@@ -59,7 +62,7 @@ pub fn webassembly_encrypt_hybrid_header(
     }
 
     // Convert JS type
-    let policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
+    let policy: Policy = from_json(&policy_bytes.to_vec())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing Policy: {e:?}")))?;
     let public_key = PublicKey::try_from_bytes(public_key_bytes.to_vec().as_slice())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing Public Key: {e:?}")))?;
@@ -117,7 +120,7 @@ pub fn webassembly_create_encryption_cache(
 
     //
     // Convert JS type
-    let policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
+    let policy: Policy = from_json(&policy_bytes.to_vec())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing Policy: {e:?}")))?;
 
     //
-- 
2.43.0

