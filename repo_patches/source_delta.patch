From 4225c17a51f2a4cfd059ce705dc9e96016c336d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 01/11] fix: Barrett dot_product_reduce dropped the entries
 after the last full chunk of 16

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From e6b90076a5c5d3f6f9a801198ca40c1bf7c6a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 02/11] fix: Goldilocks reduction left the prime itself
 unreduced

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..90aec63 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
-- 
2.43.0


From adc5736b37acc98ed858174ded03f66347db7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 03/11] fix: Goldilocks negation of a non-canonical
 representative underflowed

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 90aec63..f45e4c2 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -6,7 +6,7 @@ use num_traits::PrimInt;
 
 use crate::{reduce::*, Bits};
 
-use super::{reduce128, try_inverse, GoldilocksModulus, EPSILON, P};
+use super::{reduce128, to_canonical_u64, try_inverse, GoldilocksModulus, EPSILON, P};
 
 impl Reduce<GoldilocksModulus> for u64 {
     type Output = Self;
@@ -80,7 +80,7 @@ impl NegReduce<GoldilocksModulus> for u64 {
         if self == 0 {
             0
         } else {
-            P - self
+            P - to_canonical_u64(self)
         }
     }
 }
-- 
2.43.0


From 54ee5a3ddd1a356d994046a1be5a28da75c28382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 04/11] fix: Goldilocks inverted the non-canonical
 representative of zero

---
 algebra/src/modulus/goldilocks/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
-- 
2.43.0


From 0cdc5c31d2a52dddca7408dd4d4831f0052477d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 05/11] fix: Goldilocks exponentiation refused non-canonical
 representatives in debug builds

---
 algebra/src/modulus/goldilocks/ops.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index f45e4c2..c4d95b1 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -117,8 +117,6 @@ where
             return 1;
         }
 
-        debug_assert!(self < P);
-
         let mut power: Self = self;
 
         let exp_trailing_zeros = exp.trailing_zeros();
-- 
2.43.0


From 61c764466574e141249c0f88797f92071f8b016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 06/11] fix: decompose_at writes every digit of the destination

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 61f0325c6c7278ec48e784f0f3f296d5602fe5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 07/11] fix: do not compute a basis power past the last gadget
 row

GadgetRLWE::generate_random_one_sample and
generate_random_neg_secret_sample multiplied the basis power once more
after the last row. The unused product overflows the word (a panic in
debug builds) when bits * decompose_len reaches the word size, e.g. a
30-bit modulus in u32 with an 8-bit basis. Stop one step earlier, as the
NTT versions already do.
---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From aaffa3c9fe0c2604077549c9fae5008f7ebec5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 08/11] fix: Miller-Rabin went on to no further round once a
 witness reached -1

'break 'next_round' ended the whole loop, so a composite that is a strong
pseudoprime to base 2 (2181961, for one) was always reported prime; the
remaining rounds must still run.
---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 0567b18a3bf30b323278555cba598940511f99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:48 +0000
Subject: [PATCH 09/11] fix: Parameters::new accepted a ring modulus other than
 the ring field's

---
 fhe_core/src/parameter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fhe_core/src/parameter.rs b/fhe_core/src/parameter.rs
index 33e6dc7..dcafecf 100644
--- a/fhe_core/src/parameter.rs
+++ b/fhe_core/src/parameter.rs
@@ -137,6 +137,12 @@ impl<C: LWEModulusType, Q: NTTField> Parameters<C, Q> {
 
         // 2N|(Q-1)
         let coeff_modulus = ring_modulus.into().try_into().unwrap();
+        if ring_modulus != Q::MODULUS_VALUE {
+            return Err(FHECoreError::RingModulusAndDimensionNotCompatible {
+                coeff_modulus,
+                ring_dimension,
+            });
+        }
         let factor = (coeff_modulus - 1) / (twice_ring_dimension);
         if factor * (twice_ring_dimension) != (coeff_modulus - 1) {
             return Err(FHECoreError::RingModulusAndDimensionNotCompatible {
-- 
2.43.0


From f915b46061f054ddbb7bf46fb46ec20275ce61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:15 +0000
Subject: [PATCH 10/11] fix: inverse NTT of length one underflowed log_n - 1

---
 algebra/src/transformation/ntt_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..134a2af 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -339,6 +339,12 @@ where
             }
         }
 
+        // a single coefficient needs no butterfly, and `inv_degree` is one
+        if log_n == 0 {
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0


From d0467aedb36c83a881d07da80fac0a13db13f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:10 +0000
Subject: [PATCH 11/11] fix: a lookup of a transform table no longer races with
 the insertion of another one

---
 algebra_derive/src/ntt.rs | 54 ++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..e0c36b8 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -48,7 +48,7 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
+        static #ntt_table: ::once_cell::sync::OnceCell<::std::sync::RwLock<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
             = ::once_cell::sync::OnceCell::new();
         static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
 
@@ -147,49 +147,33 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
-                        return Ok(::std::sync::Arc::clone(t));
-                    }
+                let tables = #ntt_table.get_or_init(::std::default::Default::default);
+                if let Some(t) = tables.read().unwrap().get(&log_n) {
+                    return Ok(::std::sync::Arc::clone(t));
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(::std::sync::Arc::clone(
+                    tables.read().unwrap().get(&log_n).unwrap(),
+                ))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
                 let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
-                    Some(tables) => {
-                        let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
-                        let difference = new_log_ns.difference(&old_log_ns);
-
-                        for &log_n in difference {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            tables.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        Ok(())
-                    }
-                    None => {
-                        let log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let mut map = ::std::collections::HashMap::with_capacity(log_ns.len());
-
-                        for log_n in log_ns {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            map.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        if unsafe { #ntt_table.set(map).is_err() } {
-                            Err(::algebra::AlgebraError::NTTTableError)
-                        } else {
-                            Ok(())
-                        }
+                let tables = #ntt_table.get_or_init(::std::default::Default::default);
+
+                for &log_n in log_ns {
+                    let initialized = tables.read().unwrap().contains_key(&log_n);
+                    if !initialized {
+                        let temp_table = Self::generate_ntt_table(log_n)?;
+                        tables
+                            .write()
+                            .unwrap()
+                            .insert(log_n, ::std::sync::Arc::new(temp_table));
                     }
                 }
+
+                Ok(())
             }
         }
     }
-- 
2.43.0

