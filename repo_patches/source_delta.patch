From 24ed7fc45a843b836733f5f455f3734534106103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 01/17] verif: add cfg(zok_verif) hooks (re-exports and
 dishonest-prover interception)

---
 src/lib.rs                    |   2 +
 src/lookup/permute.rs         |   5 ++
 src/lookup/subset_equality.rs |  12 +++
 src/permutation/mod.rs        |  11 +++
 src/verif.rs                  | 149 ++++++++++++++++++++++++++++++++++
 5 files changed, 179 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index af37987..dc40b87 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,6 +32,8 @@ mod mock_prover;
 pub mod multiproof;
 pub mod permutation;
 mod turbo_plonk;
+#[cfg(zok_verif)]
+pub mod verif;
 
 mod tests;
 
diff --git a/src/lookup/permute.rs b/src/lookup/permute.rs
index f7518f7..ba06074 100644
--- a/src/lookup/permute.rs
+++ b/src/lookup/permute.rs
@@ -5,6 +5,11 @@ use ark_ff::Field;
 pub fn permute_for_lookup<F: Field>(a: &[F], s: &[F]) -> (Vec<F>, Vec<F>) {
     assert_eq!(a.len(), s.len());
 
+    #[cfg(zok_verif)]
+    if let Some(permuted) = crate::verif::intercept_permute(a, s) {
+        return permuted;
+    }
+
     let mut a_permuted = a[..].to_vec();
     a_permuted.sort();
 
diff --git a/src/lookup/subset_equality.rs b/src/lookup/subset_equality.rs
index f7eff44..5e3add4 100644
--- a/src/lookup/subset_equality.rs
+++ b/src/lookup/subset_equality.rs
@@ -37,6 +37,18 @@ impl<F: PrimeField> SubsetEqualityArgument<F> {
         extended_coset_domain: &GeneralEvaluationDomain<F>,
         zk_rng: &mut R,
     ) -> WitnessProverOracle<F> {
+        #[cfg(zok_verif)]
+        if let Some(z) = crate::verif::intercept_lookup_z(
+            lookup_polys,
+            beta,
+            gamma,
+            lookup_index,
+            domain,
+            extended_coset_domain,
+        ) {
+            return z;
+        }
+
         let (a, s, a_prime, s_prime) = lookup_polys;
         let mut z_evals = Vec::with_capacity(domain.size());
         let mut z_prev = F::one();
diff --git a/src/permutation/mod.rs b/src/permutation/mod.rs
index ea9c6d3..d2c81ae 100644
--- a/src/permutation/mod.rs
+++ b/src/permutation/mod.rs
@@ -137,6 +137,17 @@ impl<F: PrimeField> PermutationArgument<F> {
             agg_polys.push(agg_i);
         }
 
+        #[cfg(zok_verif)]
+        if crate::verif::tamper_agg_polys(
+            &mut agg_polys,
+            beta,
+            gamma,
+            domain,
+            extended_coset_domain,
+        ) {
+            return agg_polys;
+        }
+
         // sanity
         assert_eq!(agg_polys.last().unwrap().evals[self.usable_rows], F::one());
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..b31d5ea
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,149 @@
+//! Verification hooks, compiled only with `RUSTFLAGS='--cfg zok_verif'`.
+//!
+//! Re-exports of items that are private to the crate, and interception points
+//! that let an external harness play a dishonest prover: a registered callback
+//! may replace the values the honest prover would compute in a round.
+
+use std::any::Any;
+use std::cell::RefCell;
+use std::collections::BTreeSet;
+
+use ark_ff::PrimeField;
+use ark_poly::{
+    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain,
+    UVPolynomial,
+};
+
+use crate::oracles::rotation::Rotation;
+use crate::oracles::witness::WitnessProverOracle;
+use crate::piop::prover::LookupProverOracles;
+
+pub use crate::mock_prover::{MockProof, MockProver};
+pub use crate::turbo_plonk::{TPProof, TurboPlonk};
+pub use crate::util::{compute_vanishing_poly_over_coset, evaluate_query_set};
+
+/// (beta, gamma, evaluations of every aggregation polynomial) -> tampered?
+pub type PermutationHook<F> =
+    Box<dyn FnMut(F, F, &mut Vec<Vec<F>>) -> bool>;
+/// (compressed inputs, compressed table) -> permuted inputs and table
+pub type PermuteHook<F> =
+    Box<dyn FnMut(&[F], &[F]) -> Option<(Vec<F>, Vec<F>)>>;
+/// (beta, gamma, lookup index, [a, s, a', s']) -> evaluations of z
+pub type LookupZHook<F> =
+    Box<dyn FnMut(F, F, usize, [&[F]; 4]) -> Option<Vec<F>>>;
+
+thread_local! {
+    static HOOKS: RefCell<[Option<Box<dyn Any>>; 3]> =
+        RefCell::new([None, None, None]);
+}
+
+pub fn clear_hooks() {
+    HOOKS.with(|h| *h.borrow_mut() = [None, None, None]);
+}
+
+pub fn set_permutation_hook<F: PrimeField>(hook: PermutationHook<F>) {
+    HOOKS.with(|h| h.borrow_mut()[0] = Some(Box::new(hook)));
+}
+
+pub fn set_permute_hook<F: PrimeField>(hook: PermuteHook<F>) {
+    HOOKS.with(|h| h.borrow_mut()[1] = Some(Box::new(hook)));
+}
+
+pub fn set_lookup_z_hook<F: PrimeField>(hook: LookupZHook<F>) {
+    HOOKS.with(|h| h.borrow_mut()[2] = Some(Box::new(hook)));
+}
+
+fn with_hook<H: 'static, T>(
+    index: usize,
+    f: impl FnOnce(&mut H) -> T,
+) -> Option<T> {
+    HOOKS.with(|h| {
+        h.borrow_mut()[index]
+            .as_mut()
+            .and_then(|hook| hook.downcast_mut::<H>())
+            .map(f)
+    })
+}
+
+fn oracle_from_evals<F: PrimeField>(
+    label: String,
+    evals: Vec<F>,
+    queried_rotations: BTreeSet<Rotation>,
+    domain: &GeneralEvaluationDomain<F>,
+    extended_coset_domain: &GeneralEvaluationDomain<F>,
+) -> WitnessProverOracle<F> {
+    let poly = DensePolynomial::from_coefficients_slice(&domain.ifft(&evals));
+    WitnessProverOracle {
+        label,
+        evals_at_coset_of_extended_domain: Some(
+            extended_coset_domain.coset_fft(&poly),
+        ),
+        poly,
+        evals,
+        queried_rotations,
+        should_permute: false,
+    }
+}
+
+pub(crate) fn tamper_agg_polys<F: PrimeField>(
+    agg_polys: &mut [WitnessProverOracle<F>],
+    beta: F,
+    gamma: F,
+    domain: &GeneralEvaluationDomain<F>,
+    extended_coset_domain: &GeneralEvaluationDomain<F>,
+) -> bool {
+    let mut evals: Vec<Vec<F>> =
+        agg_polys.iter().map(|z| z.evals.clone()).collect();
+    let tampered = with_hook::<PermutationHook<F>, _>(0, |hook| {
+        hook(beta, gamma, &mut evals)
+    })
+    .unwrap_or(false);
+    if tampered {
+        for (z, evals) in agg_polys.iter_mut().zip(evals) {
+            *z = oracle_from_evals(
+                z.label.clone(),
+                evals,
+                z.queried_rotations.clone(),
+                domain,
+                extended_coset_domain,
+            );
+        }
+    }
+    tampered
+}
+
+pub(crate) fn intercept_permute<F: 'static + Copy>(
+    a: &[F],
+    s: &[F],
+) -> Option<(Vec<F>, Vec<F>)> {
+    with_hook::<PermuteHook<F>, _>(1, |hook| hook(a, s)).flatten()
+}
+
+pub(crate) fn intercept_lookup_z<F: PrimeField>(
+    lookup_polys: &LookupProverOracles<F>,
+    beta: F,
+    gamma: F,
+    lookup_index: usize,
+    domain: &GeneralEvaluationDomain<F>,
+    extended_coset_domain: &GeneralEvaluationDomain<F>,
+) -> Option<WitnessProverOracle<F>> {
+    let (a, s, a_prime, s_prime) = lookup_polys;
+    with_hook::<LookupZHook<F>, _>(2, |hook| {
+        hook(
+            beta,
+            gamma,
+            lookup_index,
+            [&a.evals, &s.evals, &a_prime.evals, &s_prime.evals],
+        )
+    })
+    .flatten()
+    .map(|evals| {
+        oracle_from_evals(
+            format!("lookup_{}_agg_poly", lookup_index),
+            evals,
+            BTreeSet::from([Rotation::curr(), Rotation::next()]),
+            domain,
+            extended_coset_domain,
+        )
+    })
+}
-- 
2.43.0


From 03334b343a4d6dcfcf8094caaeda635d15cd680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 02/17] fix: reject batched openings with missing or extra q
 evaluations

---
 src/multiproof/error.rs    | 3 +++
 src/multiproof/piop/mod.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..db7ca30 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -7,6 +7,9 @@ pub enum Error<E> {
     /// There was an error in PIOP.
     PIOPError(PiopError),
 
+    /// Proof doesn't contain exactly one evaluation per opening set.
+    WrongNumberOfEvaluations,
+
     /// Pairing check does not hold.
     OpeningCheckFailed,
 }
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..012c780 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -165,6 +165,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // Every opening set must come with exactly one q evaluation
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfEvaluations);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From cc55922a079740162f1157002c0a4720caa38040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 03/17] fix: bind the public inputs to the transcript

---
 src/turbo_plonk.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..31aa7d4 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,11 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -688,7 +692,7 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
@@ -733,6 +737,10 @@ where
         // --------------------------------------------------------------------
         // First round
 
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
+
         fs_rng.absorb(&to_bytes![&proof.witness_commitments].unwrap());
 
         let (verifier_lookup_aggregation_msg, verifier_state) =
-- 
2.43.0


From 5545d44bc8e94f867a82b3352845cbaf4be5732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 04/17] fix: absorb the claimed evaluations before the batched
 opening

---
 src/turbo_plonk.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 31aa7d4..92865df 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -415,8 +415,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -428,9 +426,7 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
-
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             &preprocessed.fixed_oracles,
             verifier_second_msg.label,
@@ -509,6 +505,21 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                permutation_oracle_evals,
+                q_blind_eval,
+                lookup_evals,
+                lookup_z_evals,
+                z_evals,
+                quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1275,6 +1286,21 @@ where
 
         oracles.extend_from_slice(preprocessed_oracles.as_slice());
 
+        fs_rng.absorb(
+            &to_bytes![
+                proof.witness_evals,
+                proof.fixed_oracle_evals,
+                proof.table_oracle_evals,
+                proof.permutation_oracle_evals,
+                proof.q_blind_eval,
+                proof.lookup_evals,
+                proof.lookup_z_evals,
+                proof.z_evals,
+                proof.quotient_chunks_evals
+            ]
+            .unwrap(),
+        );
+
         Multiopen::<F, PC, FS>::verify(
             &vk.verifier_key,
             proof.multiopen_proof,
-- 
2.43.0


From 8bc191eb4a0e447aed73d10f6c16f6517804bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 05/17] fix: reject malformed proofs instead of panicking or
 ignoring elements

---
 src/error.rs               |  2 ++
 src/multiproof/piop/mod.rs | 20 +++++++----
 src/turbo_plonk.rs         | 70 ++++++++++++++++++--------------------
 3 files changed, 50 insertions(+), 42 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..e2d2bef 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Prover sent more or less commitments or evaluations than needed
+    WrongNumberOfProofElements,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 012c780..a3ad348 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -204,12 +205,14 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                                 * oracle.query(&evaluation_point)?;
                         }
 
-                        let prev =
-                            q_i_evals_set.insert(evaluation_point, evaluation);
-                        if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
+                        if q_i_evals_set
+                            .insert(evaluation_point, evaluation)
+                            .is_some()
+                        {
+                            return Err(PiopError::RepeatedRotation(
+                                *rotation,
                             )
+                            .into());
                         }
                     }
 
@@ -236,8 +239,13 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                     r_poly += &(l_i * r_i)
                 }
 
+                let z_h_inverse = z_h
+                    .evaluate(&verifier_second_msg.x3)
+                    .inverse()
+                    .ok_or(Error::OpeningCheckFailed)?;
+
                 Ok((q_eval - r_poly.evaluate(&verifier_second_msg.x3))
-                    * z_h.evaluate(&verifier_second_msg.x3).inverse().unwrap())
+                    * z_h_inverse)
             })
             .collect::<Result<Vec<F>, Error<PC::Error>>>()?;
 
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 92865df..49f10b1 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -729,21 +729,26 @@ where
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        // The quotient is split in chunks over the whole extended domain
+        let num_of_quotient_chunks =
+            vk.index_info.extended_coset_domain.size() / domain_size;
+        if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        let num_of_lookups = vk.index_info.lookups.len();
+        if witness_oracles.len() != proof.witness_commitments.len()
+            || preprocessed.permutation_oracles.len()
+                != proof.permutation_oracle_evals.len()
+            || 2 * num_of_lookups != proof.lookup_commitments.len()
+            || 3 * num_of_lookups != proof.lookup_evals.len()
+            || num_of_lookups != proof.lookup_z_commitments.len()
+            || 2 * num_of_lookups != proof.lookup_z_evals.len()
+        {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -819,7 +824,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -845,7 +852,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -870,7 +879,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -889,10 +900,6 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -921,16 +928,8 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -1001,11 +1000,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1035,7 +1029,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1071,7 +1067,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::WrongNumberOfProofElements);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From be57ce2ce4519d5de0f359f99a061af6e2a6c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 06/17] fix: respect rotations of instance and fixed queries in
 lookups on the verifier side

---
 src/lookup/mod.rs | 60 ++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..246f35a 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -434,37 +434,39 @@ impl<F: PrimeField> LookupArgument<F> {
         let expression_evals = lookup_expressions.iter().map(|lookup_expr| {
             lookup_expr.evaluate(
                 &Self::ident,
-                &|query| match query.oracle_type {
-                    OracleType::Witness => {
-                        let evaluation_challenge =
-                            query.rotation.compute_evaluation_point(
-                                evaluation_challenge,
-                                omegas,
-                            );
-                        match witness_oracles_mapping.get(&query.label) {
-                            Some(index) => witness_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingWitnessOracle(
-                                query.label.clone(),
-                            )),
+                &|query| {
+                    let evaluation_challenge =
+                        query.rotation.compute_evaluation_point(
+                            evaluation_challenge,
+                            omegas,
+                        );
+                    match query.oracle_type {
+                        OracleType::Witness => {
+                            match witness_oracles_mapping.get(&query.label) {
+                                Some(index) => witness_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingWitnessOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Instance => {
-                        match instance_oracles_mapping.get(&query.label) {
-                            Some(index) => instance_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingInstanceOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Instance => {
+                            match instance_oracles_mapping.get(&query.label) {
+                                Some(index) => instance_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingInstanceOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Fixed => {
-                        match fixed_oracles_mapping.get(&query.label) {
-                            Some(index) => fixed_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingFixedOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Fixed => {
+                            match fixed_oracles_mapping.get(&query.label) {
+                                Some(index) => fixed_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingFixedOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
                     }
                 },
-- 
2.43.0


From 9a2e766540301d5818c8b0569d457d1d2f498894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 07/17] fix: respect rotations of lookup table queries

---
 src/lookup/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 246f35a..d328076 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -273,9 +273,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
-                                }
+                                Some(index) => Ok(table_oracles[*index]
+                                    .query_at_omega_in_original_domain(
+                                        i,
+                                        table_query.rotation,
+                                    )),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -313,7 +315,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -506,6 +508,12 @@ impl<F: PrimeField> LookupArgument<F> {
                             ))
                         }
                         OracleType::Fixed => {
+                            let evaluation_challenge = table_query
+                                .rotation
+                                .compute_evaluation_point(
+                                    evaluation_challenge,
+                                    omegas,
+                                );
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-- 
2.43.0


From 33dccf76dbd73c09c6cb7a67beca747ef46a5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:14 +0000
Subject: [PATCH 08/17] fix: support lookup expressions that are not linear

---
 src/indexer.rs    | 80 ++++++++++++++++++++++++++++-------------------
 src/lookup/mod.rs |  7 +----
 2 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..193c8d1 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -12,7 +12,7 @@ use crate::{
     error::Error,
     lookup::LookupArgument,
     oracles::{
-        query::OracleType,
+        query::{OracleQuery, OracleType},
         traits::{FixedOracle, InstanceOracle, WitnessOracle},
     },
     permutation::PermutationArgument,
@@ -52,44 +52,59 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         instance_oracles_mapping: &BTreeMap<String, usize>,
         fixed_oracles_mapping: &BTreeMap<String, usize>,
         vos: &[&dyn VirtualOracle<F>],
+        lookups: &[&dyn LookupVirtualOracle<F>],
         domain_size: usize,
         z_h_degree: usize,
     ) -> Result<usize, Error<PC::Error>> {
-        let mut max_degree = 0;
-        for &vo in vos {
-            let vo_degree =
-                vo.get_expression()?.degree(&|query| -> Result<_, _> {
-                    match query.oracle_type {
-                        OracleType::Witness => {
-                            match witness_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(witness_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingWitnessOracle(
-                                    query.label.clone(),
-                                )),
-                            }
+        let oracle_degree = |query: &OracleQuery| -> Result<usize, PiopError> {
+            match query.oracle_type {
+                OracleType::Witness => {
+                    match witness_oracles_mapping.get(&query.label) {
+                        Some(index) => {
+                            Ok(witness_oracles[*index].get_degree(domain_size))
                         }
-                        OracleType::Instance => {
-                            match instance_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(instance_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingInstanceOracle(
-                                    query.label.clone(),
-                                )),
-                            }
+                        None => Err(PiopError::MissingWitnessOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Instance => {
+                    match instance_oracles_mapping.get(&query.label) {
+                        Some(index) => {
+                            Ok(instance_oracles[*index].get_degree(domain_size))
                         }
-                        OracleType::Fixed => {
-                            match fixed_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(fixed_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingFixedOracle(
-                                    query.label.clone(),
-                                )),
-                            }
+                        None => Err(PiopError::MissingInstanceOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Fixed => {
+                    match fixed_oracles_mapping.get(&query.label) {
+                        Some(index) => {
+                            Ok(fixed_oracles[*index].get_degree(domain_size))
                         }
+                        None => Err(PiopError::MissingFixedOracle(
+                            query.label.clone(),
+                        )),
                     }
-                });
-            max_degree = max(max_degree, vo_degree?);
+                }
+            }
+        };
+
+        let mut max_degree = 0;
+        for &vo in vos {
+            max_degree =
+                max(max_degree, vo.get_expression()?.degree(&oracle_degree)?);
+        }
+
+        // z(X), S(X) and the blinding selector multiply every lookup expression
+        for &lookup in lookups {
+            for expression in lookup.get_expressions()? {
+                max_degree = max(
+                    max_degree,
+                    3 * (domain_size - 1) + expression.degree(&oracle_degree)?,
+                );
+            }
         }
 
         Ok(max_degree - z_h_degree)
@@ -170,6 +185,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             &instance_oracles_mapping,
             &fixed_oracles_mapping,
             vos,
+            &lookups,
             domain.size(),
             z_h.degree(),
         )?;
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index d328076..a0a3cf3 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -64,6 +64,7 @@ impl<F: PrimeField> LookupArgument<F> {
     /*
        In subset equality argument we have q_blind * z(wX) * A'(X) * S'(X) = 4n - 4
        Then - n for vanishing gives 3n - 4, but still we have to work in 4n
+       When lookup expressions are not linear degree of q_blind * z(X) * A(X) * S(X) is taken into account in Indexer
     */
     pub const MINIMAL_SCALING_FACTOR: usize = 4;
 
@@ -243,12 +244,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From 5644c6b2a3e4d0e69d3006d2c12ef3f73c754371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 09/17] fix: make the extended domain large enough for the
 quotient

---
 src/indexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 193c8d1..0b26750 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -191,8 +191,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         )?;
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
+        // polynomial of degree d is determined by d + 1 evaluations
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From cfd868e2e55cd3a30f7062795e0cb6fe68bb401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 10/17] fix: report unsupported quotient degrees as errors

---
 src/indexer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 0b26750..262e7a7 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -107,7 +107,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             }
         }
 
-        Ok(max_degree - z_h_degree)
+        Ok(max_degree.saturating_sub(z_h_degree))
     }
 
     fn compute_zh_evals(
@@ -193,7 +193,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         // polynomial of degree d is determined by d + 1 evaluations
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
+                .ok_or(Error::IndexTooLarge)?;
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
@@ -231,7 +232,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let extended_coset_domain =
             GeneralEvaluationDomain::<F>::new(scaling_factor * domain.size())
-                .unwrap();
+                .ok_or(Error::IndexTooLarge)?;
 
         let zh_inverses_over_coset = Self::compute_zh_evals(
             &domain,
-- 
2.43.0


From cc6448b66d8bfcdf8031bf52bb68f36ec0b6251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 11/17] fix: account for copy constraints when choosing the
 extended domain

---
 src/indexer.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 262e7a7..980fc84 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -196,10 +196,6 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
                 .ok_or(Error::IndexTooLarge)?;
 
-        if extended_coset_domain.size() < domain.size() {
-            return Err(Error::QuotientTooSmall);
-        }
-
         // it is possible that there are no oracles to permute
         let num_of_oracles_to_permute =
             witness_oracles.iter().fold(0usize, |sum, oracle| {
@@ -210,12 +206,27 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
                 }
             });
 
+        // copy constraints are never too small
+        if extended_coset_domain.size() < domain.size()
+            && num_of_oracles_to_permute == 0
+        {
+            return Err(Error::QuotientTooSmall);
+        }
+
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
-            max(
+            let mut scaling_factor = max(
                 scaling_factor,
                 PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
-            )
+            );
+            // scaling_factor - 1 columns, z(X) and the blinding selector are multiplied,
+            // which is too much when z_h leaves many rows unconstrained
+            while (scaling_factor + 1) * (domain.size() - 1)
+                >= scaling_factor * domain.size() + z_h.degree()
+            {
+                scaling_factor *= 2;
+            }
+            scaling_factor
         } else {
             scaling_factor
         };
-- 
2.43.0


From 81b3872371469f2e6c74a04d66e319017952206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 12/17] fix: allow circuits without virtual oracles

---
 src/piop/prover.rs | 4 ++--
 src/turbo_plonk.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..856dd9d 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -273,7 +273,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
 
         // start from next of last power of alpha
         let permutation_begin_with =
-            *powers_of_alpha.last().unwrap() * verifier_msg.alpha;
+            verifier_msg.alpha.pow([state.vos.len() as u64]);
         let permutation_alphas: Vec<F> =
             successors(Some(permutation_begin_with), |alpha_i| {
                 Some(*alpha_i * verifier_msg.alpha)
@@ -287,7 +287,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
         {
             *alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            permutation_begin_with
         };
 
         let lookup_alphas: Vec<F> =
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 49f10b1..4e675eb 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -1112,7 +1112,7 @@ where
 
         // start from next of last power of alpha
         let permutation_begin_with =
-            *powers_of_alpha.last().unwrap() * verifier_first_msg.alpha;
+            verifier_first_msg.alpha.pow([vos.len() as u64]);
         let permutation_alphas: Vec<F> =
             successors(Some(permutation_begin_with), |alpha_i| {
                 Some(*alpha_i * verifier_first_msg.alpha)
@@ -1126,7 +1126,7 @@ where
         {
             *alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            permutation_begin_with
         };
 
         let lookup_alphas: Vec<F> =
-- 
2.43.0


From a9fd55c71ad6f831bc3ba87b7f6e6c64e8396ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:17 +0000
Subject: [PATCH 13/17] fix: open permuted columns that no gate queries

---
 src/turbo_plonk.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 4e675eb..636de22 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -216,6 +216,13 @@ where
             fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
         }
 
+        // permuted oracles are always queried at the evaluation challenge
+        for oracle in witness_oracles.iter_mut() {
+            if oracle.should_permute {
+                oracle.register_rotation(Rotation::curr());
+            }
+        }
+
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
             oracle.compute_extended_evals(
@@ -791,6 +798,13 @@ where
                 &mut fs_rng,
             );
 
+        // Permuted oracles are always queried at the evaluation challenge
+        for witness_oracle in witness_oracles.iter_mut() {
+            if witness_oracle.should_permute {
+                witness_oracle.register_rotation(Rotation::curr());
+            }
+        }
+
         // Map evals to each oracle
         for (witness_oracle, commitment) in witness_oracles
             .iter_mut()
-- 
2.43.0


From 04b5578cde49d5e8f08e61bd653b8b6e9c02bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 14/17] fix: always authenticate the evaluations of permutation
 oracles and q_blind

---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..b3c9e32 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -80,7 +81,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
+        // permutation oracles and q_blind are always queried at the evaluation challenge
         for oracle in permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 636de22..5e0f235 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -805,6 +805,15 @@ where
             }
         }
 
+        // So are permutation oracles and q_blind
+        for oracle in preprocessed
+            .permutation_oracles
+            .iter_mut()
+            .chain(iter::once(&mut preprocessed.q_blind))
+        {
+            oracle.register_rotation(Rotation::curr());
+        }
+
         // Map evals to each oracle
         for (witness_oracle, commitment) in witness_oracles
             .iter_mut()
-- 
2.43.0


From 17d28e7731e7f104e9b1d484fb3f8010b1b40d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 15/17] fix: use the fourth wire in the four wire arithmetic
 gate

---
 src/vo/precompiled/plonk_arith.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..c4991b1 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,10 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (
+            plonk_expression,
+            vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d],
+        )
     }
 }
 
-- 
2.43.0


From 65d4b2642ab1751741e73e3c3172e6193aa6aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 16/17] fix: do not crash on opened values whose interpolation
 cancels

---
 src/multiproof/piop/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index a3ad348..0647f1d 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -236,7 +236,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
 
                 let mut r_poly = DensePolynomial::zero();
                 for (l_i, &r_i) in lagrange_bases.iter().zip(r_evals.iter()) {
-                    r_poly += &(l_i * r_i)
+                    // unlike +=, + removes leading coefficients that cancel
+                    r_poly = &r_poly + &(l_i * r_i)
                 }
 
                 let z_h_inverse = z_h
-- 
2.43.0


From 0df6b79b38408851ae25973e472aa7925e62a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:04 +0000
Subject: [PATCH 17/17] fix: combined blinding randomness keeps cancelled
 leading coefficients

Adding blinding polynomials in place leaves zero leading coefficients when
they cancel, and opening with such randomness panics.
---
 src/commitment.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commitment.rs b/src/commitment.rs
index 44ec0ad..8c2b41f 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -108,10 +108,14 @@ where
         a: &Self::Randomness,
         b: &Self::Randomness,
     ) -> Self::Randomness {
-        a.clone() + b
+        // unlike +=, + removes leading coefficients that cancel
+        let mut rand = Self::Randomness::empty();
+        rand.blinding_polynomial =
+            &a.blinding_polynomial + &b.blinding_polynomial;
+        rand
     }
 
     fn add_assign_rand(a: &mut Self::Randomness, b: &Self::Randomness) {
-        a.blinding_polynomial += &b.blinding_polynomial
+        a.blinding_polynomial = &a.blinding_polynomial + &b.blinding_polynomial
     }
 }
-- 
2.43.0

