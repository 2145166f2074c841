From d066783ab797c755c2cd3ac31b447bab22d9fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:24 +0000
Subject: [PATCH 01/49] fix: sampling a one-byte challenge panics when the
 challenger's buffer is used up

---
 crates/core/src/fiat_shamir/hasher_challenger.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/core/src/fiat_shamir/hasher_challenger.rs b/crates/core/src/fiat_shamir/hasher_challenger.rs
index 811fc54..895ecc6 100644
--- a/crates/core/src/fiat_shamir/hasher_challenger.rs
+++ b/crates/core/src/fiat_shamir/hasher_challenger.rs
@@ -172,6 +172,14 @@ where
 			self.index += remaining;
 		}
 	}
+
+	// The default implementation reads the first byte of `chunk()`, which is empty whenever the
+	// buffered output is used up. `copy_to_slice` refills the buffer in that case.
+	fn get_u8(&mut self) -> u8 {
+		let mut byte = [0u8; 1];
+		self.copy_to_slice(&mut byte);
+		byte[0]
+	}
 }
 
 unsafe impl<H> BufMut for HasherObserver<H>
-- 
2.43.0


From e7cf7e959d62349255831c6f70d76444f18f657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:01 +0000
Subject: [PATCH 02/49] fix: zerocheck prover panics on linear constraints when
 no round is skipped

The univariate round builds an NTT of log2(max_domain_size) dimensions, which is
zero when every composition is linear and skip_rounds is 0. NTT domains have at
least one dimension, so the prover panicked although the witness is valid.
---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..093dbee 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -280,8 +280,9 @@ where
 		bail!(MathError::DomainSizeTooLarge);
 	}
 
-	// Only a domain size NTT is needed.
-	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits)
+	// Only a domain size NTT is needed. NTT domains have at least one dimension, whereas linear
+	// compositions without skipped rounds need none.
+	let fdomain_ntt = SingleThreadedNTT::<FDomain>::with_canonical_field(min_domain_bits.max(1))
 		.expect("FDomain cardinality checked before")
 		.precompute_twiddles();
 
-- 
2.43.0


From ec7fddfbaf5dbabb3a52aba43a1553118d76f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:07 +0000
Subject: [PATCH 03/49] fix: powers column repeats powers in tables of several
 chunks of packed elements

---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From 77f24fc32accde3cb392758d024dfb01dea0576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:07 +0000
Subject: [PATCH 04/49] fix: tower basis column narrower than a packed element
 has no table

---
 crates/core/src/transparent/tower_basis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..e7dc73b 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -54,11 +54,11 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
+		let n_values = (1usize << self.k).div_ceil(P::WIDTH);
 		let values = (0..n_values)
 			.map(|i| {
 				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
+				for j in 0..P::WIDTH.min(1 << self.k) {
 					let basis_idx = i * P::WIDTH + j;
 					let value = TowerField::basis(self.iota, basis_idx)?;
 					packed_value.set(j, value);
@@ -67,7 +67,7 @@ impl<F: TowerField> TowerBasis<F> {
 			})
 			.collect::<Result<Vec<_>, Error>>()?;
 
-		Ok(MultilinearExtension::from_values(values)?)
+		Ok(MultilinearExtension::new(self.k, values)?)
 	}
 }
 
-- 
2.43.0


From 35368b774cfa9b572c8aa89fc5f20ab29440ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:07 +0000
Subject: [PATCH 05/49] fix: partial evaluation of a nested linear combination
 does not scale its offset

---
 crates/core/src/protocols/evalcheck/subclaims.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/subclaims.rs b/crates/core/src/protocols/evalcheck/subclaims.rs
index 07b5818..ea97b6c 100644
--- a/crates/core/src/protocols/evalcheck/subclaims.rs
+++ b/crates/core/src/protocols/evalcheck/subclaims.rs
@@ -322,7 +322,7 @@ pub fn try_build_partial_eval<F: TowerField, P: PackedField<Scalar = F>>(
 			}
 
 			if lc.offset() != F::zero() {
-				let offset = P::broadcast(lc.offset());
+				let offset = coeff * P::broadcast(lc.offset());
 				for acc in acc.iter_mut() {
 					*acc += offset;
 				}
-- 
2.43.0


From 037fef22ce3b59d3a049ecba3c6d6be67e82b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:36 +0000
Subject: [PATCH 06/49] fix: a column projected on its last variables projects
 others

---
 crates/core/src/oracle/symbolic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..e1cb75b 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -269,7 +269,14 @@ fn instantiate_oracle_variant<F: TowerField>(
 		} => {
 			let start_index = match variant {
 				ProjectionVariant::Offset(offset) => *offset,
-				ProjectionVariant::Last => n_vars - values.len(),
+				ProjectionVariant::Last => {
+					mos.n_vars(*id)
+						.checked_sub(values.len())
+						.ok_or(Error::InvalidProjection {
+							n_vars: mos.n_vars(*id),
+							values_len: values.len(),
+						})?
+				}
 			};
 			let projected = Projected::new(mos, *id, values.clone(), start_index)?;
 			Sized::Projected(projected)
-- 
2.43.0


From d667ccc72953969d61906610083a492674d5e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:16 +0000
Subject: [PATCH 07/49] fix: zero padding a column narrower than a packed
 element loses values

---
 crates/math/src/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..6e7c098 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From bae8ceb484e1d1c1523d8f2128c233f0efff2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:16 +0000
Subject: [PATCH 08/49] fix: the witness check looks at a prefix of a zero
 padded column only

---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 595279823c2521ede8653ff0d775b60419ee1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 09/49] fix: the witness check ignores exponentiations

---
 crates/core/src/constraint_system/validate.rs | 48 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index 75fa1d7..41f9fd5 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -8,8 +8,9 @@ use binius_utils::bail;
 
 use super::{
 	ConstraintSystem,
-	channel::{self, Boundary},
+	channel::{self, Boundary, OracleOrConst},
 	error::Error,
+	exp::Exp,
 };
 use crate::{
 	oracle::{
@@ -40,7 +41,7 @@ where
 		flushes,
 		channel_count,
 		table_size_specs: _,
-		exponents: _,
+		exponents,
 	} = constraint_system;
 
 	let oracles = unsized_oracles.instantiate(table_sizes)?;
@@ -79,6 +80,13 @@ where
 	// Check that nonzero oracles are non-zero over the entire hypercube
 	nonzerocheck::validate_witness(witness, &oracles, non_zero_oracle_ids)?;
 
+	// Check that exponentiation results are the powers of their bases
+	for exp in exponents {
+		if !oracles.is_zero_sized(exp.exp_result_id) {
+			validate_exp_witness(exp, &oracles, witness)?;
+		}
+	}
+
 	// Check that the channels balance with flushes and boundaries
 	channel::validate_witness(witness, flushes, boundaries, table_sizes, *channel_count)?;
 
@@ -91,6 +99,42 @@ where
 	Ok(())
 }
 
+fn validate_exp_witness<F, P>(
+	exp: &Exp<F>,
+	oracles: &MultilinearOracleSet<F>,
+	witness: &MultilinearExtensionIndex<P>,
+) -> Result<(), Error>
+where
+	P: PackedField<Scalar = F>,
+	F: TowerField,
+{
+	let oracle = &oracles[exp.exp_result_id];
+	let result_poly = witness.get_multilin_poly(exp.exp_result_id)?;
+	let bit_polys = exp
+		.bits_ids
+		.iter()
+		.map(|id| witness.get_multilin_poly(*id))
+		.collect::<Result<Vec<_>, _>>()?;
+
+	for i in 0..1 << oracle.n_vars() {
+		let mut base = match exp.base {
+			OracleOrConst::Oracle(base_id) => {
+				witness.get_multilin_poly(base_id)?.evaluate_on_hypercube(i)?
+			}
+			OracleOrConst::Const { base, .. } => base,
+		};
+		let mut expected = F::ONE;
+		for bit_poly in &bit_polys {
+			if bit_poly.evaluate_on_hypercube(i)? != F::ZERO {
+				expected *= base;
+			}
+			base = base.square();
+		}
+		check_eval(&oracle.label(), i, expected, result_poly.evaluate_on_hypercube(i)?)?;
+	}
+	Ok(())
+}
+
 pub fn validate_virtual_oracle_witness<F, P>(
 	oracle: &MultilinearPolyOracle<F>,
 	oracles: &MultilinearOracleSet<F>,
-- 
2.43.0


From a675f03da12b0f78cc59e8d4e38d6708b6449919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:39 +0000
Subject: [PATCH 10/49] fix: boundaries on channels without flushes are not
 checked, and widths of tuples are not

---
 crates/core/src/constraint_system/verify.rs | 32 +++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..e1e54cd 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,12 +316,40 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	let channel_count = permutation_challenges.len();
+	let channel_ids = chain!(
+		flushes.iter().map(|flush| flush.channel_id),
+		boundaries.iter().map(|boundary| boundary.channel_id)
+	);
+	for channel_id in channel_ids {
+		if channel_id >= channel_count {
+			bail!(Error::ChannelIdOutOfRange {
+				max: channel_count.saturating_sub(1),
+				got: channel_id,
+			});
+		}
+	}
+
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
+	for channel_id in 0..channel_count {
+		// All tuples of a channel must have the same width, because tuples that differ by trailing
+		// zeros have the same fingerprint.
+		let widths = chain!(
+			flushes
+				.iter()
+				.filter(|flush| flush.channel_id == channel_id)
+				.map(|flush| flush.oracles.len()),
+			boundaries
+				.iter()
+				.filter(|boundary| boundary.channel_id == channel_id)
+				.map(|boundary| boundary.values.len())
+		);
+		if let Some((expected, got)) = widths.tuple_windows().find(|(a, b)| a != b) {
+			bail!(Error::ChannelFlushWidthMismatch { expected, got });
+		}
 
 		let boundary_products =
 			boundaries
-- 
2.43.0


From f976496f04eee87546541943481973f047028cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:34 +0000
Subject: [PATCH 11/49] fix: the witness check of a channel wraps large
 multiplicities

---
 crates/core/src/constraint_system/channel.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..ea418d8 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -226,7 +226,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +241,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +271,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += (multiplicity as i128)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1,
+				FlushDirection::Push => 1,
 			});
 		Ok(())
 	}
-- 
2.43.0


From 1438bf3bd697de11e555fd0c4e93c9c75cdc3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:29 +0000
Subject: [PATCH 12/49] Revert "fix: the witness check ignores exponentiations"

The prover computes the results of exponentiations; a witness need not have them.
---
 crates/core/src/constraint_system/validate.rs | 48 +------------------
 1 file changed, 2 insertions(+), 46 deletions(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index 41f9fd5..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -8,9 +8,8 @@ use binius_utils::bail;
 
 use super::{
 	ConstraintSystem,
-	channel::{self, Boundary, OracleOrConst},
+	channel::{self, Boundary},
 	error::Error,
-	exp::Exp,
 };
 use crate::{
 	oracle::{
@@ -41,7 +40,7 @@ where
 		flushes,
 		channel_count,
 		table_size_specs: _,
-		exponents,
+		exponents: _,
 	} = constraint_system;
 
 	let oracles = unsized_oracles.instantiate(table_sizes)?;
@@ -80,13 +79,6 @@ where
 	// Check that nonzero oracles are non-zero over the entire hypercube
 	nonzerocheck::validate_witness(witness, &oracles, non_zero_oracle_ids)?;
 
-	// Check that exponentiation results are the powers of their bases
-	for exp in exponents {
-		if !oracles.is_zero_sized(exp.exp_result_id) {
-			validate_exp_witness(exp, &oracles, witness)?;
-		}
-	}
-
 	// Check that the channels balance with flushes and boundaries
 	channel::validate_witness(witness, flushes, boundaries, table_sizes, *channel_count)?;
 
@@ -99,42 +91,6 @@ where
 	Ok(())
 }
 
-fn validate_exp_witness<F, P>(
-	exp: &Exp<F>,
-	oracles: &MultilinearOracleSet<F>,
-	witness: &MultilinearExtensionIndex<P>,
-) -> Result<(), Error>
-where
-	P: PackedField<Scalar = F>,
-	F: TowerField,
-{
-	let oracle = &oracles[exp.exp_result_id];
-	let result_poly = witness.get_multilin_poly(exp.exp_result_id)?;
-	let bit_polys = exp
-		.bits_ids
-		.iter()
-		.map(|id| witness.get_multilin_poly(*id))
-		.collect::<Result<Vec<_>, _>>()?;
-
-	for i in 0..1 << oracle.n_vars() {
-		let mut base = match exp.base {
-			OracleOrConst::Oracle(base_id) => {
-				witness.get_multilin_poly(base_id)?.evaluate_on_hypercube(i)?
-			}
-			OracleOrConst::Const { base, .. } => base,
-		};
-		let mut expected = F::ONE;
-		for bit_poly in &bit_polys {
-			if bit_poly.evaluate_on_hypercube(i)? != F::ZERO {
-				expected *= base;
-			}
-			base = base.square();
-		}
-		check_eval(&oracle.label(), i, expected, result_poly.evaluate_on_hypercube(i)?)?;
-	}
-	Ok(())
-}
-
 pub fn validate_virtual_oracle_witness<F, P>(
 	oracle: &MultilinearPolyOracle<F>,
 	oracles: &MultilinearOracleSet<F>,
-- 
2.43.0


From cb00d0869777f2981bebf4d38e35e6d0b207e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:50 +0000
Subject: [PATCH 13/49] fix: constrain the borrows of the WideSub gadget

The bout columns were committed but appeared in no constraint, so a prover could choose
them, and with them the difference, freely.
---
 crates/m3/src/gadgets/sub.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..01e2009 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -199,6 +199,16 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
+		// Check that the equation holds in every bit position:
+		//
+		//     (bin + (1 - xin)) * (bin + yin) + bin = bout
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let zout = if flags.commit_zout {
 			let zout = table.add_committed_multiple("zout");
 			for (bit, zout_bit) in zout.iter().enumerate() {
-- 
2.43.0


From c16b09394d981c76eddc5b1cf886490b637d7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:50 +0000
Subject: [PATCH 14/49] fix: WideAdd without a carry-in bit starts from a zero
 carry

cin[0] was a committed column no constraint mentioned but those of the first bit, so x + y + 1
was accepted as the sum as well.
---
 crates/m3/src/gadgets/add.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..cd9cdd6 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
-- 
2.43.0


From 703078e16340938ef08036ad3ad9501eacc50149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:37 +0000
Subject: [PATCH 15/49] fix: WideAdd and WideSub take the carry or borrow from
 bit 0 of each row

The carry-in column has 32 values per row. WideAdd::populate read it as one value per row, and
WideSub::populate read the private selected column, which nothing fills.
---
 crates/m3/src/gadgets/add.rs | 16 ++++++++++------
 crates/m3/src/gadgets/sub.rs | 28 +++++++++++-----------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index cd9cdd6..f808636 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -337,10 +337,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 			let initial_carry = PackedSubfield::<P, B1>::default();
 			vec![initial_carry; cin[0].len()]
 		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
+			// The carry is bit 0 of each 32-bit row of the carry-in column.
+			let carry_in_bit =
+				index.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?;
+			let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bit, i * 32));
+			}
+			carry_in
 		};
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 01e2009..aabdcd3 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -246,22 +247,15 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		type PB1<P> = <P as PackedExtension<B1>>::PackedSubfield;
 
 		let one = PB1::<P>::one();
-		let mut b_in = self
-			.flags
-			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
-			})
-			.unwrap_or_else(|| {
-				let mut b_in = index
-					.get_mut(self.bin)
-					.expect("witness index for constant not set");
-				b_in.fill(PB1::<P>::zero());
-				vec![PB1::<P>::zero(); xin[0].len()]
-			});
+		let mut b_in = vec![PB1::<P>::zero(); xin[0].len()];
+		if let Some(borrow_in_bit) = self.flags.borrow_in_bit {
+			// The borrow is bit 0 of each 32-bit row of the borrow-in column.
+			let borrow_in_bit = index.get(borrow_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut b_in, i, get_packed_slice(&borrow_in_bit, i * 32));
+			}
+		}
+		index.get_mut(self.bin)?.copy_from_slice(&b_in);
 		for (x_bit, y_bit, mut b_out_bit, mut zout_bit) in
 			izip!(xin.into_iter(), yin.into_iter(), bout.into_iter(), zout.into_iter())
 		{
-- 
2.43.0


From fb28f98713a22284b8c07f166415f789171a39a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:02 +0000
Subject: [PATCH 16/49] fix: DivSS32 accepts exact divisions of a negative
 dividend

The remainder zero has no sign bit, so requiring the dividend's made -4 / 2 unprovable.
---
 crates/m3/src/gadgets/div.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..5754228 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_col},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -193,7 +193,7 @@ impl DivUU32 {
 
 /// Gadget for signed division of two i32s.
 ///
-/// `p = q*a + r` where p and r have the same sign bit.
+/// `p = q*a + r` where r is zero or p and r have the same sign bit.
 #[derive(Debug)]
 pub struct DivSS32 {
 	mul_inner: MulSS32,
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check sign(p) == sign(r), unless r is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			(upcast_col(p_in_bits[31]) - upcast_col(out_rem_bits[31])) * out_rem,
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 923543c7455b2bdf3d3ed4a542af971ca1daa534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:02 +0000
Subject: [PATCH 17/49] fix: BitAnd::populate fills all V values of a row

---
 crates/m3/src/gadgets/indexed_lookup/and.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/indexed_lookup/and.rs b/crates/m3/src/gadgets/indexed_lookup/and.rs
index 5f41388..c9f107c 100644
--- a/crates/m3/src/gadgets/indexed_lookup/and.rs
+++ b/crates/m3/src/gadgets/indexed_lookup/and.rs
@@ -82,7 +82,7 @@ impl<const V: usize> BitAnd<V> {
 		let mut output_col: std::cell::RefMut<'_, [B8]> = witness.get_scalars_mut(self.output)?;
 		let mut merged_col: std::cell::RefMut<'_, [B32]> = witness.get_scalars_mut(self.merged)?;
 
-		for i in 0..witness.size() {
+		for i in 0..witness.size() * V {
 			let in_a = in_a_col[i].val();
 			let in_b = in_b_col[i].val();
 			let output = in_a & in_b;
-- 
2.43.0


From 8b5ede0f6da4d7a04a235e85e8afd0d3073e5f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 18/49] fix: tally counts reads with the multiplicity of the
 flush or boundary

---
 crates/m3/src/builder/indexed_lookup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m3/src/builder/indexed_lookup.rs b/crates/m3/src/builder/indexed_lookup.rs
index 33b01f0..d271736 100644
--- a/crates/m3/src/builder/indexed_lookup.rs
+++ b/crates/m3/src/builder/indexed_lookup.rs
@@ -97,7 +97,7 @@ where
 								*elem = col.get(i);
 							}
 							let index = indexed_lookup.entry_to_index(&elems);
-							counts[index] += 1;
+							counts[index] += flush.multiplicity;
 						}
 					}
 				}
@@ -109,7 +109,7 @@ where
 	for boundary in boundaries {
 		if boundary.channel_id == chan && boundary.direction == FlushDirection::Pull {
 			let index = indexed_lookup.entry_to_index(&boundary.values);
-			counts[index] += 1;
+			counts[index] += boundary.multiplicity as u32;
 		}
 	}
 
-- 
2.43.0


From 781dcbea07dd56854a35782079592875a7949782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 19/49] fix: PackedField::get_checked reads the lane only when
 the index is in range

---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From 62ce89f7c7d728c011e386fc63a226cd02e336d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 20/49] fix: copy_packed_from_scalars_slice puts the remainder
 in the packed element after the full ones

---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From 567237da25acf4bfd2f14a27d37a26621eb50c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 21/49] fix: unzip of byte-sliced packed fields with blocks
 shorter than a column

---
 .../byte_sliced/packed_byte_sliced.rs         | 72 +++++++++----------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..b3831a9 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -803,40 +803,36 @@ macro_rules! define_byte_sliced_3d_1b {
 
 			#[inline]
 			fn unzip(self, other: Self, log_block_len: usize) -> (Self, Self) {
-				if log_block_len < 3 {
-					let mut result1 = Self::default();
-					let mut result2 = Self::default();
+				type Packed8b =
+					PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
 
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
-					}
+				let self_data: &[Packed8b; Self::HEIGHT_BYTES] =
+					Packed8b::cast_ext_arr_ref(&self.data);
+				let other_data: &[Packed8b; Self::HEIGHT_BYTES] =
+					Packed8b::cast_ext_arr_ref(&other.data);
 
-					(result1, result2)
-				} else {
-					type Packed8b =
-						PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
-
-					let self_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&self.data);
-					let other_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&other.data);
+				let (result1, result2) = unzip_byte_sliced::<Packed8b, { Self::HEIGHT_BYTES }, 1>(
+					self_data,
+					other_data,
+					log_block_len.saturating_sub(3),
+				);
 
-					let (result1, result2) = unzip_byte_sliced::<Packed8b, { Self::HEIGHT_BYTES }, 1>(
-						self_data,
-						other_data,
-						log_block_len - 3,
-					);
+				let mut result1 = Self {
+					data: Packed8b::cast_base_arr(result1),
+				};
+				let mut result2 = Self {
+					data: Packed8b::cast_base_arr(result2),
+				};
 
-					(
-						Self {
-							data: Packed8b::cast_base_arr(result1),
-						},
-						Self {
-							data: Packed8b::cast_base_arr(result2),
-						},
-					)
+				// The results hold the even and the odd bytes, their blocks are separated in place.
+				for log_len in (log_block_len..3).rev() {
+					for i in 0..Self::HEIGHT_BYTES {
+						(result1.data[i], result2.data[i]) =
+							result1.data[i].interleave(result2.data[i], log_len);
+					}
 				}
+
+				(result1, result2)
 			}
 
 			impl_spread!($name, BinaryField1b, $packed_storage, $storage_tower_level);
@@ -952,20 +948,18 @@ fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
 
 	let log_height = checked_log_2(N);
 	if log_block_len < log_height {
+		// A block spans rows of a single column, so that the selected blocks of two neighboring
+		// columns share a column of the result.
 		let block_size = 1 << log_block_len;
 		let half = N / 2;
 		for block_offset in (0..half).step_by(block_size) {
-			let target_offset = block_offset * 2;
+			for i in block_offset..block_offset + block_size {
+				let even = block_offset + i;
+				let odd = even + block_size;
 
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
-
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
+				(result1[i], result1[half + i]) = lhs[even].unzip(rhs[even], 0);
+				(result2[i], result2[half + i]) = lhs[odd].unzip(rhs[odd], 0);
+			}
 		}
 	} else {
 		for i in 0..N {
-- 
2.43.0


From f827fac067948df38c67ea7413c23de9add4d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 22/49] fix: a linear transformation of byte-sliced bits is not
 always the identity

---
 .../byte_sliced/packed_byte_sliced.rs         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index b3831a9..ca4d0e1 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -22,7 +22,7 @@ use crate::{
 	as_packed_field::{PackScalar, PackedType},
 	binary_field::BinaryField,
 	linear_transformation::{
-		FieldLinearTransformation, IDTransformation, PackedTransformationFactory, Transformation,
+		FieldLinearTransformation, PackedTransformationFactory, Transformation,
 	},
 	packed_aes_field::PackedAESBinaryField32x8b,
 	tower_levels::{TowerLevel, TowerLevel1, TowerLevel2, TowerLevel4, TowerLevel8, TowerLevel16},
@@ -34,6 +34,11 @@ use crate::{
 /// `N` is the number of bytes in the scalar.
 pub struct TransformationWrapperNxN<Inner, const N: usize>([[Inner; N]; N]);
 
+/// Packed transformation for byte-sliced fields with 1b scalars.
+///
+/// A linear transformation of a single bit is the multiplication by the image of one.
+pub struct TransformationWrapper1b(BinaryField1b);
+
 /// Byte-sliced packed field with a fixed size (16x$packed_storage).
 /// For example for 32-bit scalar the data layout is the following:
 ///
@@ -875,12 +880,18 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl PackedTransformationFactory<$name> for $name {
 			type PackedTransformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync> =
-				IDTransformation;
+				TransformationWrapper1b;
 
 			fn make_packed_transformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync>(
-				_transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
+				transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
 			) -> Self::PackedTransformation<Data> {
-				IDTransformation
+				TransformationWrapper1b(transformation.bases()[0])
+			}
+		}
+
+		impl Transformation<$name, $name> for TransformationWrapper1b {
+			fn transform(&self, data: &$name) -> $name {
+				*data * self.0
 			}
 		}
 	};
-- 
2.43.0


From 9303b265276e5a9f2d3701a1bb8c56d9df41608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:47 +0000
Subject: [PATCH 23/49] fix: Reed-Solomon encoding repeats messages shorter
 than a packed element

---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From 4a053d62c24d6e0094eb843011235f0618b49d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:23 +0000
Subject: [PATCH 24/49] fix: fold_interleaved of packed codewords whose folds
 do not fill packed elements

---
 crates/ntt/src/fri.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..3389fa3 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -41,6 +41,15 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert!(challenges.len() >= log_batch_size);
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
+	// The values folded into one output, and the interleaved symbols of one codeword position, must
+	// fill whole packed elements; otherwise, fold the scalars.
+	if challenges.len() < P::LOG_WIDTH || (1..P::LOG_WIDTH).contains(&log_batch_size) {
+		let scalars = P::iter_slice(codeword)
+			.take(1 << (log_len + log_batch_size))
+			.collect::<Vec<F>>();
+		return fold_interleaved_allocated(ntt, &scalars, challenges, log_len, log_batch_size, out);
+	}
+
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
 	let tensor = MultilinearQuery::expand(interleave_challenges);
 
-- 
2.43.0


From 738d46388d1cc8e470f6b45bf3b9972ecb7711e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 25/49] fix: bounds of the 1-bit fold kernels and of zero_pad

---
 crates/math/src/fold.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 6e7c098..70ab2b6 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -43,7 +43,7 @@ where
 	}
 
 	let extra_vars = log_new_vals - log_evals_size;
-	if nonzero_index > 1 << extra_vars {
+	if nonzero_index >= 1 << extra_vars {
 		bail!(Error::IncorrectNonZeroIndex {
 			expected: 1 << extra_vars
 		});
@@ -500,6 +500,9 @@ where
 		return false;
 	}
 
+	// `evals` may be longer than `1 << log_evals_size`, only the prefix is folded.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// We pass log_query_size_ as a generic parameter because that allows a compiler producing
 	// more efficient code in the tight loops inside the functions.
 	match log_query_size {
@@ -765,6 +768,9 @@ where
 		return false;
 	}
 
+	// `evals` may be longer than `1 << log_evals_size`, only the prefix is folded.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// Safety: the cast is safe because the type is checked by the previous if statement
 	let evals_u8: &[u8] = unsafe {
 		std::slice::from_raw_parts(evals.as_ptr() as *const u8, std::mem::size_of_val(evals))
-- 
2.43.0


From ff9b43437b5cb0a845ee8566c9c48d185d691a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 26/49] fix: a piecewise multilinear without pieces evaluates
 to zero

---
 crates/math/src/piecewise_multilinear.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/piecewise_multilinear.rs b/crates/math/src/piecewise_multilinear.rs
index 3144c49..e1d9800 100644
--- a/crates/math/src/piecewise_multilinear.rs
+++ b/crates/math/src/piecewise_multilinear.rs
@@ -97,7 +97,8 @@ pub fn evaluate_piecewise_multilinear<F: Field>(
 		n_to_fold -= n_folded_out;
 	}
 
-	Ok(piece_evals[0])
+	// A concatenation of no pieces is identically zero.
+	Ok(piece_evals.first().copied().unwrap_or(F::ZERO))
 }
 
 /// Folds a sequence of pairs of field elements by linear extrapolation at a given point.
-- 
2.43.0


From 1591a92de13097f8e536168bc10bf22a512c6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 27/49] fix: BinarySubspace::get_checked for 64 and more
 dimensions

---
 crates/math/src/binary_subspace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/binary_subspace.rs b/crates/math/src/binary_subspace.rs
index ced6e4b..626f5b0 100644
--- a/crates/math/src/binary_subspace.rs
+++ b/crates/math/src/binary_subspace.rs
@@ -88,7 +88,8 @@ impl<F: BinaryField> BinarySubspace<F> {
 	}
 
 	pub fn get_checked(&self, index: usize) -> Result<F, Error> {
-		if index >= 1 << self.basis.len() {
+		// Every `usize` is a valid index if the dimension is at least `usize::BITS`.
+		if self.basis.len() < usize::BITS as usize && index >= 1 << self.basis.len() {
 			bail!(Error::ArgumentRangeError {
 				arg: "index".to_string(),
 				range: 0..1 << self.basis.len(),
-- 
2.43.0


From 7505a6f702b1625d4c1dc942b7a8c11715979219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 28/49] fix: RowsBatchRef::iter and map respect the column
 window

---
 crates/math/src/rows_batch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/rows_batch.rs b/crates/math/src/rows_batch.rs
index dbc312e..fed3f3f 100644
--- a/crates/math/src/rows_batch.rs
+++ b/crates/math/src/rows_batch.rs
@@ -112,7 +112,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	#[inline]
 	pub fn iter(&self) -> impl Iterator<Item = &'a [T]> + '_ {
-		self.rows.as_ref().iter().copied()
+		(0..self.n_rows()).map(|index| self.row(index))
 	}
 
 	#[inline(always)]
@@ -137,7 +137,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	/// Returns a new `RowsBatch` with the specified rows selected by the given indices.
 	pub fn map(&self, indices: impl AsRef<[usize]>) -> RowsBatch<'a, T> {
-		let rows = indices.as_ref().iter().map(|&i| self.rows[i]).collect();
+		let rows = indices.as_ref().iter().map(|&i| self.row(i)).collect();
 
 		RowsBatch {
 			rows,
-- 
2.43.0


From 20c64f8ed1a9cde8bb8bf1de826b5ab94128dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 29/49] fix: refuse booleans other than 0 and 1

---
 crates/utils/src/serialization.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/serialization.rs b/crates/utils/src/serialization.rs
index 5350b3d..f9c7a05 100644
--- a/crates/utils/src/serialization.rs
+++ b/crates/utils/src/serialization.rs
@@ -231,7 +231,14 @@ impl DeserializeBytes for bool {
 	where
 		Self: Sized,
 	{
-		Ok(u8::deserialize(read_buf, mode)? != 0)
+		match u8::deserialize(read_buf, mode)? {
+			0 => Ok(false),
+			1 => Ok(true),
+			index => Err(SerializationError::UnknownEnumVariant {
+				name: "bool",
+				index,
+			}),
+		}
 	}
 }
 
-- 
2.43.0


From 2068249973bc6f2e45147d99d0ccc04a9a027384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 30/49] fix: refuse to serialize oracle ids beyond 32 bits

---
 crates/core/src/oracle/oracle_id.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/core/src/oracle/oracle_id.rs b/crates/core/src/oracle/oracle_id.rs
index d2d0c7e..dcfbbbe 100644
--- a/crates/core/src/oracle/oracle_id.rs
+++ b/crates/core/src/oracle/oracle_id.rs
@@ -38,8 +38,7 @@ impl SerializeBytes for OracleId {
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let index: u32 = self.0 as u32;
-		u32::serialize(&index, write_buf, mode)
+		usize::serialize(&self.0, write_buf, mode)
 	}
 }
 impl DeserializeBytes for OracleId {
-- 
2.43.0


From 4d50cf8cbb83b1e4f4f16c6cee00f3d3ccab1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 31/49] fix: refuse malformed arithmetic circuits

---
 crates/math/src/arith_expr.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..48948a0 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -12,6 +12,7 @@ use std::{
 
 use binius_field::{Field, PackedField, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bytes::Buf};
 
 use super::error::Error;
 
@@ -220,11 +221,37 @@ impl<F: Field> Default for ArithCircuitStep<F> {
 /// We store a tree in a form of a simple circuit.
 /// This implementation isn't optimized for performance, but rather for simplicity
 /// to allow easy conversion and preservation of the common subexpressions
-#[derive(Clone, Debug, SerializeBytes, DeserializeBytes, Eq)]
+#[derive(Clone, Debug, SerializeBytes, Eq)]
 pub struct ArithCircuit<F: Field> {
 	steps: Vec<ArithCircuitStep<F>>,
 }
 
+impl<F: Field + DeserializeBytes> DeserializeBytes for ArithCircuit<F> {
+	fn deserialize(
+		read_buf: impl Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError> {
+		let steps = Vec::<ArithCircuitStep<F>>::deserialize(read_buf, mode)?;
+
+		// A circuit has a result, and every step only refers to the steps before it.
+		let is_valid = !steps.is_empty()
+			&& steps.iter().enumerate().all(|(i, step)| match *step {
+				ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+					left < i && right < i
+				}
+				ArithCircuitStep::Pow(base, _) => base < i,
+				ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => true,
+			});
+		if !is_valid {
+			return Err(SerializationError::InvalidConstruction {
+				name: "ArithCircuit",
+			});
+		}
+
+		Ok(Self { steps })
+	}
+}
+
 impl<F: Field> ArithCircuit<F> {
 	pub fn var(index: usize) -> Self {
 		Self {
-- 
2.43.0


From febd236d0a8a696daba18e96a70dcafd571bf9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:08 +0000
Subject: [PATCH 32/49] fix: arithmetic circuits as transparent polynomials can
 be read back

---
 crates/core/src/polynomial/multivariate.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/polynomial/multivariate.rs b/crates/core/src/polynomial/multivariate.rs
index 99cf19d..045a5e7 100644
--- a/crates/core/src/polynomial/multivariate.rs
+++ b/crates/core/src/polynomial/multivariate.rs
@@ -3,11 +3,12 @@
 use std::{borrow::Borrow, fmt::Debug, iter::repeat_with, marker::PhantomData, sync::Arc};
 
 use auto_impl::auto_impl;
-use binius_field::{Field, PackedField, TowerField};
+use binius_field::{BinaryField128b, Field, PackedField, TowerField};
+use binius_macros::erased_serialize_bytes;
 use binius_math::{
 	ArithCircuit, CompositionPoly, MLEDirectAdapter, MultilinearPoly, MultilinearQueryRef,
 };
-use binius_utils::{SerializationError, SerializationMode, SerializeBytes as _, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 use bytes::BufMut;
 use itertools::Itertools;
 use rand::{SeedableRng, rngs::StdRng};
@@ -77,6 +78,14 @@ impl<P: PackedField> CompositionPoly<P> for IdentityCompositionPoly {
 	}
 }
 
+inventory::submit! {
+	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
+		"ArithCircuit",
+		|buf, mode| Ok(Box::new(ArithCircuit::<BinaryField128b>::deserialize(&mut *buf, mode)?))
+	)
+}
+
+#[erased_serialize_bytes]
 impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn n_vars(&self) -> usize {
 		self.n_vars()
@@ -93,14 +102,6 @@ impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn binary_tower_level(&self) -> usize {
 		self.binary_tower_level()
 	}
-
-	fn erased_serialize(
-		&self,
-		write_buf: &mut dyn BufMut,
-		mode: SerializationMode,
-	) -> Result<(), SerializationError> {
-		self.serialize(write_buf, mode)
-	}
 }
 
 /// An adapter that constructs a [`CompositionPoly`] for a field from a [`CompositionPoly`] for a
-- 
2.43.0


From 2569eb3c331c62a463831fcd8f2a5d443e47d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:08 +0000
Subject: [PATCH 33/49] fix: multilinear extension transparents keep their
 values

---
 .../src/transparent/multilinear_extension.rs  | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..81be187 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -44,12 +44,13 @@ where
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		let elems = (0..self.data.size())
+			.map(|index| {
+				self.data
+					.evaluate_on_hypercube(index)
+					.expect("index is in range of the hypercube")
+			})
+			.collect::<Vec<_>>();
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -62,22 +63,28 @@ inventory::submit! {
 			type F = BinaryField128b;
 			type P = PackedType<U, F>;
 			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
+			if !hypercube_evals.len().is_power_of_two() {
+				return Err(SerializationError::InvalidConstruction {
+					name: "MultilinearExtensionTransparent",
+				});
+			}
+			let n_vars = hypercube_evals.len().ilog2() as usize;
 			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
+				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(pack_slice(&hypercube_evals), n_vars).unwrap())
 			};
 			Ok(result)
 		}
-- 
2.43.0


From d3cfb6432390d4f482f1c59f17c193d7f2d42dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 34/49] fix: expression optimizer: zero exponents and
 overflowing merged powers

---
 crates/math/src/arith_expr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index 48948a0..e85d116 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -351,7 +351,7 @@ impl<F: Field> ArithCircuit<F> {
 				// 1. log2(e) squarings.
 				// 1. popcount(e) - 1 multiplications.
 				ArithCircuitStep::Pow(_, exp) => {
-					let n_squares = exp.ilog2() as usize;
+					let n_squares = exp.checked_ilog2().unwrap_or(0) as usize;
 					let n_muls = exp.count_ones().saturating_sub(1) as usize;
 					acc + EvalCost::mul(n_muls) + EvalCost::square(n_squares)
 				}
@@ -608,12 +608,18 @@ impl<F: Field> ArithCircuit<F> {
 						_ => {}
 					}
 				}
+				ArithCircuitStep::Pow(_, 0) => {
+					*curr_step = ArithCircuitStep::Const(F::ONE);
+				}
 				ArithCircuitStep::Pow(base, exp) => match prev_steps[*base] {
 					ArithCircuitStep::Const(value) => {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						// The powers are only merged if the product of the exponents fits.
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0


From 48130ec5fb77c5e2e960f7e730443647d2ce7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 35/49] fix: fast_compute circuit conversion: do not overwrite
 a slot that is still read

---
 crates/fast_compute/src/arith_circuit.rs | 61 ++++++++++++++++++++----
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..58078ba 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -17,6 +17,9 @@ fn convert_circuit_steps<F: Field>(
 	struct StepsMapping {
 		original_to_converted: Vec<Option<usize>>,
 		converted_to_original: Vec<Option<usize>>,
+		/// The arguments of operations which are not emitted yet, the slots of these may not be
+		/// overwritten.
+		pending_arguments: Vec<usize>,
 	}
 
 	impl StepsMapping {
@@ -25,6 +28,7 @@ fn convert_circuit_steps<F: Field>(
 				original_to_converted: vec![None; original_size],
 				// The size of this vector isn't known at the start, but that's a reasonable guess
 				converted_to_original: vec![None; original_size],
+				pending_arguments: Vec::new(),
 			}
 		}
 
@@ -50,6 +54,29 @@ fn convert_circuit_steps<F: Field>(
 		fn get_converted_step(&self, original_step: usize) -> Option<usize> {
 			self.original_to_converted[original_step]
 		}
+
+		fn is_pending(&self, converted_step: usize) -> bool {
+			self.pending_arguments.contains(&converted_step)
+		}
+	}
+
+	/// Converts a step while keeping the already converted argument `arg` of the same operation
+	/// intact.
+	fn convert_step_keeping<F: Field>(
+		arg: CircuitStepArgument<F>,
+		original_step: usize,
+		original_steps: &[ArithCircuitStep<F>],
+		result: &mut Vec<CircuitStep<F>>,
+		node_to_step: &mut StepsMapping,
+	) -> CircuitStepArgument<F> {
+		if let CircuitStepArgument::Expr(CircuitNode::Slot(slot)) = arg {
+			node_to_step.pending_arguments.push(slot);
+			let converted = convert_step(original_step, original_steps, result, node_to_step);
+			node_to_step.pending_arguments.pop();
+			converted
+		} else {
+			convert_step(original_step, original_steps, result, node_to_step)
+		}
 	}
 
 	fn convert_step<F: Field>(
@@ -66,15 +93,26 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+				let left_arg = convert_step(*left, original_steps, result, node_to_step);
 
-				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left_arg {
+					// The value of `left` can only be overwritten if nothing is going to read it.
+					if let (ArithCircuitStep::Mul(mleft, mright), false) =
+						(&original_steps[*right], node_to_step.is_pending(left))
+					{
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
+						node_to_step.pending_arguments.push(left);
 						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						let mright = convert_step_keeping(
+							mleft,
+							*mright,
+							original_steps,
+							result,
+							node_to_step,
+						);
+						node_to_step.pending_arguments.pop();
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,15 +124,17 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right =
+					convert_step_keeping(left_arg, *right, original_steps, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
-				result.push(CircuitStep::Add(left, right));
+				result.push(CircuitStep::Add(left_arg, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
 				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right =
+					convert_step_keeping(left, *right, original_steps, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
@@ -106,9 +146,6 @@ fn convert_circuit_steps<F: Field>(
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -118,6 +155,10 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
+
 				acc
 			}
 		}
-- 
2.43.0


From 1a75f5d58bcd8ee9341a8c27ff613dc40d914f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 36/49] fix: CpuLayer: tensor_expand into a non-zero tail,
 kernel errors, kernel local buffers

---
 crates/compute/src/cpu/layer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..3286a3c 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -143,6 +143,8 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 		let total_alloc = count_total_local_buffer_sizes(&mem_maps, log_chunks);
 		let mut local_buffer = zeroed_vec(total_alloc);
 		let iter = (0..1 << log_chunks).map(move |i| {
+			// The kernel's local buffers are initialized with zeros.
+			local_buffer.fill(F::ZERO);
 			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut());
 			let kernel_data =
 				Self::map_kernel_mem(&mut mem_maps, &local_buffer_alloc, log_chunks, i);
@@ -198,8 +200,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
@@ -295,7 +296,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			for (x_i, y_i) in std::iter::zip(lhs, rhs) {
 				let prod = *x_i * r_i;
 				*x_i -= prod;
-				*y_i += prod;
+				*y_i = prod;
 			}
 		}
 		Ok(())
-- 
2.43.0


From 078f5078e70d53067480b927ad210f55789b21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 37/49] fix: FastCpuLayer: sizes below a packed element,
 unvalidated sizes, dropped remainders

---
 crates/fast_compute/src/layer.rs | 141 ++++++++++++++++++++++++++-----
 1 file changed, 121 insertions(+), 20 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..82049c6 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -28,7 +28,7 @@ use binius_field::{
 	tower_levels::TowerLevel16,
 	underlier::{NumCast, UnderlierWithBitOps, WithUnderlier},
 	unpack_if_possible, unpack_if_possible_mut,
-	util::inner_product_par,
+	util::{inner_product_par, inner_product_unchecked},
 };
 use binius_math::{ArithCircuit, CompositionPoly, RowsBatchRef, tensor_prod_eq_ind};
 use binius_maybe_rayon::{
@@ -92,7 +92,7 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 				Ok(())
 			},
 			|packed| {
-				src.par_chunks_exact(P::WIDTH)
+				src.par_chunks(P::WIDTH)
 					.zip(packed.par_iter_mut())
 					.for_each(|(input, output)| {
 						*output = PackedField::from_scalars(input.iter().copied());
@@ -157,8 +157,9 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 		&self,
 		expr: &ArithCircuit<T::B128>,
 	) -> Result<<Self::Exec<'_> as ComputeLayerExecutor<T::B128>>::ExprEval, Error> {
-		let expr = ArithCircuitPoly::new(expr.clone());
-		Ok(expr)
+		// Optimization may remove variables, but the number of inputs stays the same.
+		ArithCircuitPoly::with_n_vars(expr.n_vars(), expr.clone())
+			.map_err(|err| Error::CoreLibError(Box::new(err)))
 	}
 
 	fn execute<'a, 'b>(
@@ -270,6 +271,9 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 					buffer.resize(total_alloc, P::zero());
 				}
 
+				// The kernel's local buffers are initialized with zeros.
+				buffer[..total_alloc].fill(P::zero());
+
 				let buffer = PackedMemorySliceMut::new_slice(&mut buffer);
 				let allocator = BumpAllocator::<T::B128, PackedMemory<P>>::new(buffer);
 
@@ -310,9 +314,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		a_in: SubfieldSlice<'_, T::B128, Self::DevMem>,
 		b_in: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 	) -> Result<Self::OpValue, Error> {
-		if a_in.slice.len() << (<T::B128 as ExtensionField<T::B1>>::LOG_DEGREE - a_in.tower_level)
-			!= b_in.len()
-		{
+		check_tower_level::<T>(a_in.tower_level)?;
+		if a_in.len() != b_in.len() {
 			return Err(Error::InputValidation(
 				"precondition: a_in and b_in must have the same length".to_string(),
 			));
@@ -321,14 +324,24 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		fn inner_product_par_impl<FSub: Field, P: PackedExtension<FSub>>(
 			a_in: &[P],
 			b_in: &[P],
+			len: usize,
 		) -> P::Scalar {
-			inner_product_par(b_in, PackedExtension::cast_bases(a_in))
+			let a_in = PackedExtension::cast_bases(a_in);
+			if len < P::WIDTH {
+				// Only the first `len` scalars of the packed elements are meaningful.
+				return inner_product_unchecked(
+					PackedField::iter_slice(b_in).take(len),
+					PackedField::iter_slice(a_in),
+				);
+			}
+
+			inner_product_par(b_in, a_in)
 		}
 
 		let result = each_tower_subfield!(
 			a_in.tower_level,
 			T,
-			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice())
+			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice(), b_in.len())
 		);
 
 		Ok(result)
@@ -340,6 +353,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		coordinates: &[T::B128],
 		data: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if data.len() != 1 << (log_n + coordinates.len()) {
+			return Err(Error::InputValidation(format!("invalid data length: {}", data.len())));
+		}
+
 		tensor_prod_eq_ind(log_n, data.as_slice_mut(), coordinates)
 			.map_err(|_| Error::InputValidation("tensor dimensions are invalid".to_string()))
 	}
@@ -389,6 +406,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_fold_dimensions::<T, _>(&mat, vec.len(), out.len())?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
@@ -431,6 +449,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_fold_dimensions::<T, _>(&mat, vec.len(), out.len())?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
@@ -478,6 +497,26 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
+		if data_in.len() != 1 << (log_len + log_batch_size) {
+			return Err(Error::InputValidation(format!(
+				"invalid data_in length: {}",
+				data_in.len()
+			)));
+		}
+		if challenges.len() < log_batch_size || challenges.len() > log_batch_size + log_len {
+			return Err(Error::InputValidation(format!(
+				"invalid challenges length: {}",
+				challenges.len()
+			)));
+		}
+		let out_len = 1 << (log_len - (challenges.len() - log_batch_size));
+		if data_out.len() != out_len {
+			return Err(Error::InputValidation(format!(
+				"invalid data_out length: {}",
+				data_out.len()
+			)));
+		}
+
 		unpack_if_possible_mut(
 			data_out.as_slice_mut(),
 			|out| {
@@ -487,15 +526,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					challenges,
 					log_len,
 					log_batch_size,
-					out,
+					&mut out[..out_len],
 				);
 			},
 			|packed| {
-				let mut out_scalars =
-					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
+				let mut out_scalars = zeroed_vec(out_len);
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					data_in.as_slice(),
 					challenges,
 					log_len,
 					log_batch_size,
@@ -570,9 +608,9 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let log_chunks = get_log_max_threads() + 1;
 
-		let chunk_size = (output.len() >> log_chunks).max(1);
+		let packed_row_len = output.as_slice().len();
 
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
 
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
@@ -582,7 +620,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			.enumerate()
 			.for_each(|(chunk_idx, output_chunk)| {
 				let offset = chunk_idx * chunk_size;
-				let rows = rows_batch.columns_subrange(offset..offset + chunk_size);
+				let rows = rows_batch.columns_subrange(offset..offset + output_chunk.len());
 
 				composition
 					.batch_evaluate(&rows, output_chunk)
@@ -622,12 +660,75 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 	fn pairwise_product_reduce(
 		&mut self,
-		_input: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
-		_round_outputs: &mut [<Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>],
+		input: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
+		round_outputs: &mut [<Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>],
 	) -> Result<(), Error> {
-		// TODO(CRY-490)
-		todo!()
+		let log_num_inputs = strict_log_2(input.len())
+			.filter(|&log_num_inputs| log_num_inputs > 0)
+			.ok_or_else(|| {
+				Error::InputValidation(format!(
+					"input length must be a power of 2 greater than or equal to 2: {}",
+					input.len()
+				))
+			})?;
+		if round_outputs.len() != log_num_inputs {
+			return Err(Error::InputValidation(format!(
+				"round_outputs.len() does not match the expected length: {} != {log_num_inputs}",
+				round_outputs.len()
+			)));
+		}
+		for (round_idx, round_output) in round_outputs.iter().enumerate() {
+			let expected_len = input.len() >> (round_idx + 1);
+			if round_output.len() != expected_len {
+				return Err(Error::InputValidation(format!(
+					"round_outputs[{round_idx}].len() = {}, expected {expected_len}",
+					round_output.len()
+				)));
+			}
+		}
+
+		// TODO(CRY-490): work on the packed elements
+		let mut values = PackedField::iter_slice(input.as_slice())
+			.take(input.len())
+			.collect::<Vec<_>>();
+		for round_output in round_outputs {
+			values = values
+				.par_chunks_exact(2)
+				.map(|pair| pair[0] * pair[1])
+				.collect();
+			round_output
+				.as_slice_mut()
+				.par_iter_mut()
+				.zip(values.par_chunks(P::WIDTH))
+				.for_each(|(packed, scalars)| {
+					*packed = P::from_scalars(scalars.iter().copied());
+				});
+		}
+
+		Ok(())
+	}
+}
+
+fn check_tower_level<T: TowerFamily>(tower_level: usize) -> Result<(), Error> {
+	if tower_level > <T::B128 as ExtensionField<T::B1>>::LOG_DEGREE {
+		return Err(Error::InputValidation(format!("invalid tower_level: {tower_level}")));
+	}
+	Ok(())
+}
+
+fn check_fold_dimensions<T: TowerFamily, Mem: ComputeMemory<T::B128>>(
+	mat: &SubfieldSlice<'_, T::B128, Mem>,
+	vec_len: usize,
+	out_len: usize,
+) -> Result<(), Error> {
+	check_tower_level::<T>(mat.tower_level)?;
+	if mat.len() != vec_len * out_len {
+		return Err(Error::InputValidation(format!(
+			"mat has {} elements, expected {vec_len} * {out_len}",
+			mat.len(),
+		)));
 	}
+	Ok(())
 }
 
 /// In case when `P1` and `P2` are the same type, this function performs the extrapolation
-- 
2.43.0


From 4deae633db007cf05dc9442bc19cc4b1fb359164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 38/49] fix: packed memory: slice by scalar ranges with
 inclusive, exclusive and full bounds

---
 crates/fast_compute/src/memory.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/fast_compute/src/memory.rs b/crates/fast_compute/src/memory.rs
index 7810dae..cf38135 100644
--- a/crates/fast_compute/src/memory.rs
+++ b/crates/fast_compute/src/memory.rs
@@ -36,10 +36,9 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 	}
 
 	fn slice(data: Self::FSlice<'_>, range: impl std::ops::RangeBounds<usize>) -> Self::FSlice<'_> {
-		let (start, end) = Self::to_packed_range(data.len(), range);
-		if start == 0 && end == data.len() {
+		let Some((start, end)) = Self::to_packed_range(data.len(), range) else {
 			return data;
-		}
+		};
 
 		let PackedMemorySlice::Slice(slice) = data else {
 			panic!("splitting slices of length less than `Self::ALIGNMENT` is not supported");
@@ -51,10 +50,9 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 		data: &'a mut Self::FSliceMut<'_>,
 		range: impl std::ops::RangeBounds<usize>,
 	) -> Self::FSliceMut<'a> {
-		let (start, end) = Self::to_packed_range(data.len(), range);
-		if start == 0 && end == data.len() {
+		let Some((start, end)) = Self::to_packed_range(data.len(), range) else {
 			return Self::to_owned_mut(data);
-		}
+		};
 
 		let PackedMemorySliceMut::Slice(slice) = data else {
 			panic!("splitting slices of length less than `Self::ALIGNMENT` is not supported");
@@ -226,25 +224,27 @@ impl<P: PackedField> ComputeMemory<P::Scalar> for PackedMemory<P> {
 }
 
 impl<P: PackedField> PackedMemory<P> {
-	fn to_packed_range(len: usize, range: impl RangeBounds<usize>) -> (usize, usize) {
+	/// Converts a range of scalars to a range of packed elements, or to `None` if it is the whole
+	/// slice of `len` scalars.
+	fn to_packed_range(len: usize, range: impl RangeBounds<usize>) -> Option<(usize, usize)> {
 		let start = match range.start_bound() {
 			Bound::Included(&start) => start,
-			Bound::Excluded(&start) => start + P::WIDTH,
+			Bound::Excluded(&start) => start + 1,
 			Bound::Unbounded => 0,
 		};
 		let end = match range.end_bound() {
-			Bound::Included(&end) => end + P::WIDTH,
+			Bound::Included(&end) => end + 1,
 			Bound::Excluded(&end) => end,
 			Bound::Unbounded => len,
 		};
 
 		if (start, end) == (0, len) {
-			(0, len)
+			None
 		} else {
 			assert_eq!(start % P::WIDTH, 0, "start must be a multiple of {}", P::WIDTH);
 			assert_eq!(end % P::WIDTH, 0, "end must be a multiple of {}", P::WIDTH);
 
-			(start >> P::LOG_WIDTH, end >> P::LOG_WIDTH)
+			Some((start >> P::LOG_WIDTH, end >> P::LOG_WIDTH))
 		}
 	}
 }
-- 
2.43.0


From 62214d618b75ae437f85e2da62ec39fe764cb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 39/49] fix: slice_power_of_two_mut of a slice whose length is
 not a power of two

---
 crates/compute/src/memory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/compute/src/memory.rs b/crates/compute/src/memory.rs
index f7ed13b..43b60bb 100644
--- a/crates/compute/src/memory.rs
+++ b/crates/compute/src/memory.rs
@@ -219,8 +219,9 @@ pub trait ComputeMemory<F> {
 			return Self::to_owned_mut(input);
 		}
 
-		let mut result = if n > Self::ALIGNMENT {
-			Self::slice_mut(input, ..n)
+		let aligned_len = n.max(Self::ALIGNMENT);
+		let mut result = if input.len() > aligned_len {
+			Self::slice_mut(input, ..aligned_len)
 		} else {
 			Self::to_owned_mut(input)
 		};
-- 
2.43.0


From 58ead43c1e1c83be04a23718e284007e90312a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 40/49] fix: allow empty allocations in the bump allocator

---
 crates/compute/src/alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compute/src/alloc.rs b/crates/compute/src/alloc.rs
index 23e8b0b..1547bf1 100644
--- a/crates/compute/src/alloc.rs
+++ b/crates/compute/src/alloc.rs
@@ -77,8 +77,10 @@ where
 			// buffer contains Some, invariant restored
 			Err(Error::OutOfMemory)
 		} else {
-			let (mut lhs, rhs) = Mem::split_at_mut(buffer, n.max(Mem::ALIGNMENT));
-			if n < Mem::ALIGNMENT {
+			// An empty allocation takes up no space
+			let aligned_n = if n == 0 { 0 } else { n.max(Mem::ALIGNMENT) };
+			let (mut lhs, rhs) = Mem::split_at_mut(buffer, aligned_n);
+			if n < aligned_n {
 				assert!(n.is_power_of_two(), "n must be a power of two");
 				for _ in checked_log_2(n)..checked_log_2(Mem::ALIGNMENT) {
 					(lhs, _) = Mem::split_half_mut(lhs)
-- 
2.43.0


From bcd4e3fbfb37eb97df000347503cc06a0bc82c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 41/49] fix: Array2D: refuse column indices out of range

---
 crates/utils/src/array_2d.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/array_2d.rs b/crates/utils/src/array_2d.rs
index 05d9cdb..6c1471c 100644
--- a/crates/utils/src/array_2d.rs
+++ b/crates/utils/src/array_2d.rs
@@ -38,7 +38,7 @@ impl<T: Default + Clone> Array2D<T> {
 impl<T, Data: Deref<Target = [T]>> Array2D<T, Data> {
 	/// Returns the number of rows in the array.
 	pub fn rows(&self) -> usize {
-		self.data.len() / self.cols
+		self.rows
 	}
 
 	/// Returns the number of columns in the array.
@@ -112,12 +112,14 @@ impl<T, Data: Deref<Target = [T]>> Index<(usize, usize)> for Array2D<T, Data> {
 	type Output = T;
 
 	fn index(&self, (i, j): (usize, usize)) -> &Self::Output {
+		assert!(j < self.cols, "column index out of bounds");
 		&self.data[i * self.cols + j]
 	}
 }
 
 impl<T, Data: DerefMut<Target = [T]>> IndexMut<(usize, usize)> for Array2D<T, Data> {
 	fn index_mut(&mut self, (i, j): (usize, usize)) -> &mut Self::Output {
+		assert!(j < self.cols, "column index out of bounds");
 		&mut self.data[i * self.cols + j]
 	}
 }
-- 
2.43.0


From 4f91def5d6b31503b9d200edf06132344fd7a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 42/49] fix: random access subranges: avoid overflow in the
 bounds check

---
 crates/utils/src/random_access_sequence.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/random_access_sequence.rs b/crates/utils/src/random_access_sequence.rs
index b19ece1..c25fa51 100644
--- a/crates/utils/src/random_access_sequence.rs
+++ b/crates/utils/src/random_access_sequence.rs
@@ -99,7 +99,10 @@ pub struct SequenceSubrange<'a, T: Copy, Inner: RandomAccessSequence<T>> {
 impl<'a, T: Copy, Inner: RandomAccessSequence<T>> SequenceSubrange<'a, T, Inner> {
 	#[inline(always)]
 	pub fn new(inner: &'a Inner, offset: usize, len: usize) -> Self {
-		assert!(offset + len <= inner.len(), "subrange out of bounds");
+		assert!(
+			offset <= inner.len() && len <= inner.len() - offset,
+			"subrange out of bounds"
+		);
 
 		Self {
 			inner,
@@ -135,7 +138,10 @@ pub struct SequenceSubrangeMut<'a, T: Copy, Inner: RandomAccessSequenceMut<T>> {
 impl<'a, T: Copy, Inner: RandomAccessSequenceMut<T>> SequenceSubrangeMut<'a, T, Inner> {
 	#[inline(always)]
 	pub fn new(inner: &'a mut Inner, offset: usize, len: usize) -> Self {
-		assert!(offset + len <= inner.len(), "subrange out of bounds");
+		assert!(
+			offset <= inner.len() && len <= inner.len() - offset,
+			"subrange out of bounds"
+		);
 
 		Self {
 			inner,
-- 
2.43.0


From c478f82f79308c79fb6b8558d01886f8bbab1ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 43/49] fix: copy_packed_from_scalars_slice: refuse a
 destination that is too short

---
 crates/field/src/packed.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 39041c1..6b71c45 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -449,6 +449,8 @@ pub fn pack_slice<P: PackedField>(scalars: &[P::Scalar]) -> Vec<P> {
 
 /// Copy scalar elements to a vector of packed field elements.
 pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &mut [P]) {
+	assert!(src.len() <= len_packed_slice(dst), "destination is too short");
+
 	unpack_if_possible_mut(
 		dst,
 		|scalars| {
-- 
2.43.0


From ae20e1cc1a0d07463352e362f1aa37b7a12e64ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 44/49] fix: ParallelMultidigestImpl: hash an incomplete last
 chunk of messages

---
 crates/hash/src/multi_digest.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..38da646 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,15 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_messages = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// All rows must have the same length. If the last chunk is incomplete, repeat the
+				// first message in the rows whose results are dropped.
+				let data =
+					array::from_fn(|i| buffers[if i < n_messages { i } else { 0 }].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From 53ba80494e8c4455f5947ac5adaadbe40373efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 45/49] fix: byte-sliced Vision digest: refuse rows of
 different lengths in release builds

---
 crates/hash/src/vision/digest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hash/src/vision/digest.rs b/crates/hash/src/vision/digest.rs
index 9f38e77..7bdbe54 100644
--- a/crates/hash/src/vision/digest.rs
+++ b/crates/hash/src/vision/digest.rs
@@ -270,7 +270,7 @@ impl MultiDigest<HASHES_PER_BYTE_SLICED_PERMUTATION> for VisionHasherDigestByteS
 
 	fn update(&mut self, data: [&[u8]; HASHES_PER_BYTE_SLICED_PERMUTATION]) {
 		for row in 1..HASHES_PER_BYTE_SLICED_PERMUTATION {
-			debug_assert_eq!(data[row].len(), data[0].len());
+			assert_eq!(data[row].len(), data[0].len());
 		}
 
 		let mut offset = if self.filled_bytes > 0 {
-- 
2.43.0


From e858aef79e73834a2fcf53b6b9d7cceb087d6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:57 +0000
Subject: [PATCH 46/49] fix: powers of a static base beyond 2^63 in the
 exponentiation argument

---
 crates/core/src/protocols/gkr_exp/provers.rs   | 3 ++-
 crates/core/src/protocols/gkr_exp/verifiers.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/protocols/gkr_exp/provers.rs b/crates/core/src/protocols/gkr_exp/provers.rs
index 8cba625..7b26d2e 100644
--- a/crates/core/src/protocols/gkr_exp/provers.rs
+++ b/crates/core/src/protocols/gkr_exp/provers.rs
@@ -143,7 +143,8 @@ where
 			_ => unreachable!("witness must contain static base"),
 		};
 
-		let base_power_static = base.pow(1 << internal_layer_index);
+		// Repeated squaring, because the exponent does not have to fit a machine word.
+		let base_power_static = (0..internal_layer_index).fold(base, |power, _| power.square());
 
 		let composition = IndexComposition::new(
 			composite_claims_n_multilinears,
diff --git a/crates/core/src/protocols/gkr_exp/verifiers.rs b/crates/core/src/protocols/gkr_exp/verifiers.rs
index 58ee08f..f929f25 100644
--- a/crates/core/src/protocols/gkr_exp/verifiers.rs
+++ b/crates/core/src/protocols/gkr_exp/verifiers.rs
@@ -130,11 +130,10 @@ where
 		} else {
 			let internal_layer_index = self.exponent_bit_width() - 1 - layer_no;
 
-			let base_power_static = self
-				.0
-				.static_base
-				.expect("static_base exist")
-				.pow(1 << internal_layer_index);
+			// Repeated squaring, because the exponent does not have to fit a machine word.
+			let static_base = self.0.static_base.expect("static_base exist");
+			let base_power_static =
+				(0..internal_layer_index).fold(static_base, |power, _| power.square());
 
 			let this_layer_input_index = multilinears_index;
 			let exponent_bit_index = multilinears_index + 1;
-- 
2.43.0


From adda999ba1aadd1c3ce8e0946b4b88b7f1c2643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:57 +0000
Subject: [PATCH 47/49] fix: is_aes_tower compares with the 8-bit AES field

---
 crates/field/src/aes_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/aes_field.rs b/crates/field/src/aes_field.rs
index 972b0e1..48610be 100644
--- a/crates/field/src/aes_field.rs
+++ b/crates/field/src/aes_field.rs
@@ -103,7 +103,7 @@ impl TowerField for AESTowerField8b {
 /// Returns true if `F`` is AES tower field.
 #[inline(always)]
 pub fn is_aes_tower<F: TowerField>() -> bool {
-	TypeId::of::<F>() == TypeId::of::<F>()
+	TypeId::of::<F>() == TypeId::of::<AESTowerField8b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField16b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField32b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField64b>()
-- 
2.43.0


From 9ec2c5e3d66f3b8af28e3b9ec9764447ddfe254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:14 +0000
Subject: [PATCH 48/49] hook: let verification harnesses prove from a witness
 with zeros (cfg binius_verif)

---
 crates/core/src/constraint_system/mod.rs   | 11 +++++++++++
 crates/core/src/constraint_system/prove.rs |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/mod.rs b/crates/core/src/constraint_system/mod.rs
index ef8f294..a775f77 100644
--- a/crates/core/src/constraint_system/mod.rs
+++ b/crates/core/src/constraint_system/mod.rs
@@ -1,5 +1,8 @@
 // Copyright 2024-2025 Irreducible Inc.
 
+// `binius_verif` is set by verification harnesses only
+#![allow(unexpected_cfgs)]
+
 pub mod channel;
 mod common;
 pub mod error;
@@ -8,6 +11,14 @@ mod prove;
 pub mod validate;
 mod verify;
 
+/// Switches for verification harnesses.
+#[cfg(binius_verif)]
+pub mod verif {
+	/// Lets the prover carry on with a witness that it sees not to satisfy the statement.
+	pub static PROVE_ANYWAY: std::sync::atomic::AtomicBool =
+		std::sync::atomic::AtomicBool::new(false);
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..68475e2 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -312,7 +312,13 @@ where
 		.iter()
 		.any(|count| *count == Tower::B128::zero())
 	{
-		bail!(Error::Zeros);
+		#[cfg(binius_verif)]
+		let refuse = !super::verif::PROVE_ANYWAY.load(std::sync::atomic::Ordering::SeqCst);
+		#[cfg(not(binius_verif))]
+		let refuse = true;
+		if refuse {
+			bail!(Error::Zeros);
+		}
 	}
 
 	let mut writer = transcript.message();
-- 
2.43.0


From 4c8c8f9f37ee8743c08999cc4f763bfee4bb857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:55 +0000
Subject: [PATCH 49/49] fix: Merkle proof size counts every digest of a branch

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0

