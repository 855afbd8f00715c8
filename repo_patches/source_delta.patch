From 72186f9b0624750a0b01cd71d0127fa9e0fa18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:47 +0000
Subject: [PATCH 01/86] fix: make POLYVAL basis elements and from_bases agree
 with its coordinates

---
 crates/field/src/polyval.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/field/src/polyval.rs b/crates/field/src/polyval.rs
index 7483516..acf2e54 100644
--- a/crates/field/src/polyval.rs
+++ b/crates/field/src/polyval.rs
@@ -426,7 +426,8 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		if i >= 128 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		Ok(Self::new(1 << i))
+		// The coordinates exposed by `iter_bases` are the bits of the internal representation.
+		Ok(Self(1 << i))
 	}
 
 	#[inline]
@@ -434,15 +435,18 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		base_elems: impl IntoIterator<Item = BinaryField1b>,
 		log_stride: usize,
 	) -> Result<Self, Error> {
-		if log_stride != 7 {
+		if log_stride > 7 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		// REVIEW: is this actually correct for a monomial field?
-		let value = base_elems
-			.into_iter()
-			.enumerate()
-			.fold(0, |value, (i, elem)| value | (u128::from(elem.0) << i));
-		Ok(Self::new(value))
+		let mut value = 0;
+		for (i, elem) in base_elems.into_iter().enumerate() {
+			let shift = i << log_stride;
+			if shift >= 128 {
+				return Err(Error::ExtensionDegreeMismatch);
+			}
+			value |= u128::from(elem.0) << shift;
+		}
+		Ok(Self(value))
 	}
 
 	#[inline]
-- 
2.43.0


From a03e6e96e8a8e1ed1fa7e9e736fad46f81c36446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:51 +0000
Subject: [PATCH 02/86] fix: PackedField::get_checked must not read the element
 before checking the index

---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From ce7e042d162f95abfd8ef37d26cd129447b1d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:51 +0000
Subject: [PATCH 03/86] fix: copy_packed_from_scalars_slice wrote the tail at a
 scalar offset, not a packed one

---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From 8f77dfb6838ede599e401be4e8094e0bfdac69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 04/86] fix: unzip of byte-sliced packed fields with more than
 one row per column

---
 .../byte_sliced/packed_byte_sliced.rs         | 74 +++++++++----------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..f633e3e 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -803,40 +803,36 @@ macro_rules! define_byte_sliced_3d_1b {
 
 			#[inline]
 			fn unzip(self, other: Self, log_block_len: usize) -> (Self, Self) {
-				if log_block_len < 3 {
-					let mut result1 = Self::default();
-					let mut result2 = Self::default();
+				type Packed8b =
+					PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
 
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
-					}
+				let self_data: &[Packed8b; Self::HEIGHT_BYTES] =
+					Packed8b::cast_ext_arr_ref(&self.data);
+				let other_data: &[Packed8b; Self::HEIGHT_BYTES] =
+					Packed8b::cast_ext_arr_ref(&other.data);
 
-					(result1, result2)
-				} else {
-					type Packed8b =
-						PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
-
-					let self_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&self.data);
-					let other_data: &[Packed8b; Self::HEIGHT_BYTES] =
-						Packed8b::cast_ext_arr_ref(&other.data);
+				// Unzip the bytes first, then unzip the bits within each pair of even and odd bytes.
+				let (result1, result2) = unzip_byte_sliced::<Packed8b, { Self::HEIGHT_BYTES }, 1>(
+					self_data,
+					other_data,
+					log_block_len.saturating_sub(3),
+				);
 
-					let (result1, result2) = unzip_byte_sliced::<Packed8b, { Self::HEIGHT_BYTES }, 1>(
-						self_data,
-						other_data,
-						log_block_len - 3,
-					);
+				let mut result1 = Self {
+					data: Packed8b::cast_base_arr(result1),
+				};
+				let mut result2 = Self {
+					data: Packed8b::cast_base_arr(result2),
+				};
 
-					(
-						Self {
-							data: Packed8b::cast_base_arr(result1),
-						},
-						Self {
-							data: Packed8b::cast_base_arr(result2),
-						},
-					)
+				for log_len in (log_block_len..3).rev() {
+					for i in 0..Self::HEIGHT_BYTES {
+						(result1.data[i], result2.data[i]) =
+							result1.data[i].interleave(result2.data[i], log_len);
+					}
 				}
+
+				(result1, result2)
 			}
 
 			impl_spread!($name, BinaryField1b, $packed_storage, $storage_tower_level);
@@ -955,17 +951,15 @@ fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
 		let block_size = 1 << log_block_len;
 		let half = N / 2;
 		for block_offset in (0..half).step_by(block_size) {
-			let target_offset = block_offset * 2;
-
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
-
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
+			for i in block_offset..block_offset + block_size {
+				// Rows `even` and `odd` of consecutive columns hold what goes to rows `i` and
+				// `half + i` of the first and the second result respectively.
+				let even = block_offset + i;
+				let odd = even + block_size;
+
+				(result1[i], result1[half + i]) = lhs[even].unzip(rhs[even], 0);
+				(result2[i], result2[half + i]) = lhs[odd].unzip(rhs[odd], 0);
+			}
 		}
 	} else {
 		for i in 0..N {
-- 
2.43.0


From cb6601dc5432894ff2e1122d68b7efd6a1c6e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:05 +0000
Subject: [PATCH 05/86] fix: byte length of byte-sliced packed bits
 (iterate_bytes read out of bounds)

---
 .../field/src/arch/portable/byte_sliced/packed_byte_sliced.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index f633e3e..4cb3553 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -631,7 +631,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl $name {
 			pub const BYTES: usize =
-				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH;
+				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH / 8;
 
 			pub const HEIGHT_BYTES: usize = <$storage_tower_level as TowerLevel>::WIDTH;
 			const LOG_HEIGHT: usize = checked_log_2(Self::HEIGHT_BYTES);
-- 
2.43.0


From e9c98b210687854dab53a0d49040a76ccf79f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 06/86] fix: linear transformations of byte-sliced packed bits
 ignored their matrix

---
 .../byte_sliced/packed_byte_sliced.rs         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index 4cb3553..561b57f 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -21,9 +21,7 @@ use crate::{
 	},
 	as_packed_field::{PackScalar, PackedType},
 	binary_field::BinaryField,
-	linear_transformation::{
-		FieldLinearTransformation, IDTransformation, PackedTransformationFactory, Transformation,
-	},
+	linear_transformation::{FieldLinearTransformation, PackedTransformationFactory, Transformation},
 	packed_aes_field::PackedAESBinaryField32x8b,
 	tower_levels::{TowerLevel, TowerLevel1, TowerLevel2, TowerLevel4, TowerLevel8, TowerLevel16},
 	underlier::{UnderlierWithBitOps, WithUnderlier},
@@ -619,6 +617,16 @@ macro_rules! byte_sliced_common {
 	};
 }
 
+/// Linear transformation of packed bits: the only linear maps on a single bit are multiplications
+/// by a bit.
+pub struct ScalarMulTransformation<P>(P);
+
+impl<P: PackedField> Transformation<P, P> for ScalarMulTransformation<P> {
+	fn transform(&self, data: &P) -> P {
+		*data * self.0
+	}
+}
+
 /// Special case: byte-sliced packed 1b-fields. The order of bytes in the layout matches the one
 /// for a byte-sliced AES field, each byte contains 1b-scalar elements in the natural order.
 macro_rules! define_byte_sliced_3d_1b {
@@ -875,12 +883,12 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl PackedTransformationFactory<$name> for $name {
 			type PackedTransformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync> =
-				IDTransformation;
+				ScalarMulTransformation<$name>;
 
 			fn make_packed_transformation<Data: AsRef<[<$name as PackedField>::Scalar]> + Sync>(
-				_transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
+				transformation: FieldLinearTransformation<<$name as PackedField>::Scalar, Data>,
 			) -> Self::PackedTransformation<Data> {
-				IDTransformation
+				ScalarMulTransformation(<$name as PackedField>::broadcast(transformation.bases()[0]))
 			}
 		}
 	};
-- 
2.43.0


From a2d33909846797c28ca6d71658004b361e426b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:12 +0000
Subject: [PATCH 07/86] fix: zero_pad lost values when the input is smaller
 than the packing width

The loop over output lanes was bounded by the number of input values rather than
by the number of output values, and a nonzero index one past the end was accepted.
---
 crates/math/src/fold.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..994e090 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -43,7 +43,7 @@ where
 	}
 
 	let extra_vars = log_new_vals - log_evals_size;
-	if nonzero_index > 1 << extra_vars {
+	if nonzero_index >= 1 << extra_vars {
 		bail!(Error::IncorrectNonZeroIndex {
 			expected: 1 << extra_vars
 		});
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From 7e3ca025e5bf2d03ed09fd7c6a45e381b9dfbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:16 +0000
Subject: [PATCH 08/86] fix: bound the 1-bit fold fast paths by log_evals_size

With an evals slice longer than 2^log_evals_size (which the argument checks allow) the
byte-iterating fold_right wrote past the end of out.
---
 crates/math/src/fold.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 994e090..7301db4 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -500,6 +500,10 @@ where
 		return false;
 	}
 
+	// `evals` may be longer than required. The values past the end must not be folded because
+	// there is no room for them in `out`.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// We pass log_query_size_ as a generic parameter because that allows a compiler producing
 	// more efficient code in the tight loops inside the functions.
 	match log_query_size {
@@ -756,6 +760,9 @@ where
 		return false;
 	}
 
+	// `evals` may be longer than required, only the prefix must be folded.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	let log_row_size = log_evals_size - log_query_size;
 	if log_row_size < 3 {
 		return false;
-- 
2.43.0


From 1710e2da4a5a92a05331bcd7e46b12145b3bdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 09/86] fix: BinarySubspace::get_checked overflowed for
 dimensions of 64 and above

---
 crates/math/src/binary_subspace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/binary_subspace.rs b/crates/math/src/binary_subspace.rs
index ced6e4b..f218a19 100644
--- a/crates/math/src/binary_subspace.rs
+++ b/crates/math/src/binary_subspace.rs
@@ -88,7 +88,8 @@ impl<F: BinaryField> BinarySubspace<F> {
 	}
 
 	pub fn get_checked(&self, index: usize) -> Result<F, Error> {
-		if index >= 1 << self.basis.len() {
+		// Every index is in range when the dimension is at least the bit width of `usize`.
+		if self.basis.len() < usize::BITS as usize && index >= 1 << self.basis.len() {
 			bail!(Error::ArgumentRangeError {
 				arg: "index".to_string(),
 				range: 0..1 << self.basis.len(),
-- 
2.43.0


From d2c767f453cf96068013208c388892c03ae0d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 10/86] fix: ArithCircuit constant folding overflowed when
 merging nested powers

---
 crates/math/src/arith_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..f7c4607 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -586,7 +586,10 @@ impl<F: Field> ArithCircuit<F> {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						// The nested form is kept if the product isn't representable.
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0


From e664208d2102c05d59cede18f6f348d23e7a92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 11/86] fix: ArithCircuit::eval_cost panicked on a zero
 exponent

---
 crates/math/src/arith_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index f7c4607..8ac5a17 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -324,7 +324,7 @@ impl<F: Field> ArithCircuit<F> {
 				// 1. log2(e) squarings.
 				// 1. popcount(e) - 1 multiplications.
 				ArithCircuitStep::Pow(_, exp) => {
-					let n_squares = exp.ilog2() as usize;
+					let n_squares = exp.checked_ilog2().unwrap_or(0) as usize;
 					let n_muls = exp.count_ones().saturating_sub(1) as usize;
 					acc + EvalCost::mul(n_muls) + EvalCost::square(n_squares)
 				}
-- 
2.43.0


From 2c3e4e86ff80781edf2725dbe601e7b69be8fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 12/86] fix: RowsBatchRef::iter and map ignored the offset and
 row length

The default CompositionPoly::batch_evaluate and IndexComposition read the wrong columns of a
subrange.
---
 crates/math/src/rows_batch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/rows_batch.rs b/crates/math/src/rows_batch.rs
index dbc312e..fed3f3f 100644
--- a/crates/math/src/rows_batch.rs
+++ b/crates/math/src/rows_batch.rs
@@ -112,7 +112,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	#[inline]
 	pub fn iter(&self) -> impl Iterator<Item = &'a [T]> + '_ {
-		self.rows.as_ref().iter().copied()
+		(0..self.n_rows()).map(|index| self.row(index))
 	}
 
 	#[inline(always)]
@@ -137,7 +137,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	/// Returns a new `RowsBatch` with the specified rows selected by the given indices.
 	pub fn map(&self, indices: impl AsRef<[usize]>) -> RowsBatch<'a, T> {
-		let rows = indices.as_ref().iter().map(|&i| self.rows[i]).collect();
+		let rows = indices.as_ref().iter().map(|&i| self.row(i)).collect();
 
 		RowsBatch {
 			rows,
-- 
2.43.0


From 55b23ff9f3c2d4668f8c8ee10018048b1ca63b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 13/86] fix: ArithCircuitPoly overwrote values of shared
 subexpressions

x + y * z was always accumulated in the slot of x, also when x is used again. For example
A * (A + y * z) with A = a * b was evaluated as (A + y * z)^2.
---
 crates/fast_compute/src/arith_circuit.rs | 62 ++++++++++++++++++++----
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..3a4745c 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -52,9 +52,31 @@ fn convert_circuit_steps<F: Field>(
 		}
 	}
 
+	/// Returns the operands of the multiplication `right` if `left + right` can be calculated by
+	/// accumulating the product to the slot of `left`. That's only possible if the value of `left`
+	/// isn't used by anything else, because it is overwritten.
+	fn fused_mul_operands<F: Field>(
+		left: usize,
+		right: usize,
+		original_steps: &[ArithCircuitStep<F>],
+		n_uses: &[usize],
+	) -> Option<(usize, usize)> {
+		let ArithCircuitStep::Mul(mleft, mright) = original_steps[right] else {
+			return None;
+		};
+		// The first power shares the slot with its base.
+		if matches!(original_steps[left], ArithCircuitStep::Pow(_, 1)) {
+			return None;
+		}
+		// The multiplication reads its operands before the slot is updated.
+		let n_own_uses = 1 + usize::from(mleft == left) + usize::from(mright == left);
+		(n_uses[left] == n_own_uses).then_some((mleft, mright))
+	}
+
 	fn convert_step<F: Field>(
 		original_step: usize,
 		original_steps: &[ArithCircuitStep<F>],
+		n_uses: &[usize],
 		result: &mut Vec<CircuitStep<F>>,
 		node_to_step: &mut StepsMapping,
 	) -> CircuitStepArgument<F> {
@@ -65,16 +87,18 @@ fn convert_circuit_steps<F: Field>(
 		match &original_steps[original_step] {
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
-			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+			ArithCircuitStep::Add(original_left, right) => {
+				let left = convert_step(*original_left, original_steps, n_uses, result, node_to_step);
 
 				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+					if let Some((mleft, mright)) =
+						fused_mul_operands(*original_left, *right, original_steps, n_uses)
+					{
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
-						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
-						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						let mleft = convert_step(mleft, original_steps, n_uses, result, node_to_step);
+						let mright = convert_step(mright, original_steps, n_uses, result, node_to_step);
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,22 +110,22 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let right = convert_step(*right, original_steps, n_uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Add(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
-				let right = convert_step(*right, original_steps, result, node_to_step);
+				let left = convert_step(*left, original_steps, n_uses, result, node_to_step);
+				let right = convert_step(*right, original_steps, n_uses, result, node_to_step);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Pow(base, exp) => {
-				let mut acc = convert_step(*base, original_steps, result, node_to_step);
+				let mut acc = convert_step(*base, original_steps, n_uses, result, node_to_step);
 				let base_expr = acc;
 				let highest_bit = exp.ilog2();
 
@@ -123,9 +147,27 @@ fn convert_circuit_steps<F: Field>(
 		}
 	}
 
+	let mut n_uses = vec![0; expr.steps().len()];
+	for step in expr.steps() {
+		match *step {
+			ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+				n_uses[left] += 1;
+				n_uses[right] += 1;
+			}
+			ArithCircuitStep::Pow(base, _) => n_uses[base] += 1,
+			ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => {}
+		}
+	}
+
 	let mut steps = Vec::new();
 	let mut steps_mapping = StepsMapping::new(expr.steps().len());
-	let ret = convert_step(expr.steps().len() - 1, expr.steps(), &mut steps, &mut steps_mapping);
+	let ret = convert_step(
+		expr.steps().len() - 1,
+		expr.steps(),
+		&n_uses,
+		&mut steps,
+		&mut steps_mapping,
+	);
 	(steps, ret)
 }
 
-- 
2.43.0


From d53fed23c296662f8c266de967ab08312d6b1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 14/86] fix: ArithCircuitPoly reused the last square instead of
 a shared odd power

For example x^3 * x^3 was evaluated as x^3 * x^2.
---
 crates/fast_compute/src/arith_circuit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index 3a4745c..cc91e79 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -130,9 +130,6 @@ fn convert_circuit_steps<F: Field>(
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -142,6 +139,10 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
+
 				acc
 			}
 		}
-- 
2.43.0


From 2b3d65f739cd9c6da731296ea54d5dd46a06ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 15/86] fix: ArithCircuitPoly panicked on a zero exponent

---
 crates/fast_compute/src/arith_circuit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index cc91e79..6cc1c3e 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -124,6 +124,7 @@ fn convert_circuit_steps<F: Field>(
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
+			ArithCircuitStep::Pow(_, 0) => CircuitStepArgument::Const(F::ONE),
 			ArithCircuitStep::Pow(base, exp) => {
 				let mut acc = convert_step(*base, original_steps, n_uses, result, node_to_step);
 				let base_expr = acc;
-- 
2.43.0


From 96cf6e88e8027ae3824b050847cda0d12fae3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:07 +0000
Subject: [PATCH 16/86] fix: ArithCircuitPoly::batch_evaluate aliased the
 accumulator of AddMul

The accumulator was mutated through a raw slice while a shared slice overlapping it was in
use, and read before initialization when both operands are constants.
---
 crates/fast_compute/src/arith_circuit.rs | 26 ++++++++++--------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index 6cc1c3e..31fd5da 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -476,28 +476,24 @@ impl<F: TowerField, P: PackedField<Scalar: ExtensionField<F>>> CompositionPoly<P
 						}
 					}
 					CircuitStep::AddMul(target, left, right) => {
-						let target = &mut before[row_len * target..(target + 1) * row_len];
-						// Safety: by construction of steps and evaluation order we know
-						// that `target` is not borrowed elsewhere.
-						let target: &mut [MaybeUninit<P>] = unsafe {
-							std::slice::from_raw_parts_mut(
-								target.as_mut_ptr() as *mut MaybeUninit<P>,
-								target.len(),
-							)
-						};
+						// The slot of this step is not used otherwise. The product can't be added to
+						// `target` directly because the operands may refer to the same slot.
 						apply_binary_op(
 							left,
 							right,
 							batch_query,
 							before,
-							target,
-							// Safety: by construction of steps and evaluation order we know
-							// that `target`/`out` is initialized.
-							|left, right, out| unsafe {
-								let out = out.assume_init_mut();
-								*out += left * right;
+							current,
+							|left, right, out| {
+								out.write(left * right);
 							},
 						);
+						// Safety: `current` is fully initialized by `apply_binary_op`.
+						let product = unsafe { slice_assume_init_mut(current) };
+						let target = &mut before[row_len * target..(target + 1) * row_len];
+						for (target, product) in target.iter_mut().zip(product) {
+							*target += *product;
+						}
 					}
 				}
 			}
-- 
2.43.0


From e979b81ce024c0dbfaec21654d1631a3e9f9cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:21 +0000
Subject: [PATCH 17/86] fix: restore the POLYVAL basis (reverts 72186f9, which
 moved 1 out of the canonical subspaces)

---
 crates/field/src/polyval.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/field/src/polyval.rs b/crates/field/src/polyval.rs
index acf2e54..7483516 100644
--- a/crates/field/src/polyval.rs
+++ b/crates/field/src/polyval.rs
@@ -426,8 +426,7 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		if i >= 128 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		// The coordinates exposed by `iter_bases` are the bits of the internal representation.
-		Ok(Self(1 << i))
+		Ok(Self::new(1 << i))
 	}
 
 	#[inline]
@@ -435,18 +434,15 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		base_elems: impl IntoIterator<Item = BinaryField1b>,
 		log_stride: usize,
 	) -> Result<Self, Error> {
-		if log_stride > 7 {
+		if log_stride != 7 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		let mut value = 0;
-		for (i, elem) in base_elems.into_iter().enumerate() {
-			let shift = i << log_stride;
-			if shift >= 128 {
-				return Err(Error::ExtensionDegreeMismatch);
-			}
-			value |= u128::from(elem.0) << shift;
-		}
-		Ok(Self(value))
+		// REVIEW: is this actually correct for a monomial field?
+		let value = base_elems
+			.into_iter()
+			.enumerate()
+			.fold(0, |value, (i, elem)| value | (u128::from(elem.0) << i));
+		Ok(Self::new(value))
 	}
 
 	#[inline]
-- 
2.43.0


From 896de5637eb6a25635f3709bda5cc207f39af1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:30 +0000
Subject: [PATCH 18/86] fix: POLYVAL from_bases rejected every input and
 ignored the stride

---
 crates/field/src/polyval.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/field/src/polyval.rs b/crates/field/src/polyval.rs
index 7483516..0fb9508 100644
--- a/crates/field/src/polyval.rs
+++ b/crates/field/src/polyval.rs
@@ -434,14 +434,17 @@ impl ExtensionField<BinaryField1b> for BinaryField128bPolyval {
 		base_elems: impl IntoIterator<Item = BinaryField1b>,
 		log_stride: usize,
 	) -> Result<Self, Error> {
-		if log_stride != 7 {
+		if log_stride > 7 {
 			return Err(Error::ExtensionDegreeMismatch);
 		}
-		// REVIEW: is this actually correct for a monomial field?
-		let value = base_elems
-			.into_iter()
-			.enumerate()
-			.fold(0, |value, (i, elem)| value | (u128::from(elem.0) << i));
+		let mut value = 0;
+		for (i, elem) in base_elems.into_iter().enumerate() {
+			let shift = i << log_stride;
+			if shift >= 128 {
+				return Err(Error::ExtensionDegreeMismatch);
+			}
+			value |= u128::from(elem.0) << shift;
+		}
 		Ok(Self::new(value))
 	}
 
-- 
2.43.0


From 7b90855188f3642ba611e73a8fec948410adf59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:34 +0000
Subject: [PATCH 19/86] fix: parallel multi-lane hashing panicked on an
 incomplete last chunk

---
 crates/hash/src/multi_digest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..28497f7 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,14 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_items = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// All lanes must have the same length, so the unused lanes of an incomplete last
+				// chunk repeat the first message.
+				let data = array::from_fn(|i| buffers[if i < n_items { i } else { 0 }].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From 4265071d5d3c6dd130f9a9e76f0721c5e02bafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:20 +0000
Subject: [PATCH 20/86] fix: Merkle proof_size omitted one sibling per query
 and underflowed at the leaf layer

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From eebc2508f9bb5c8fa9e2fe76271748446f73665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:10 +0000
Subject: [PATCH 21/86] fix: sampling a one-byte challenge panicked when the
 sampler buffer was exhausted

---
 crates/core/src/fiat_shamir/hasher_challenger.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/fiat_shamir/hasher_challenger.rs b/crates/core/src/fiat_shamir/hasher_challenger.rs
index 811fc54..e0d9c16 100644
--- a/crates/core/src/fiat_shamir/hasher_challenger.rs
+++ b/crates/core/src/fiat_shamir/hasher_challenger.rs
@@ -78,9 +78,17 @@ impl<H: Digest + BlockSizeUser + FixedOutputReset + Default> Challenger for Hash
 	/// This returns the inner challenger which implements [`Buf`].
 	fn sampler(&mut self) -> &mut impl Buf {
 		match self {
-			Self::Sampler(sampler) => sampler,
+			Self::Sampler(sampler) => {
+				// `Buf::chunk` must not be empty while there are bytes remaining
+				if sampler.index == <H as Digest>::output_size() {
+					sampler.fill_buffer();
+				}
+				sampler
+			}
 			Self::Observer(observer) => {
-				*self = Self::Sampler(mem::take(observer).into_sampler());
+				let mut sampler = mem::take(observer).into_sampler();
+				sampler.fill_buffer();
+				*self = Self::Sampler(sampler);
 				match self {
 					Self::Sampler(sampler) => sampler,
 					_ => unreachable!(),
-- 
2.43.0


From 6cee6dec396bcda1579662a063de41e8ea205288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:22 +0000
Subject: [PATCH 22/86] fix: zerocheck prover panicked on linear constraints
 without skipped rounds

---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 656fc59..136c2bc 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -275,7 +275,7 @@ where
 	let log_extension_degree_base_domain = <FBase as ExtensionField<FDomain>>::LOG_DEGREE;
 
 	// Check that domain field contains the required NTT cosets.
-	let min_domain_bits = log2_ceil_usize(max_domain_size);
+	let min_domain_bits = log2_ceil_usize(max_domain_size).max(1);
 	if min_domain_bits > FDomain::N_BITS {
 		bail!(MathError::DomainSizeTooLarge);
 	}
-- 
2.43.0


From b385f8f8c94813710ee16dcbce0300566432916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:15 +0000
Subject: [PATCH 23/86] fix: zerocheck univariate round dropped all but the
 last subcube on the sub-packed path

When skip_rounds < P::LOG_WIDTH, spread_product assigned the accumulator
instead of adding to it, so with more than 12 variables the result
depended on how many subcubes one fold state happened to process.
---
 crates/core/src/protocols/sumcheck/prove/univariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/univariate.rs b/crates/core/src/protocols/sumcheck/prove/univariate.rs
index 136c2bc..c7306f0 100644
--- a/crates/core/src/protocols/sumcheck/prove/univariate.rs
+++ b/crates/core/src/protocols/sumcheck/prove/univariate.rs
@@ -542,7 +542,7 @@ fn spread_product<P, FBase>(
 		// This never occurs with large traces under frontloaded univariate skip batching,
 		// making this a non-critical slow path.
 		for (outer_idx, dest) in accum.iter_mut().enumerate() {
-			*dest = P::from_fn(|inner_idx| {
+			*dest += P::from_fn(|inner_idx| {
 				if inner_idx >= 1 << log_n {
 					return P::Scalar::ZERO;
 				}
-- 
2.43.0


From 705de06cbfbeb46c6e23dbbeff1026d3a297ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:50 +0000
Subject: [PATCH 24/86] fix: static-base exponentiation overflowed for
 exponents wider than 64 bits

The base power of layer i was computed as base.pow(1 << i) with a u64
exponent: a panic in debug builds, a wrong power in release builds.
---
 crates/core/src/protocols/gkr_exp/provers.rs   |  4 ++--
 crates/core/src/protocols/gkr_exp/utils.rs     |  8 ++++++++
 crates/core/src/protocols/gkr_exp/verifiers.rs | 11 ++++-------
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/protocols/gkr_exp/provers.rs b/crates/core/src/protocols/gkr_exp/provers.rs
index 8cba625..b83ffcc 100644
--- a/crates/core/src/protocols/gkr_exp/provers.rs
+++ b/crates/core/src/protocols/gkr_exp/provers.rs
@@ -8,7 +8,7 @@ use super::{
 	common::{ExpClaim, LayerClaim},
 	compositions::{ExpCompositions, IndexedExpComposition},
 	error::Error,
-	utils::first_layer_inverse,
+	utils::{first_layer_inverse, pow_2_n},
 	witness::{BaseExpWitness, BaseWitness},
 };
 use crate::{
@@ -143,7 +143,7 @@ where
 			_ => unreachable!("witness must contain static base"),
 		};
 
-		let base_power_static = base.pow(1 << internal_layer_index);
+		let base_power_static = pow_2_n(base, internal_layer_index);
 
 		let composition = IndexComposition::new(
 			composite_claims_n_multilinears,
diff --git a/crates/core/src/protocols/gkr_exp/utils.rs b/crates/core/src/protocols/gkr_exp/utils.rs
index b0bab07..a94b2cc 100644
--- a/crates/core/src/protocols/gkr_exp/utils.rs
+++ b/crates/core/src/protocols/gkr_exp/utils.rs
@@ -8,3 +8,11 @@ where
 {
 	(input - F::ONE) * (base - F::ONE).invert_or_zero()
 }
+
+/// Computes $base^{2^n}$. Exponents can have more bits than the integer types allow for.
+pub fn pow_2_n<F>(base: F, n: usize) -> F
+where
+	F: BinaryField,
+{
+	(0..n).fold(base, |power, _| power.square())
+}
diff --git a/crates/core/src/protocols/gkr_exp/verifiers.rs b/crates/core/src/protocols/gkr_exp/verifiers.rs
index 58ee08f..ef64306 100644
--- a/crates/core/src/protocols/gkr_exp/verifiers.rs
+++ b/crates/core/src/protocols/gkr_exp/verifiers.rs
@@ -1,6 +1,6 @@
 // Copyright 2025 Irreducible Inc.
 
-use binius_field::{BinaryField, Field, PackedField};
+use binius_field::{BinaryField, Field};
 use binius_math::EvaluationOrder;
 use binius_utils::bail;
 
@@ -8,7 +8,7 @@ use super::{
 	common::{ExpClaim, LayerClaim},
 	compositions::{ExpCompositions, IndexedExpComposition},
 	error::Error,
-	utils::first_layer_inverse,
+	utils::{first_layer_inverse, pow_2_n},
 };
 use crate::{
 	composition::{FixedDimIndexCompositions, IndexComposition},
@@ -130,11 +130,8 @@ where
 		} else {
 			let internal_layer_index = self.exponent_bit_width() - 1 - layer_no;
 
-			let base_power_static = self
-				.0
-				.static_base
-				.expect("static_base exist")
-				.pow(1 << internal_layer_index);
+			let base_power_static =
+				pow_2_n(self.0.static_base.expect("static_base exist"), internal_layer_index);
 
 			let this_layer_input_index = multilinears_index;
 			let exponent_bit_index = multilinears_index + 1;
-- 
2.43.0


From 53c7a520bb0b027406ecd890afff592f32cf5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 25/86] fix: dynamic exponentiation witness used the base's
 tower level, not the result column's

---
 crates/core/src/constraint_system/exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index b63dc73..96eaf50 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -90,7 +90,7 @@ where
 						PackedType<U, FFastExt<Tower>>,
 					>(fast_exponent_witnesses, fast_base_witnesses)?;
 
-					let tower_level = oracles.tower_level(base_id);
+					let tower_level = oracles.tower_level(exp.exp_result_id);
 
 					(witness, tower_level)
 				}
-- 
2.43.0


From 9380d41295c6bbf99b208c987e2da558e5bbb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 26/86] fix: prover panicked when a flushed column also serves
 as a flush selector

---
 crates/core/src/constraint_system/prove.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..ee99c04 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -726,7 +726,14 @@ where
 	let fast_inner_oracles =
 		convert_witnesses_to_fast_ext::<U, Tower>(oracles, witness_index, &inner_oracles_id)?;
 
-	for ((n_vars, witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+	for ((n_vars, mut witness_data), id) in fast_inner_oracles.into_iter().zip(inner_oracles_id) {
+		// The conversion drops the zero suffix of columns that also serve as selectors.
+		let log_width = <PackedType<U, FFastExt<Tower>>>::LOG_WIDTH;
+		witness_data.resize(
+			1 << n_vars.saturating_sub(log_width),
+			<PackedType<U, FFastExt<Tower>>>::zero(),
+		);
+
 		let fast_witness = MLEDirectAdapter::from(
 			MultilinearExtension::new(n_vars, witness_data)
 				.expect("witness_data created with correct n_vars"),
-- 
2.43.0


From ac992fb0569a29c02513decc73927b38b62d07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:34 +0000
Subject: [PATCH 27/86] fix: evalcheck prover failed with a missing query when
 points share an unrelated suffix

---
 crates/core/src/protocols/evalcheck/prove.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index e1edb82..2db0fbb 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -826,6 +826,12 @@ where
 
 		for suffix in suffixes {
 			if let Some(prefix) = eval_point.try_get_prefix(suffix) {
+				// Another point may have contributed this suffix, in which case the prefix that
+				// remains here has not been expanded.
+				let Some(prefix_query) = memoized_queries.full_query_readonly(&prefix) else {
+					continue;
+				};
+
 				let partial_eval = match partial_evals.get(oracle_id, suffix) {
 					Some(partial_eval) => partial_eval,
 					None => {
@@ -849,10 +855,6 @@ where
 					}
 				};
 
-				let prefix_query = memoized_queries
-					.full_query_readonly(&prefix)
-					.ok_or(Error::MissingQuery)?;
-
 				eval = Some(partial_eval.evaluate(prefix_query).map_err(Error::from)?);
 				break;
 			}
-- 
2.43.0


From 0f0efe297384430837d6b57399cb0e98a7887e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:05 +0000
Subject: [PATCH 28/86] fix: TowerBasis failed when its packing is wider than
 the basis

Proving a claim on a Packed column of a small degree failed with
"argument length must be a power of two" whenever 2^k < P::WIDTH
(e.g. packing pairs with a 512-bit underlier).
---
 crates/core/src/transparent/tower_basis.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..22a2441 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -54,11 +54,11 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
+		let n_values = 1 << self.k.saturating_sub(P::LOG_WIDTH);
 		let values = (0..n_values)
 			.map(|i| {
 				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
+				for j in 0..P::WIDTH.min(1 << self.k) {
 					let basis_idx = i * P::WIDTH + j;
 					let value = TowerField::basis(self.iota, basis_idx)?;
 					packed_value.set(j, value);
@@ -67,7 +67,7 @@ impl<F: TowerField> TowerBasis<F> {
 			})
 			.collect::<Result<Vec<_>, Error>>()?;
 
-		Ok(MultilinearExtension::from_values(values)?)
+		Ok(MultilinearExtension::new(self.k, values)?)
 	}
 }
 
-- 
2.43.0


From a0586e8f73fcd2acb38eda69aa7a6254c924f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:05 +0000
Subject: [PATCH 29/86] fix: Powers witness restarted at the wrong power after
 the first chunk of packed elements

---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From ce6ecba569aea8522ba68fb33b7b546d5b4d6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:38 +0000
Subject: [PATCH 30/86] fix: evalcheck prover panicked on shifted or packed
 columns over projected columns

collect_suffixes sliced the suffix past its end (or past its start) when
descending through a Projected oracle.
---
 crates/core/src/protocols/evalcheck/prove.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/prove.rs b/crates/core/src/protocols/evalcheck/prove.rs
index 2db0fbb..b723165 100644
--- a/crates/core/src/protocols/evalcheck/prove.rs
+++ b/crates/core/src/protocols/evalcheck/prove.rs
@@ -736,12 +736,14 @@ where
 
 		match &multilinear.variant {
 			MultilinearPolyVariant::Projected(projected) => {
-				let new_eval_point_len = multilinear.n_vars + projected.values().len();
+				// Only the variables above the projected ones remain last in the inner polynomial.
+				let suffix_len =
+					(multilinear.n_vars - projected.start_index()).min(suffix.len());
 
-				let range = new_eval_point_len - projected.start_index().max(suffix.len())
-					..new_eval_point_len;
-
-				self.collect_suffixes(projected.id(), suffix.slice(range));
+				self.collect_suffixes(
+					projected.id(),
+					suffix.slice(suffix.len() - suffix_len..suffix.len()),
+				);
 			}
 			MultilinearPolyVariant::Shifted(shifted) => {
 				let suffix_len = multilinear.n_vars - shifted.block_size();
-- 
2.43.0


From 7fb1b8c6cc6c3ab4b5c4fe6c355741ed64b671ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:42 +0000
Subject: [PATCH 31/86] fix: packing a computed column used the smallest field
 of its expression instead of the declared one

A computed column declared over a larger field than its expression needs
(e.g. a sum of bits declared as B16) and then packed was proved with the
basis of the smaller field, so honest proofs were rejected.
---
 crates/core/src/oracle/symbolic.rs         | 7 +++++++
 crates/m3/src/builder/constraint_system.rs | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..b60bef3 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -221,6 +221,13 @@ impl<F: TowerField> SymbolicMultilinearOracleSet<F> {
 		id
 	}
 
+	/// Raises the tower level of an oracle, so that its values are considered as elements of a
+	/// larger field than the smallest one its definition requires.
+	pub fn raise_tower_level(&mut self, id: OracleId, tower_level: usize) {
+		let oracle = &mut self.oracles[id.index()];
+		oracle.tower_level = oracle.tower_level.max(tower_level);
+	}
+
 	pub fn size(&self) -> usize {
 		self.oracles.len()
 	}
diff --git a/crates/m3/src/builder/constraint_system.rs b/crates/m3/src/builder/constraint_system.rs
index bfe3afd..611fd5c 100644
--- a/crates/m3/src/builder/constraint_system.rs
+++ b/crates/m3/src/builder/constraint_system.rs
@@ -526,6 +526,9 @@ fn add_oracle_for_column<F: TowerField>(
 				let oracle_id = oracles
 					.add_oracle(table_id, shape.log_values_per_row, name)
 					.linear_combination_with_offset(offset, col_scalars)?;
+				// The expression may be defined over a smaller field than the column is declared
+				// with, but packing the column depends on the latter.
+				oracles.raise_tower_level(oracle_id, shape.tower_height);
 				oracle_lookup.register_regular(*column_id, oracle_id);
 			} else {
 				let inner_oracles = cols
@@ -535,6 +538,7 @@ fn add_oracle_for_column<F: TowerField>(
 				let oracle_id = oracles
 					.add_oracle(table_id, shape.log_values_per_row, name)
 					.composite_mle(inner_oracles, expr.clone())?;
+				oracles.raise_tower_level(oracle_id, shape.tower_height);
 				oracle_lookup.register_regular(*column_id, oracle_id);
 			};
 		}
-- 
2.43.0


From c2c1f4fac4be3fba379892deca5be67997a8543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 32/86] fix: verifier ignored boundaries of channels without
 flushes

Boundary values on a channel that no flush touches (or on a channel that
does not exist) were never checked to balance.
---
 crates/core/src/constraint_system/verify.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..2522b01 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -316,13 +316,23 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
+	let channel_count = permutation_challenges.len();
+	if let Some(boundary) = boundaries
+		.iter()
+		.find(|boundary| boundary.channel_id >= channel_count)
+	{
+		return Err(Error::ChannelIdOutOfRange {
+			max: channel_count.saturating_sub(1),
+			got: boundary.channel_id,
+		});
+	}
+
 	let mut flush_iter = flushes
 		.iter()
 		.zip(flush_products.iter().copied())
 		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
-
+	// Boundaries may touch channels that have no flushes.
+	for channel_id in 0..channel_count {
 		let boundary_products =
 			boundaries
 				.iter()
-- 
2.43.0


From 904993974f3d227078a059388f24c90dcd2e023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:56 +0000
Subject: [PATCH 33/86] fix: exponentiation results were not bound to their
 committed column

The evaluation of the exponentiation result that GKR starts from was never
turned into a claim on the committed result column, so a proof with an
arbitrary result column was accepted.
---
 crates/core/src/constraint_system/exp.rs    | 16 ++++++++++++++++
 crates/core/src/constraint_system/prove.rs  |  7 +++++--
 crates/core/src/constraint_system/verify.rs |  3 ++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index 96eaf50..a559d33 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -14,6 +14,7 @@ use binius_macros::{DeserializeBytes, SerializeBytes};
 use binius_math::{MultilinearExtension, MultilinearPoly};
 use binius_maybe_rayon::prelude::*;
 use binius_utils::bail;
+use itertools::izip;
 use tracing::instrument;
 
 use super::{
@@ -168,6 +169,21 @@ pub fn make_eval_claims<F: TowerField>(
 	gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids).map_err(Error::from)
 }
 
+/// Makes the evaluation claims that tie the exponentiation results to the columns they are
+/// committed in.
+pub fn make_result_eval_claims<F: TowerField>(
+	exponents: &[Exp<F>],
+	exp_claims: &[ExpClaim<F>],
+) -> Vec<EvalcheckMultilinearClaim<F>> {
+	izip!(exponents, exp_claims)
+		.map(|(exp, claim)| EvalcheckMultilinearClaim {
+			id: exp.exp_result_id,
+			eval_point: claim.eval_point.clone().into(),
+			eval: claim.eval,
+		})
+		.collect()
+}
+
 #[instrument(skip_all, name = "exp::repack_witness")]
 // Because the exponentiation witness operates in a large field, the number of leading zeroes
 // depends on the FExpBase. To optimize storage and avoid committing unnecessary zeroes, we
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index ee99c04..ec1fbfc 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -254,7 +254,9 @@ where
 		.map(|x| x.into())
 		.collect::<Vec<_>>();
 
-	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?
+	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?;
+	let exp_result_eval_claims = exp::make_result_eval_claims(&exponents, &exp_claims);
+	let exp_claims = exp_claims
 		.into_iter()
 		.map(|claim| claim.isomorphic())
 		.collect::<Vec<_>>();
@@ -269,7 +271,8 @@ where
 	)?
 	.isomorphic();
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let mut exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	exp_eval_claims.extend(exp_result_eval_claims);
 	emit_max_rss();
 	drop(exp_span);
 
diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 2522b01..a3e00b9 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -146,7 +146,8 @@ where
 	let base_exp_output =
 		gkr_exp::batch_verify(EvaluationOrder::HighToLow, &exp_claims, &mut transcript)?;
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let mut exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	exp_eval_claims.extend(exp::make_result_eval_claims(&exponents, &exp_claims));
 
 	// Grand product arguments
 	// Grand products for non-zero checks
-- 
2.43.0


From b6a23f40b4c78ad3c1580bc2e3650d472c81fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:13 +0000
Subject: [PATCH 34/86] fix: evalcheck verifier panicked on an out-of-range
 duplicate claim index in the proof

---
 crates/core/src/protocols/evalcheck/verify.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..f6454ab 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -327,14 +327,13 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
-				}
+				let claim = self
+					.round_claims
+					.get(index as usize)
+					.filter(|claim| claim.id == oracle_id && claim.eval_point == eval_point)
+					.ok_or(VerificationError::DuplicateClaimMismatch)?;
 
-				Ok(self.round_claims[index].eval)
+				Ok(claim.eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From 793f2b34311ef51510603bc9071e1146f7dfd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 35/86] fix: witness validation panicked on a boundary when the
 system has no channels

---
 crates/core/src/constraint_system/channel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 5c9a455..6031d02 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -112,7 +112,7 @@ where
 			direction,
 			multiplicity,
 		} = boundary;
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
@@ -132,7 +132,7 @@ where
 			log_values_per_row,
 		} = flush;
 
-		if channel_id > max_channel_id {
+		if channel_id >= channel_count {
 			return Err(Error::ChannelIdOutOfRange {
 				max: max_channel_id,
 				got: channel_id,
-- 
2.43.0


From 3908939ebd60485abfb53e68a12a8ec725a18fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 36/86] fix: witness validation checked only the first entries
 of zero-padded columns

---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 6ce52b56c30a19089d3f6a47d0555e0915f3f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:43 +0000
Subject: [PATCH 37/86] fix: witness validation skipped constraints that
 mention no column

---
 crates/core/src/constraint_system/validate.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index 75fa1d7..fdffc59 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -50,9 +50,6 @@ where
 		if table_sizes[constraint_set.table_id] == 0 {
 			continue;
 		}
-		if constraint_set.oracle_ids.is_empty() {
-			continue;
-		}
 
 		let multilinears = constraint_set
 			.oracle_ids
-- 
2.43.0


From d0426925109409c45b59da5cc05abb205d198c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:43 +0000
Subject: [PATCH 38/86] fix: witness validation wrapped large multiplicities
 around i64

---
 crates/core/src/constraint_system/channel.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/constraint_system/channel.rs b/crates/core/src/constraint_system/channel.rs
index 6031d02..6f922e6 100644
--- a/crates/core/src/constraint_system/channel.rs
+++ b/crates/core/src/constraint_system/channel.rs
@@ -226,7 +226,7 @@ where
 			let unbalanced_flushes: Vec<_> = channel
 				.multiplicities
 				.iter()
-				.filter(|(_, c)| **c != 0i64)
+				.filter(|(_, c)| **c != 0i128)
 				.collect();
 
 			tracing::debug!("Channel {:?} unbalanced: {:?}", id, unbalanced_flushes);
@@ -241,7 +241,7 @@ where
 #[derive(Default, Debug, Clone)]
 struct Channel<F: TowerField> {
 	width: Option<usize>,
-	multiplicities: HashMap<Vec<F>, i64>,
+	multiplicities: HashMap<Vec<F>, i128>,
 }
 
 impl<F: TowerField> Channel<F> {
@@ -271,10 +271,10 @@ impl<F: TowerField> Channel<F> {
 				got: values.len(),
 			});
 		}
-		*self.multiplicities.entry(values).or_default() += (multiplicity as i64)
+		*self.multiplicities.entry(values).or_default() += (multiplicity as i128)
 			* (match direction {
-				FlushDirection::Pull => -1i64,
-				FlushDirection::Push => 1i64,
+				FlushDirection::Pull => -1i128,
+				FlushDirection::Push => 1i128,
 			});
 		Ok(())
 	}
-- 
2.43.0


From 07a01a1905fda40b6157a96503d5c8e010d55c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:02 +0000
Subject: [PATCH 39/86] fix: projected_last_vars underflowed instead of
 reporting too many values

---
 crates/core/src/oracle/multilinear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/multilinear.rs b/crates/core/src/oracle/multilinear.rs
index 720f035..ecb7316 100644
--- a/crates/core/src/oracle/multilinear.rs
+++ b/crates/core/src/oracle/multilinear.rs
@@ -209,7 +209,6 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 		ensure!(self.mut_ref.is_valid_oracle_id(inner_id), Error::InvalidOracleId(inner_id));
 
 		let inner_n_vars = self.mut_ref.n_vars(inner_id);
-		let start_index = inner_n_vars - values.len();
 		let values_len = values.len();
 		if values_len > inner_n_vars {
 			bail!(Error::InvalidProjection {
@@ -217,6 +216,7 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 				values_len,
 			});
 		}
+		let start_index = inner_n_vars - values_len;
 
 		// TODO: This is wrong, should be F::TOWER_LEVEL
 		let tower_level = self.mut_ref.tower_level(inner_id);
-- 
2.43.0


From d83f60221b0547500fb2fe0306671ddbe16a04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:02 +0000
Subject: [PATCH 40/86] fix: zero-padded oracles accepted a nonzero index one
 past the last block

---
 crates/core/src/oracle/multilinear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/multilinear.rs b/crates/core/src/oracle/multilinear.rs
index ecb7316..4a480f0 100644
--- a/crates/core/src/oracle/multilinear.rs
+++ b/crates/core/src/oracle/multilinear.rs
@@ -760,7 +760,7 @@ impl ZeroPadded {
 			});
 		}
 
-		if nonzero_index > 1 << n_pad_vars {
+		if nonzero_index >= 1 << n_pad_vars {
 			bail!(Error::InvalidNonzeroIndex {
 				expected: 1 << n_pad_vars,
 			});
-- 
2.43.0


From a0212d83ecab5a3ee28474f07a3d90308e7624b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:02 +0000
Subject: [PATCH 41/86] fix: evalcheck verifier underflowed on structured
 columns that ignore their last variables

---
 crates/core/src/protocols/evalcheck/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index f6454ab..556d5b7 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -165,7 +165,7 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 				// Here we need to extend the eval_point to the input domain of the arith circuit
 				// by assigning zeroes to the variables.
 				let eval_point: &[F] = &eval_point;
-				let n_pad_zeros = inner.n_vars() - eval_point.len();
+				let n_pad_zeros = inner.n_vars().saturating_sub(eval_point.len());
 				let query = eval_point
 					.iter()
 					.copied()
-- 
2.43.0


From fa03892e0ddb9123627ceb6cf7f8272920e3d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:02 +0000
Subject: [PATCH 42/86] fix: partial evaluation of nested linear combinations
 ignored the outer coefficient on offsets

---
 crates/core/src/protocols/evalcheck/subclaims.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/evalcheck/subclaims.rs b/crates/core/src/protocols/evalcheck/subclaims.rs
index 07b5818..ea97b6c 100644
--- a/crates/core/src/protocols/evalcheck/subclaims.rs
+++ b/crates/core/src/protocols/evalcheck/subclaims.rs
@@ -322,7 +322,7 @@ pub fn try_build_partial_eval<F: TowerField, P: PackedField<Scalar = F>>(
 			}
 
 			if lc.offset() != F::zero() {
-				let offset = P::broadcast(lc.offset());
+				let offset = coeff * P::broadcast(lc.offset());
 				for acc in acc.iter_mut() {
 					*acc += offset;
 				}
-- 
2.43.0


From f04b702c883a57aee56b4b2dfdddd7830dbe1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:53 +0000
Subject: [PATCH 43/86] fix: eq-ind sumcheck prover sent a wrong round when an
 equality coordinate is one

---
 .../src/protocols/sumcheck/prove/eq_ind.rs    | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
index 0f6f363..5fd39d0 100644
--- a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
+++ b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
@@ -538,7 +538,13 @@ where
 		let alpha = self.eq_ind_round_challenge();
 		let eq_ind_partial_evals = &self.eq_ind_partial_evals;
 
-		let first_round_eval_1s = self.first_round_eval_1s.take();
+		// The evaluation at 0 cannot be recovered from the claimed sum when eq(0, α) vanishes, in
+		// which case it is evaluated directly.
+		let have_eval_0s = alpha == F::ONE;
+		let first_round_eval_1s = self
+			.first_round_eval_1s
+			.take()
+			.filter(|_| !have_eval_0s);
 		let have_first_round_eval_1s = first_round_eval_1s.is_some();
 
 		let eq_ind_challenges = match self.state.evaluation_order() {
@@ -561,6 +567,7 @@ where
 					n_rounds_remaining,
 					composition,
 					composition_at_infinity,
+					have_eval_0s,
 					have_first_round_eval_1s,
 					eq_ind_challenges,
 					eq_ind_partial_evals,
@@ -576,6 +583,7 @@ where
 			.map(|(index, interpolation_domain)| Interpolator {
 				interpolation_domain,
 				alpha,
+				have_eval_0: have_eval_0s,
 				first_round_eval_1: first_round_eval_1s
 					.as_ref()
 					.map(|first_round_eval_1s| first_round_eval_1s[index]),
@@ -650,6 +658,7 @@ where
 	n_rounds_remaining: usize,
 	composition: &'a Composition,
 	composition_at_infinity: ArithCircuitPoly<P::Scalar>,
+	have_eval_0s: bool,
 	have_first_round_eval_1s: bool,
 	eq_ind_challenges: &'a [P::Scalar],
 	eq_ind_partial_evals: &'a [P],
@@ -663,7 +672,13 @@ where
 {
 	fn eval_point_indices(&self) -> Range<usize> {
 		// Do not evaluate r(1) in first round when its value is known
-		let start_index = if self.have_first_round_eval_1s { 2 } else { 1 };
+		let start_index = if self.have_eval_0s {
+			0
+		} else if self.have_first_round_eval_1s {
+			2
+		} else {
+			1
+		};
 		start_index..self.composition.degree() + 1
 	}
 
@@ -737,6 +752,7 @@ where
 {
 	interpolation_domain: &'a InterpolationDomain<FDomain>,
 	alpha: F,
+	have_eval_0: bool,
 	first_round_eval_1: Option<F>,
 }
 
@@ -759,11 +775,13 @@ where
 			round_evals.insert(0, first_round_eval_1);
 		}
 
-		let one_evaluation = round_evals[0];
-		let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
-		let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
-		let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
-		round_evals.insert(0, zero_evaluation);
+		if !self.have_eval_0 {
+			let one_evaluation = round_evals[0];
+			let zero_evaluation_numerator = last_round_sum - one_evaluation * self.alpha;
+			let zero_evaluation_denominator_inv = (F::ONE - self.alpha).invert_or_zero();
+			let zero_evaluation = zero_evaluation_numerator * zero_evaluation_denominator_inv;
+			round_evals.insert(0, zero_evaluation);
+		}
 
 		if round_evals.len() > 3 {
 			// SumcheckRoundCalculator orders interpolation points as 0, 1, "infinity", then
-- 
2.43.0


From 715d8746c3308d4ded364f44f8d02d0a94a5cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:08 +0000
Subject: [PATCH 44/86] fix: eq-ind sumcheck prover panicked on compositions
 that reduce to a constant

---
 crates/core/src/protocols/sumcheck/prove/eq_ind.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
index 5fd39d0..928a333 100644
--- a/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
+++ b/crates/core/src/protocols/sumcheck/prove/eq_ind.rs
@@ -771,6 +771,11 @@ where
 		last_round_sum: F,
 		mut round_evals: Vec<F>,
 	) -> Result<Vec<F>, PolynomialError> {
+		if self.interpolation_domain.size() == 1 {
+			// A constant composition sums to itself, eq(X, α) being a partition of unity.
+			return Ok(vec![last_round_sum]);
+		}
+
 		if let Some(first_round_eval_1) = self.first_round_eval_1 {
 			round_evals.insert(0, first_round_eval_1);
 		}
-- 
2.43.0


From 982ae9a10d2bacba3631a00cf121de2639588081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:36 +0000
Subject: [PATCH 45/86] fix: evalcheck verifier accepted any out-of-range
 composite constraint set position

---
 crates/core/src/protocols/evalcheck/verify.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 556d5b7..349046c 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -295,10 +295,11 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 			MultilinearPolyVariant::Composite(ref composite) => {
 				let position = transcript.message().read::<u32>()? as usize;
 
-				if let Some((constraints_eval_point, _)) =
-					self.new_mlechecks_constraints.get(position)
-				{
-					if *constraints_eval_point != eval_point {
+				// The position either names an existing set or is the next free one.
+				match self.new_mlechecks_constraints.get(position) {
+					Some((constraints_eval_point, _)) if *constraints_eval_point == eval_point => {}
+					None if position == self.new_mlechecks_constraints.len() => {}
+					_ => {
 						return Err(VerificationError::MLECheckConstraintSetPositionMismatch.into());
 					}
 				}
-- 
2.43.0


From 92776c68348023fe309803b77c29a14b15dae846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:56 +0000
Subject: [PATCH 46/86] fix: untyped witness column accessors did not check the
 column's table

---
 crates/m3/src/builder/witness.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/m3/src/builder/witness.rs b/crates/m3/src/builder/witness.rs
index 573287a..ceab402 100644
--- a/crates/m3/src/builder/witness.rs
+++ b/crates/m3/src/builder/witness.rs
@@ -1021,6 +1021,13 @@ impl<'a, F: TowerField, P: PackedField<Scalar = F>> TableWitnessSegment<'a, P> {
 		P: PackedExtension<FSub> + PackedFieldIndexable,
 		F: ExtensionField<FSub> + Pod,
 	{
+		if col.table_id != self.table.id() {
+			return Err(Error::TableMismatch {
+				column_table_id: col.table_id,
+				witness_table_id: self.table.id(),
+			});
+		}
+
 		let col = self
 			.get_col_data(col.id())
 			.ok_or_else(|| Error::MissingColumn(col.id()))?;
@@ -1146,6 +1153,13 @@ where
 		&self,
 		col_id: ColumnId,
 	) -> Result<Box<dyn WitnessColView<P::Scalar> + '_>, Error> {
+		if col_id.table_id != self.table.id() {
+			return Err(Error::TableMismatch {
+				column_table_id: col_id.table_id,
+				witness_table_id: self.table.id(),
+			});
+		}
+
 		let col = self
 			.get_col_data(col_id)
 			.ok_or_else(|| Error::MissingColumn(col_id))?;
@@ -1180,6 +1194,13 @@ where
 		&self,
 		col_id: ColumnId,
 	) -> Result<Box<dyn WitnessColViewMut<P::Scalar> + '_>, Error> {
+		if col_id.table_id != self.table.id() {
+			return Err(Error::TableMismatch {
+				column_table_id: col_id.table_id,
+				witness_table_id: self.table.id(),
+			});
+		}
+
 		let col = self
 			.get_col_data(col_id)
 			.ok_or_else(|| Error::MissingColumn(col_id))?;
-- 
2.43.0


From 4a10b17d4c0108913f5e8534cc6d5753a550a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:56 +0000
Subject: [PATCH 47/86] fix: WideSub left its borrow bits, and so its
 difference, unconstrained

---
 crates/m3/src/gadgets/sub.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..93b87fe 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -197,6 +197,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 			}
 		});
 
+		// The same relation as in `U32Sub`, bit by bit.
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
 		let zout = if flags.commit_zout {
-- 
2.43.0


From e54506b3f1a25636d9f01896b55ce7ee4c32eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:56 +0000
Subject: [PATCH 48/86] fix: WideSub could not be filled with a borrow-in
 column

---
 crates/m3/src/gadgets/sub.rs | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 93b87fe..fc47b51 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -244,22 +245,19 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		type PB1<P> = <P as PackedExtension<B1>>::PackedSubfield;
 
 		let one = PB1::<P>::one();
-		let mut b_in = self
-			.flags
-			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
-			})
-			.unwrap_or_else(|| {
-				let mut b_in = index
-					.get_mut(self.bin)
-					.expect("witness index for constant not set");
-				b_in.fill(PB1::<P>::zero());
-				vec![PB1::<P>::zero(); xin[0].len()]
-			});
+		let mut b_in = {
+			let mut b_in = index.get_mut(self.bin)?;
+			b_in.fill(PB1::<P>::zero());
+			if let Some(borrow_in_bit) = self.flags.borrow_in_bit {
+				// The borrow is bit 0 of the 32-bit value in each row.
+				let borrow_in_bit = index.get(borrow_in_bit)?;
+				for i in 0..index.size() {
+					let borrow = get_packed_slice(&borrow_in_bit, i << 5);
+					set_packed_slice(&mut b_in, i, borrow);
+				}
+			}
+			b_in.to_vec()
+		};
 		for (x_bit, y_bit, mut b_out_bit, mut zout_bit) in
 			izip!(xin.into_iter(), yin.into_iter(), bout.into_iter(), zout.into_iter())
 		{
-- 
2.43.0


From 9439d5a2563cd558411923be510b6ece2a533a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:56 +0000
Subject: [PATCH 49/86] fix: WideAdd left its first carry unconstrained, so x +
 y + 1 was accepted

---
 crates/m3/src/gadgets/add.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..cd9cdd6 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
-- 
2.43.0


From 0b467cd94f204e9db00d2e279a1d9c6d34f966c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 50/86] fix: WideAdd read its carry-in column as if it held one
 bit per row

---
 crates/m3/src/gadgets/add.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index cd9cdd6..ce6f51f 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -333,15 +333,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 		let mut zout = array_util::try_map(self.z_out, |bit| index.get_mut(bit))?;
 		let mut final_carry_out = index.get_mut(self.final_carry_out)?;
 
-		let mut carry_in = if self.flags.carry_in_bit.is_none() {
-			let initial_carry = PackedSubfield::<P, B1>::default();
-			vec![initial_carry; cin[0].len()]
-		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
-		};
+		let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+		if let Some(carry_in_bit) = self.flags.carry_in_bit {
+			// The carry is bit 0 of the 32-bit value in each row.
+			let carry_in_bit = index.get(carry_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bit, i << 5));
+			}
+		}
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
 				x_in[bit].iter(),
-- 
2.43.0


From 14fb88cf28de995c07a47922897f0137c448b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 51/86] fix: DivSS32 rejected exact divisions of a negative
 dividend

---
 crates/m3/src/gadgets/div.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..6056396 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_col},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -193,7 +193,7 @@ impl DivUU32 {
 
 /// Gadget for signed division of two i32s.
 ///
-/// `p = q*a + r` where p and r have the same sign bit.
+/// `p = q*a + r` where p and r have the same sign bit, or r is zero.
 #[derive(Debug)]
 pub struct DivSS32 {
 	mul_inner: MulSS32,
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check sign(p) == sign(r), unless r is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			(upcast_col(p_in_bits[31]) - upcast_col(out_rem_bits[31])) * out_rem,
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 8857a0afd5fe194f40117b1a58895cef60e6d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 52/86] fix: filling a division gadget panicked on a zero
 divisor or an overflowing quotient

---
 crates/m3/src/gadgets/div.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 6056396..210cb29 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -2,6 +2,7 @@
 
 use std::array;
 
+use anyhow::{anyhow, ensure};
 use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice};
 use itertools::izip;
 
@@ -147,6 +148,7 @@ impl DivUU32 {
 			let mut out_rem = index.get_mut(self.out_rem)?;
 
 			for (i, (p, q)) in izip!(p_vals, q_vals.clone()).enumerate() {
+				ensure!(q != B32::ZERO, "division by zero in row {i}");
 				let div = p.val() / q.val();
 				let rem = p.val() % q.val();
 				set_packed_slice(&mut p_in, i, p);
@@ -351,7 +353,10 @@ impl DivSS32 {
 			for (i, (p, q)) in izip!(p_vals, q_vals.clone()).enumerate() {
 				let p_i32 = p.val() as i32;
 				let q_i32 = q.val() as i32;
-				let div = p_i32 / q_i32;
+				ensure!(q_i32 != 0, "division by zero in row {i}");
+				let div = p_i32
+					.checked_div(q_i32)
+					.ok_or_else(|| anyhow!("the quotient in row {i} does not fit in an i32"))?;
 				let rem = p_i32 % q_i32;
 				let abs_rem_b64 = if rem < 0 {
 					B64::new((-rem) as u64)
-- 
2.43.0


From 405872033693b694d3658cc07026383fe4837820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 53/86] fix: BitAnd filled only the first value of each row of
 a stacked column

---
 crates/m3/src/gadgets/indexed_lookup/and.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/indexed_lookup/and.rs b/crates/m3/src/gadgets/indexed_lookup/and.rs
index 5f41388..c9f107c 100644
--- a/crates/m3/src/gadgets/indexed_lookup/and.rs
+++ b/crates/m3/src/gadgets/indexed_lookup/and.rs
@@ -82,7 +82,7 @@ impl<const V: usize> BitAnd<V> {
 		let mut output_col: std::cell::RefMut<'_, [B8]> = witness.get_scalars_mut(self.output)?;
 		let mut merged_col: std::cell::RefMut<'_, [B32]> = witness.get_scalars_mut(self.merged)?;
 
-		for i in 0..witness.size() {
+		for i in 0..witness.size() * V {
 			let in_a = in_a_col[i].val();
 			let in_b = in_b_col[i].val();
 			let output = in_a & in_b;
-- 
2.43.0


From b80dd4eaba0da6c6ed2106ca3924659024efa3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 54/86] fix: Groestl read_state_outs returned log2 of the
 number of states

---
 crates/m3/src/gadgets/hash/groestl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/hash/groestl.rs b/crates/m3/src/gadgets/hash/groestl.rs
index c33d087..666f38a 100644
--- a/crates/m3/src/gadgets/hash/groestl.rs
+++ b/crates/m3/src/gadgets/hash/groestl.rs
@@ -133,7 +133,7 @@ impl Permutation {
 		let state_out = self
 			.state_out()
 			.try_map_ext(|state_out_i| index.get(state_out_i))?;
-		let iter = (0..index.log_size()).map(move |k| {
+		let iter = (0..index.size()).map(move |k| {
 			array::from_fn(|ij| {
 				let i = ij % 8;
 				let j = ij / 8;
-- 
2.43.0


From 81704d83ed47c285ff523c45f8fc812c015f909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:37 +0000
Subject: [PATCH 55/86] fix: tally counted reads made with a multiplicity only
 once

---
 crates/m3/src/builder/indexed_lookup.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/m3/src/builder/indexed_lookup.rs b/crates/m3/src/builder/indexed_lookup.rs
index 33b01f0..716406c 100644
--- a/crates/m3/src/builder/indexed_lookup.rs
+++ b/crates/m3/src/builder/indexed_lookup.rs
@@ -97,7 +97,7 @@ where
 								*elem = col.get(i);
 							}
 							let index = indexed_lookup.entry_to_index(&elems);
-							counts[index] += 1;
+							counts[index] += flush.multiplicity;
 						}
 					}
 				}
@@ -109,7 +109,8 @@ where
 	for boundary in boundaries {
 		if boundary.channel_id == chan && boundary.direction == FlushDirection::Pull {
 			let index = indexed_lookup.entry_to_index(&boundary.values);
-			counts[index] += 1;
+			counts[index] +=
+				u32::try_from(boundary.multiplicity).expect("read counts must fit into 32 bits");
 		}
 	}
 
-- 
2.43.0


From 96a28b656054018a5069e884a6a3bcbb26e96a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:23 +0000
Subject: [PATCH 56/86] fix: FRI folding of packed codewords whose chunks are
 less than a packed element

---
 crates/ntt/src/fri.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..55fc427 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -41,6 +41,15 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert!(challenges.len() >= log_batch_size);
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
+	// A chunk folding to one value, or the values at one position of the interleaved codewords, can
+	// be less than a packed element. Fold the scalars in that case.
+	if challenges.len() < P::LOG_WIDTH || (log_batch_size != 0 && log_batch_size < P::LOG_WIDTH) {
+		let scalars = P::iter_slice(codeword)
+			.take(1 << (log_len + log_batch_size))
+			.collect::<Vec<F>>();
+		return fold_interleaved_allocated(ntt, &scalars, challenges, log_len, log_batch_size, out);
+	}
+
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
 	let tensor = MultilinearQuery::expand(interleave_challenges);
 
-- 
2.43.0


From 6af572932956ff82ae9fd37fdffd254cc2fca6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:23 +0000
Subject: [PATCH 57/86] fix: Reed-Solomon encoding of messages shorter than a
 packed element

---
 crates/core/src/reed_solomon/reed_solomon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index 5e731c1..acd0f4e 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -131,7 +131,7 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 
 		// First, if the message is less than the packing width, we need to repeat it to fill one
 		// packed element.
-		if self.dim() + log_batch_size < P::LOG_WIDTH {
+		if self.log_dim() + log_batch_size < P::LOG_WIDTH {
 			let repeated_values = code[0]
 				.into_iter()
 				.take(1 << (self.log_dim() + log_batch_size))
-- 
2.43.0


From 7dd165a17f25cc675dd05a318e844837a9b84a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 58/86] fix: FRI parameters for codes of rate one chose zero
 queries

---
 crates/core/src/protocols/fri/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index 7cb6b78..1278599 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -211,7 +211,9 @@ where
 	// 2^{ℓ' + R} / |T_{τ}|
 	let per_query_err = 0.5 * (1f64 + 2.0f64.powi(-(code.log_inv_rate() as i32)));
 	let allowed_query_err = 2.0_f64.powi(-(security_bits as i32)) - sumcheck_err - folding_err;
-	if allowed_query_err <= 0.0 {
+	// No number of queries reduces the error if a single query has error one, which is the case for
+	// codes of rate one.
+	if allowed_query_err <= 0.0 || per_query_err >= 1.0 {
 		return Err(Error::ParameterError);
 	}
 	let n_queries = allowed_query_err.log(per_query_err).ceil() as usize;
-- 
2.43.0


From 73380cebdda9b78e1c368dbda4f06f64336cc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 59/86] fix: FRI query count for security levels that do not
 fit 32 bits

---
 crates/core/src/protocols/fri/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index 1278599..8ad03bd 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -210,7 +210,7 @@ where
 	let folding_err = code.len() as f64 / field_size;
 	// 2^{ℓ' + R} / |T_{τ}|
 	let per_query_err = 0.5 * (1f64 + 2.0f64.powi(-(code.log_inv_rate() as i32)));
-	let allowed_query_err = 2.0_f64.powi(-(security_bits as i32)) - sumcheck_err - folding_err;
+	let allowed_query_err = (-(security_bits as f64)).exp2() - sumcheck_err - folding_err;
 	// No number of queries reduces the error if a single query has error one, which is the case for
 	// codes of rate one.
 	if allowed_query_err <= 0.0 || per_query_err >= 1.0 {
-- 
2.43.0


From eae2d67431affbf6263fb25d61f61fa820f5a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 60/86] fix: FRIParams::new accepted fold arities the protocol
 cannot run

---
 crates/core/src/protocols/fri/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index 8ad03bd..e921d97 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -47,6 +47,14 @@ where
 		if fold_arities.iter().sum::<usize>() >= rs_code.log_dim() + log_batch_size {
 			bail!(Error::InvalidFoldAritySequence)
 		}
+		// The first fold must cover the interleaved batch, and every fold must reduce the codeword.
+		if fold_arities.contains(&0)
+			|| fold_arities
+				.first()
+				.is_some_and(|&arity| arity < log_batch_size)
+		{
+			bail!(Error::InvalidFoldAritySequence)
+		}
 
 		Ok(Self {
 			rs_code,
-- 
2.43.0


From b368b633aa993493601971b317c0bfa7c9f6a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:24 +0000
Subject: [PATCH 61/86] fix: Reed-Solomon code over a zero-dimensional domain
 panicked

---
 crates/core/src/reed_solomon/reed_solomon.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/reed_solomon/reed_solomon.rs b/crates/core/src/reed_solomon/reed_solomon.rs
index acd0f4e..7237d38 100644
--- a/crates/core/src/reed_solomon/reed_solomon.rs
+++ b/crates/core/src/reed_solomon/reed_solomon.rs
@@ -41,10 +41,11 @@ impl<F: BinaryField> ReedSolomonCode<F> {
 		log_dimension: usize,
 		log_inv_rate: usize,
 	) -> Result<Self, Error> {
-		if log_dimension + log_inv_rate > ntt.log_domain_size() {
+		let subspace_dim = log_dimension + log_inv_rate;
+		// The NTT has no zero-dimensional subspace.
+		if subspace_dim == 0 || subspace_dim > ntt.log_domain_size() {
 			return Err(Error::SubspaceDimensionMismatch);
 		}
-		let subspace_dim = log_dimension + log_inv_rate;
 		Self::with_subspace(ntt.subspace(subspace_dim), log_dimension, log_inv_rate)
 	}
 
-- 
2.43.0


From f0f47e745408198c807bdb5387d7018733ee5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:17 +0000
Subject: [PATCH 62/86] fix: FRI parameter choice failed when few queries need
 no Merkle cap

---
 crates/core/src/protocols/fri/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/protocols/fri/common.rs b/crates/core/src/protocols/fri/common.rs
index e921d97..47a26c2 100644
--- a/crates/core/src/protocols/fri/common.rs
+++ b/crates/core/src/protocols/fri/common.rs
@@ -90,7 +90,8 @@ where
 		let cap_height = log2_ceil_usize(n_test_queries);
 		let fold_arities = std::iter::repeat_n(
 			arity,
-			log_msg_len.saturating_sub(cap_height.saturating_sub(log_inv_rate)) / arity,
+			// At least one variable must be left to fold after the last oracle.
+			log_msg_len.saturating_sub(cap_height.saturating_sub(log_inv_rate).max(1)) / arity,
 		)
 		.collect::<Vec<_>>();
 		// here is the down-to-earth explanation of what we're doing: we want the terminal
-- 
2.43.0


From e174c5278a503a150e5fcc0f64ed1ebdded55d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 63/86] fix: copy_h2d to byte-sliced slices shorter than a
 packed element copied nothing

---
 crates/fast_compute/src/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..e38a1db 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -92,7 +92,7 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 				Ok(())
 			},
 			|packed| {
-				src.par_chunks_exact(P::WIDTH)
+				src.par_chunks(P::WIDTH)
 					.zip(packed.par_iter_mut())
 					.for_each(|(input, output)| {
 						*output = PackedField::from_scalars(input.iter().copied());
-- 
2.43.0


From d98185e85ab4ad0bd9ea8e5dc097bc2aba81e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 64/86] fix: expressions compiled by the fast compute layer
 lost variables optimized away

---
 crates/fast_compute/src/layer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index e38a1db..5defe46 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -157,8 +157,9 @@ impl<T: TowerFamily, P: PackedTop<T>> ComputeLayer<T::B128> for FastCpuLayer<T,
 		&self,
 		expr: &ArithCircuit<T::B128>,
 	) -> Result<<Self::Exec<'_> as ComputeLayerExecutor<T::B128>>::ExprEval, Error> {
-		let expr = ArithCircuitPoly::new(expr.clone());
-		Ok(expr)
+		// The optimized expression may use fewer variables than the original one.
+		ArithCircuitPoly::with_n_vars(expr.n_vars(), expr.clone())
+			.map_err(|err| Error::CoreLibError(Box::new(err)))
 	}
 
 	fn execute<'a, 'b>(
-- 
2.43.0


From ea45339f16c5afd309b2ffa50f732b6190066920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 65/86] fix: fast inner product of slices shorter than a packed
 element summed the unused elements

---
 crates/fast_compute/src/layer.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 5defe46..0f867f1 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -28,7 +28,7 @@ use binius_field::{
 	tower_levels::TowerLevel16,
 	underlier::{NumCast, UnderlierWithBitOps, WithUnderlier},
 	unpack_if_possible, unpack_if_possible_mut,
-	util::inner_product_par,
+	util::{inner_product_par, inner_product_unchecked},
 };
 use binius_math::{ArithCircuit, CompositionPoly, RowsBatchRef, tensor_prod_eq_ind};
 use binius_maybe_rayon::{
@@ -311,9 +311,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		a_in: SubfieldSlice<'_, T::B128, Self::DevMem>,
 		b_in: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 	) -> Result<Self::OpValue, Error> {
-		if a_in.slice.len() << (<T::B128 as ExtensionField<T::B1>>::LOG_DEGREE - a_in.tower_level)
-			!= b_in.len()
-		{
+		check_tower_level::<T>(a_in.tower_level)?;
+		if a_in.len() != b_in.len() {
 			return Err(Error::InputValidation(
 				"precondition: a_in and b_in must have the same length".to_string(),
 			));
@@ -322,14 +321,23 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		fn inner_product_par_impl<FSub: Field, P: PackedExtension<FSub>>(
 			a_in: &[P],
 			b_in: &[P],
+			len: usize,
 		) -> P::Scalar {
-			inner_product_par(b_in, PackedExtension::cast_bases(a_in))
+			let a_in = PackedExtension::cast_bases(a_in);
+			if len < P::WIDTH {
+				// The elements of a packed value beyond the slice length are arbitrary.
+				return inner_product_unchecked(
+					P::iter_slice(b_in).take(len),
+					PackedField::iter_slice(a_in),
+				);
+			}
+			inner_product_par(b_in, a_in)
 		}
 
 		let result = each_tower_subfield!(
 			a_in.tower_level,
 			T,
-			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice())
+			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice(), b_in.len())
 		);
 
 		Ok(result)
@@ -631,6 +639,17 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 	}
 }
 
+/// Checks that the elements of a subfield slice are elements of a subfield of the top field.
+fn check_tower_level<T: TowerFamily>(tower_level: usize) -> Result<(), Error> {
+	let max_tower_level = <T::B128 as ExtensionField<T::B1>>::LOG_DEGREE;
+	if tower_level > max_tower_level {
+		return Err(Error::InputValidation(format!(
+			"tower_level={tower_level} must be at most {max_tower_level}"
+		)));
+	}
+	Ok(())
+}
+
 /// In case when `P1` and `P2` are the same type, this function performs the extrapolation
 /// using the byte-sliced representation of the packed field elements.
 ///
-- 
2.43.0


From 93212d4ba61c2c19ba1dbf8fbbc386ff04aa3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:53 +0000
Subject: [PATCH 66/86] fix: fast tensor expansion accepted buffers shorter
 than the expansion

---
 crates/fast_compute/src/layer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 0f867f1..64906d0 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -349,6 +349,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		coordinates: &[T::B128],
 		data: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if data.len() != 1 << (log_n + coordinates.len()) {
+			return Err(Error::InputValidation(format!("invalid data length: {}", data.len())));
+		}
+
 		tensor_prod_eq_ind(log_n, data.as_slice_mut(), coordinates)
 			.map_err(|_| Error::InputValidation("tensor dimensions are invalid".to_string()))
 	}
-- 
2.43.0


From 553a7936f809cd32db2aaf15767778683b7cb66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:54 +0000
Subject: [PATCH 67/86] fix: compute layer folds panicked on mismatched
 dimensions and on levels above the top field

---
 crates/compute/src/cpu/layer.rs  | 16 ++++++++++++++++
 crates/fast_compute/src/layer.rs | 14 ++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..b9fdd4b 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -248,6 +248,14 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				F::TOWER_LEVEL
 			)));
 		}
+		if mat.is_empty() || mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"invalid fold dimensions: |mat|={} |vec|={} |out|={}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 		let log_evals_size = mat.slice.len().ilog2() as usize + F::TOWER_LEVEL - mat.tower_level;
 		// Dispatch to the binary field of type T corresponding to the tower level of the evals
 		// slice.
@@ -270,6 +278,14 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 				F::TOWER_LEVEL
 			)));
 		}
+		if mat.is_empty() || mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(format!(
+				"invalid fold dimensions: |mat|={} |vec|={} |out|={}",
+				mat.len(),
+				vec.len(),
+				out.len()
+			)));
+		}
 		let log_evals_size = mat.slice.len().ilog2() as usize + F::TOWER_LEVEL - mat.tower_level;
 		// Dispatch to the binary field of type T corresponding to the tower level of the evals
 		// slice.
diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 64906d0..680fb5d 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -402,12 +402,19 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_tower_level::<T>(mat.tower_level)?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(
+				"the length of `mat` must be the product of the lengths of `vec` and `out`"
+					.to_string(),
+			));
+		}
 
 		let out = binius_utils::mem::slice_uninit_mut(out.as_slice_mut());
 
@@ -444,12 +451,19 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		vec: <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSlice<'_>,
 		out: &mut <Self::DevMem as binius_compute::memory::ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		check_tower_level::<T>(mat.tower_level)?;
 		let log_evals_size = strict_log_2(mat.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `mat` must be a power of 2".to_string())
 		})?;
 		let log_query_size = strict_log_2(vec.len()).ok_or_else(|| {
 			Error::InputValidation("the length of `vec` must be a power of 2".to_string())
 		})?;
+		if mat.len() != vec.len() * out.len() {
+			return Err(Error::InputValidation(
+				"the length of `mat` must be the product of the lengths of `vec` and `out`"
+					.to_string(),
+			));
+		}
 
 		fn fold_right<FSub: Field, P: PackedExtension<FSub>>(
 			mat: &[P],
-- 
2.43.0


From f3e3d8f73ddd62b04a934c4703a85ce055517c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 68/86] fix: fast fri_fold failed on short outputs and folded
 its output buffer in byte-sliced memory

---
 crates/fast_compute/src/layer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 680fb5d..183c206 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -505,6 +505,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
+		let out_len = data_out.len();
 		unpack_if_possible_mut(
 			data_out.as_slice_mut(),
 			|out| {
@@ -514,15 +515,14 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					challenges,
 					log_len,
 					log_batch_size,
-					out,
+					&mut out[..out_len],
 				);
 			},
 			|packed| {
-				let mut out_scalars =
-					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
+				let mut out_scalars = zeroed_vec(out_len);
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					data_in.as_slice(),
 					challenges,
 					log_len,
 					log_batch_size,
-- 
2.43.0


From 31ede328de6309929fb2b397f866a3c5f38d6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 69/86] fix: fast compute_composite failed on slices shorter
 than a packed element and on uneven chunks

---
 crates/fast_compute/src/layer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 183c206..c29f9c8 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -595,21 +595,21 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			.map(|slice| slice.as_slice())
 			.collect::<Vec<_>>();
 
-		let log_chunks = get_log_max_threads() + 1;
-
-		let chunk_size = (output.len() >> log_chunks).max(1);
+		let output = output.as_slice_mut();
+		let packed_row_len = output.len();
 
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		let log_chunks = get_log_max_threads() + 1;
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
 
+		// Safety: all rows have the same length as the output.
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
 		output
-			.as_slice_mut()
 			.par_chunks_mut(chunk_size)
 			.enumerate()
 			.for_each(|(chunk_idx, output_chunk)| {
 				let offset = chunk_idx * chunk_size;
-				let rows = rows_batch.columns_subrange(offset..offset + chunk_size);
+				let rows = rows_batch.columns_subrange(offset..offset + output_chunk.len());
 
 				composition
 					.batch_evaluate(&rows, output_chunk)
-- 
2.43.0


From c955896db93900c3a87119885cc09a54d6508a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:32 +0000
Subject: [PATCH 70/86] fix: kernel scratchpads kept the data of kernels
 executed before

---
 crates/compute/src/cpu/layer.rs  | 2 ++
 crates/fast_compute/src/layer.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index b9fdd4b..8f6e647 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -143,6 +143,8 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 		let total_alloc = count_total_local_buffer_sizes(&mem_maps, log_chunks);
 		let mut local_buffer = zeroed_vec(total_alloc);
 		let iter = (0..1 << log_chunks).map(move |i| {
+			// The buffer may hold the data of the kernels executed before.
+			local_buffer.fill(F::ZERO);
 			let local_buffer_alloc = BumpAllocator::new(local_buffer.as_mut());
 			let kernel_data =
 				Self::map_kernel_mem(&mut mem_maps, &local_buffer_alloc, log_chunks, i);
diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index c29f9c8..032a343 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -270,6 +270,8 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 				if buffer.len() < total_alloc {
 					buffer.resize(total_alloc, P::zero());
 				}
+				// The buffer may hold the data of the kernels executed before.
+				buffer[..total_alloc].fill(P::zero());
 
 				let buffer = PackedMemorySliceMut::new_slice(&mut buffer);
 				let allocator = BumpAllocator::<T::B128, PackedMemory<P>>::new(buffer);
-- 
2.43.0


From beb179f2f6de0795d924664158f6df3cc7b19c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 71/86] fix: CpuLayer::map_kernels dropped the errors of its
 kernels

---
 crates/compute/src/cpu/layer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 8f6e647..a4ae43d 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -200,8 +200,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
-- 
2.43.0


From b80b3f1b86e5cef9f59f547c274c2ffbae22fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 72/86] fix: allocation of an empty slice panicked and took the
 allocator down

---
 crates/compute/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/compute/src/alloc.rs b/crates/compute/src/alloc.rs
index 23e8b0b..d9dd843 100644
--- a/crates/compute/src/alloc.rs
+++ b/crates/compute/src/alloc.rs
@@ -77,8 +77,9 @@ where
 			// buffer contains Some, invariant restored
 			Err(Error::OutOfMemory)
 		} else {
-			let (mut lhs, rhs) = Mem::split_at_mut(buffer, n.max(Mem::ALIGNMENT));
-			if n < Mem::ALIGNMENT {
+			let aligned_n = if n == 0 { 0 } else { n.max(Mem::ALIGNMENT) };
+			let (mut lhs, rhs) = Mem::split_at_mut(buffer, aligned_n);
+			if n < aligned_n {
 				assert!(n.is_power_of_two(), "n must be a power of two");
 				for _ in checked_log_2(n)..checked_log_2(Mem::ALIGNMENT) {
 					(lhs, _) = Mem::split_half_mut(lhs)
-- 
2.43.0


From 23e4ec696429d29f5e0cb617ce8f74e638d6afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:34 +0000
Subject: [PATCH 73/86] fix: slice_power_of_two_mut panicked on slices whose
 length is not a power of two

---
 crates/compute/src/memory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/compute/src/memory.rs b/crates/compute/src/memory.rs
index f7ed13b..cb24b5f 100644
--- a/crates/compute/src/memory.rs
+++ b/crates/compute/src/memory.rs
@@ -219,8 +219,9 @@ pub trait ComputeMemory<F> {
 			return Self::to_owned_mut(input);
 		}
 
-		let mut result = if n > Self::ALIGNMENT {
-			Self::slice_mut(input, ..n)
+		let aligned_n = n.max(Self::ALIGNMENT);
+		let mut result = if aligned_n < input.len() {
+			Self::slice_mut(input, ..aligned_n)
 		} else {
 			Self::to_owned_mut(input)
 		};
-- 
2.43.0


From 9d7a6c694e86ceb4bb824a279b35ede007b82917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 74/86] fix: MultilinearExtensionTransparent was deserialized
 as another polynomial

It wrote its packed field elements reinterpreted as elements of the large field,
lost its number of variables, and the deserializer panicked on lengths that are
not a power of two.
---
 .../src/transparent/multilinear_extension.rs  | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..4c6a371 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -10,7 +10,10 @@ use binius_field::{
 use binius_hal::{ComputationBackendExt, make_portable_backend};
 use binius_macros::erased_serialize_bytes;
 use binius_math::{MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly};
-use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, SerializeBytes};
+use binius_utils::{
+	DeserializeBytes, SerializationError, SerializationMode, SerializeBytes,
+	checked_arithmetics::log2_strict_usize,
+};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -44,12 +47,13 @@ where
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		let elems = (0..1 << self.data.n_vars())
+			.map(|i| {
+				self.data
+					.evaluate_on_hypercube(i)
+					.expect("index is less than the hypercube size")
+			})
+			.collect::<Vec<_>>();
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -62,22 +66,28 @@ inventory::submit! {
 			type F = BinaryField128b;
 			type P = PackedType<U, F>;
 			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
+			if !hypercube_evals.len().is_power_of_two() {
+				return Err(SerializationError::InvalidConstruction {
+					name: "MultilinearExtensionTransparent",
+				});
+			}
+			let n_vars = log2_strict_usize(hypercube_evals.len());
 			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
+				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(pack_slice(&hypercube_evals), n_vars).unwrap())
 			};
 			Ok(result)
 		}
-- 
2.43.0


From 03ce47c7ce188b5fc787037395401f69a31e04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 75/86] fix: deserialization of ArithCircuit accepted steps
 that use results of later steps

Such circuits panic when they are used, already during deserialization of
ArithCircuitPoly.
---
 crates/math/src/arith_expr.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index 8ac5a17..abc8193 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -12,6 +12,7 @@ use std::{
 
 use binius_field::{Field, PackedField, TowerField};
 use binius_macros::{DeserializeBytes, SerializeBytes};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bytes::Buf};
 
 use super::error::Error;
 
@@ -220,11 +221,35 @@ impl<F: Field> Default for ArithCircuitStep<F> {
 /// We store a tree in a form of a simple circuit.
 /// This implementation isn't optimized for performance, but rather for simplicity
 /// to allow easy conversion and preservation of the common subexpressions
-#[derive(Clone, Debug, SerializeBytes, DeserializeBytes, Eq)]
+#[derive(Clone, Debug, SerializeBytes, Eq)]
 pub struct ArithCircuit<F: Field> {
 	steps: Vec<ArithCircuitStep<F>>,
 }
 
+impl<F: Field> DeserializeBytes for ArithCircuit<F> {
+	fn deserialize(read_buf: impl Buf, mode: SerializationMode) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let steps = Vec::<ArithCircuitStep<F>>::deserialize(read_buf, mode)?;
+
+		// Every step may only use the results of previous steps.
+		let is_valid = steps.iter().enumerate().all(|(i, step)| match *step {
+			ArithCircuitStep::Add(left, right) | ArithCircuitStep::Mul(left, right) => {
+				left < i && right < i
+			}
+			ArithCircuitStep::Pow(base, _) => base < i,
+			ArithCircuitStep::Const(_) | ArithCircuitStep::Var(_) => true,
+		});
+		if steps.is_empty() || !is_valid {
+			return Err(SerializationError::InvalidConstruction {
+				name: "ArithCircuit",
+			});
+		}
+		Ok(Self { steps })
+	}
+}
+
 impl<F: Field> ArithCircuit<F> {
 	pub fn var(index: usize) -> Self {
 		Self {
-- 
2.43.0


From a03bbfcdee1bee07646717e66e16003763426963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 76/86] fix: ArithCircuit::degree took exponential time on
 shared steps and overflowed

---
 crates/math/src/arith_expr.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index abc8193..f585ab9 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -285,21 +285,18 @@ impl<F: Field> ArithCircuit<F> {
 
 	/// The total degree of the polynomial the expression represents.
 	pub fn degree(&self) -> usize {
-		fn step_degree<F: Field>(step: usize, steps: &[ArithCircuitStep<F>]) -> usize {
-			match steps[step] {
+		let mut degrees = Vec::<usize>::with_capacity(self.steps.len());
+		for step in &self.steps {
+			degrees.push(match *step {
 				ArithCircuitStep::Const(_) => 0,
 				ArithCircuitStep::Var(_) => 1,
-				ArithCircuitStep::Add(left, right) => {
-					step_degree(left, steps).max(step_degree(right, steps))
-				}
-				ArithCircuitStep::Mul(left, right) => {
-					step_degree(left, steps) + step_degree(right, steps)
-				}
-				ArithCircuitStep::Pow(base, exp) => step_degree(base, steps) * (exp as usize),
-			}
+				ArithCircuitStep::Add(left, right) => degrees[left].max(degrees[right]),
+				ArithCircuitStep::Mul(left, right) => degrees[left].saturating_add(degrees[right]),
+				ArithCircuitStep::Pow(base, exp) => degrees[base].saturating_mul(exp as usize),
+			});
 		}
 
-		step_degree(self.steps.len() - 1, &self.steps)
+		degrees[self.steps.len() - 1]
 	}
 
 	/// The number of variables the expression contains.
-- 
2.43.0


From 5e8a683878a9b44688a7979f32af77abfe517469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 77/86] fix: ArithCircuit as a transparent polynomial could not
 be read back

It was serialized without the name that the deserializer looks up.
---
 crates/core/src/polynomial/multivariate.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/polynomial/multivariate.rs b/crates/core/src/polynomial/multivariate.rs
index 99cf19d..93e5803 100644
--- a/crates/core/src/polynomial/multivariate.rs
+++ b/crates/core/src/polynomial/multivariate.rs
@@ -3,11 +3,12 @@
 use std::{borrow::Borrow, fmt::Debug, iter::repeat_with, marker::PhantomData, sync::Arc};
 
 use auto_impl::auto_impl;
-use binius_field::{Field, PackedField, TowerField};
+use binius_field::{BinaryField128b, Field, PackedField, TowerField};
+use binius_macros::erased_serialize_bytes;
 use binius_math::{
 	ArithCircuit, CompositionPoly, MLEDirectAdapter, MultilinearPoly, MultilinearQueryRef,
 };
-use binius_utils::{SerializationError, SerializationMode, SerializeBytes as _, bail};
+use binius_utils::{DeserializeBytes as _, SerializationError, SerializationMode, bail};
 use bytes::BufMut;
 use itertools::Itertools;
 use rand::{SeedableRng, rngs::StdRng};
@@ -77,6 +78,14 @@ impl<P: PackedField> CompositionPoly<P> for IdentityCompositionPoly {
 	}
 }
 
+inventory::submit! {
+	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
+		"ArithCircuit",
+		|buf, mode| Ok(Box::new(ArithCircuit::<BinaryField128b>::deserialize(&mut *buf, mode)?))
+	)
+}
+
+#[erased_serialize_bytes]
 impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn n_vars(&self) -> usize {
 		self.n_vars()
@@ -93,14 +102,6 @@ impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn binary_tower_level(&self) -> usize {
 		self.binary_tower_level()
 	}
-
-	fn erased_serialize(
-		&self,
-		write_buf: &mut dyn BufMut,
-		mode: SerializationMode,
-	) -> Result<(), SerializationError> {
-		self.serialize(write_buf, mode)
-	}
 }
 
 /// An adapter that constructs a [`CompositionPoly`] for a field from a [`CompositionPoly`] for a
-- 
2.43.0


From 0bae6289472b6f9999152142dc1d7dbc29ea15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 78/86] fix: deserialized transparent polynomials skipped the
 checks of their constructors

---
 crates/core/src/transparent/constant.rs    | 28 +++++++++++++++++++---
 crates/core/src/transparent/select_row.rs  | 24 ++++++++++++++++---
 crates/core/src/transparent/step_down.rs   | 24 ++++++++++++++++---
 crates/core/src/transparent/step_up.rs     | 24 ++++++++++++++++---
 crates/core/src/transparent/tower_basis.rs | 21 +++++++++++++---
 5 files changed, 106 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/transparent/constant.rs b/crates/core/src/transparent/constant.rs
index 4f778d3..82d1e1d 100644
--- a/crates/core/src/transparent/constant.rs
+++ b/crates/core/src/transparent/constant.rs
@@ -1,19 +1,41 @@
 // Copyright 2024-2025 Irreducible Inc.
 
 use binius_field::{BinaryField128b, ExtensionField, TowerField};
-use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
-use binius_utils::{DeserializeBytes, bail};
+use binius_macros::{SerializeBytes, erased_serialize_bytes};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
 /// A constant polynomial.
-#[derive(Debug, Copy, Clone, SerializeBytes, DeserializeBytes)]
+#[derive(Debug, Copy, Clone, SerializeBytes)]
 pub struct Constant<F: TowerField> {
 	n_vars: usize,
 	value: F,
 	tower_level: usize,
 }
 
+impl<F: TowerField> DeserializeBytes for Constant<F> {
+	fn deserialize(
+		mut read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let n_vars = usize::deserialize(&mut read_buf, mode)?;
+		let value = F::deserialize(&mut read_buf, mode)?;
+		let tower_level = usize::deserialize(&mut read_buf, mode)?;
+		if tower_level > F::TOWER_LEVEL || value.min_tower_level() > tower_level {
+			return Err(SerializationError::InvalidConstruction { name: "Constant" });
+		}
+		Ok(Self {
+			n_vars,
+			value,
+			tower_level,
+		})
+	}
+}
+
 inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"Constant",
diff --git a/crates/core/src/transparent/select_row.rs b/crates/core/src/transparent/select_row.rs
index 60f2019..1c40eb2 100644
--- a/crates/core/src/transparent/select_row.rs
+++ b/crates/core/src/transparent/select_row.rs
@@ -1,9 +1,9 @@
 // Copyright 2024-2025 Irreducible Inc.
 
 use binius_field::{BinaryField1b, BinaryField128b, Field, PackedField, packed::set_packed_slice};
-use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
+use binius_macros::{SerializeBytes, erased_serialize_bytes};
 use binius_math::MultilinearExtension;
-use binius_utils::{DeserializeBytes, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -19,12 +19,30 @@ use crate::polynomial::{Error, MultivariatePoly};
 /// ```
 ///
 /// This is useful for defining boundary constraints
-#[derive(Debug, Clone, SerializeBytes, DeserializeBytes)]
+#[derive(Debug, Clone, SerializeBytes)]
 pub struct SelectRow {
 	n_vars: usize,
 	index: usize,
 }
 
+impl DeserializeBytes for SelectRow {
+	fn deserialize(
+		mut read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let n_vars = usize::deserialize(&mut read_buf, mode)?;
+		let index = usize::deserialize(&mut read_buf, mode)?;
+		if n_vars >= usize::BITS as usize {
+			return Err(SerializationError::InvalidConstruction { name: "SelectRow" });
+		}
+		Self::new(n_vars, index)
+			.map_err(|_| SerializationError::InvalidConstruction { name: "SelectRow" })
+	}
+}
+
 inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"SelectRow",
diff --git a/crates/core/src/transparent/step_down.rs b/crates/core/src/transparent/step_down.rs
index 9be8e6c..8d6b041 100644
--- a/crates/core/src/transparent/step_down.rs
+++ b/crates/core/src/transparent/step_down.rs
@@ -1,9 +1,9 @@
 // Copyright 2024-2025 Irreducible Inc.
 
 use binius_field::{BinaryField128b, Field, PackedField};
-use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
+use binius_macros::{SerializeBytes, erased_serialize_bytes};
 use binius_math::MultilinearExtension;
-use binius_utils::{DeserializeBytes, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -21,12 +21,30 @@ use crate::polynomial::{Error, MultivariatePoly};
 /// ```
 ///
 /// This is useful for making constraints that are not enforced at the last rows of the trace
-#[derive(Debug, Clone, SerializeBytes, DeserializeBytes)]
+#[derive(Debug, Clone, SerializeBytes)]
 pub struct StepDown {
 	n_vars: usize,
 	index: usize,
 }
 
+impl DeserializeBytes for StepDown {
+	fn deserialize(
+		mut read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let n_vars = usize::deserialize(&mut read_buf, mode)?;
+		let index = usize::deserialize(&mut read_buf, mode)?;
+		if n_vars >= usize::BITS as usize {
+			return Err(SerializationError::InvalidConstruction { name: "StepDown" });
+		}
+		Self::new(n_vars, index)
+			.map_err(|_| SerializationError::InvalidConstruction { name: "StepDown" })
+	}
+}
+
 inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"StepDown",
diff --git a/crates/core/src/transparent/step_up.rs b/crates/core/src/transparent/step_up.rs
index 987f44d..1a6127d 100644
--- a/crates/core/src/transparent/step_up.rs
+++ b/crates/core/src/transparent/step_up.rs
@@ -1,9 +1,9 @@
 // Copyright 2024-2025 Irreducible Inc.
 
 use binius_field::{BinaryField128b, Field, PackedField};
-use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
+use binius_macros::{SerializeBytes, erased_serialize_bytes};
 use binius_math::MultilinearExtension;
-use binius_utils::{DeserializeBytes, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -21,12 +21,30 @@ use crate::polynomial::{Error, MultivariatePoly};
 /// ```
 ///
 /// This is useful for making constraints that are not enforced at the first rows of the trace
-#[derive(Debug, Clone, SerializeBytes, DeserializeBytes)]
+#[derive(Debug, Clone, SerializeBytes)]
 pub struct StepUp {
 	n_vars: usize,
 	index: usize,
 }
 
+impl DeserializeBytes for StepUp {
+	fn deserialize(
+		mut read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let n_vars = usize::deserialize(&mut read_buf, mode)?;
+		let index = usize::deserialize(&mut read_buf, mode)?;
+		if n_vars >= usize::BITS as usize {
+			return Err(SerializationError::InvalidConstruction { name: "StepUp" });
+		}
+		Self::new(n_vars, index)
+			.map_err(|_| SerializationError::InvalidConstruction { name: "StepUp" })
+	}
+}
+
 inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"StepUp",
diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 22a2441..d206caa 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -3,9 +3,9 @@
 use std::marker::PhantomData;
 
 use binius_field::{BinaryField128b, Field, PackedField, TowerField};
-use binius_macros::{DeserializeBytes, SerializeBytes, erased_serialize_bytes};
+use binius_macros::{SerializeBytes, erased_serialize_bytes};
 use binius_math::MultilinearExtension;
-use binius_utils::{DeserializeBytes, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 
 use crate::polynomial::{Error, MultivariatePoly};
 
@@ -22,13 +22,28 @@ use crate::polynomial::{Error, MultivariatePoly};
 /// Thus, $\mathcal{T}_{\iota+k}$ has a $\mathcal{T}_{\iota}$-basis of size $2^k$:
 /// * $1, X_{\iota}, X_{\iota+1}, X_{\iota}X_{\iota+1}, X_{\iota+2}, \ldots, X_{\iota} X_{\iota+1}
 ///   \ldots X_{\iota+k-1}$
-#[derive(Debug, Copy, Clone, SerializeBytes, DeserializeBytes)]
+#[derive(Debug, Copy, Clone, SerializeBytes)]
 pub struct TowerBasis<F: Field> {
 	k: usize,
 	iota: usize,
 	_marker: PhantomData<F>,
 }
 
+impl<F: TowerField> DeserializeBytes for TowerBasis<F> {
+	fn deserialize(
+		mut read_buf: impl bytes::Buf,
+		mode: SerializationMode,
+	) -> Result<Self, SerializationError>
+	where
+		Self: Sized,
+	{
+		let k = usize::deserialize(&mut read_buf, mode)?;
+		let iota = usize::deserialize(&mut read_buf, mode)?;
+		Self::new(k, iota)
+			.map_err(|_| SerializationError::InvalidConstruction { name: "TowerBasis" })
+	}
+}
+
 inventory::submit! {
 	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
 		"TowerBasis",
-- 
2.43.0


From 1c06da5cb07401a2f63d4bbcee3ab84b1431938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:07 +0000
Subject: [PATCH 79/86] fix: serialization of OracleId truncated indices that
 do not fit

---
 crates/core/src/oracle/oracle_id.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/core/src/oracle/oracle_id.rs b/crates/core/src/oracle/oracle_id.rs
index d2d0c7e..dcfbbbe 100644
--- a/crates/core/src/oracle/oracle_id.rs
+++ b/crates/core/src/oracle/oracle_id.rs
@@ -38,8 +38,7 @@ impl SerializeBytes for OracleId {
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let index: u32 = self.0 as u32;
-		u32::serialize(&index, write_buf, mode)
+		usize::serialize(&self.0, write_buf, mode)
 	}
 }
 impl DeserializeBytes for OracleId {
-- 
2.43.0


From 51a218fa84a30abd56f09b8e6266a9d9939dd4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:53 +0000
Subject: [PATCH 80/86] fix: the serial ParallelIterator::intersperse appended
 the element after the last item

---
 crates/maybe_rayon/src/iter/parallel_iterator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/maybe_rayon/src/iter/parallel_iterator.rs b/crates/maybe_rayon/src/iter/parallel_iterator.rs
index 523decc..5016cf8 100644
--- a/crates/maybe_rayon/src/iter/parallel_iterator.rs
+++ b/crates/maybe_rayon/src/iter/parallel_iterator.rs
@@ -4,7 +4,7 @@
 use std::{
 	cmp::Ordering,
 	collections::LinkedList,
-	iter::{Product, Sum},
+	iter::{Peekable, Product, Sum},
 	ops::{ControlFlow, Deref},
 };
 
@@ -527,7 +527,7 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 		Self::Item: Clone,
 	{
 		struct Intersperse<I: Iterator> {
-			iter: I,
+			iter: Peekable<I>,
 			element: I::Item,
 			insert: bool,
 		}
@@ -537,9 +537,9 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 			I: Iterator,
 			I::Item: Clone,
 		{
-			const fn new(iter: I, element: I::Item) -> Self {
+			fn new(iter: I, element: I::Item) -> Self {
 				Self {
-					iter,
+					iter: iter.peekable(),
 					element,
 					insert: false,
 				}
@@ -554,7 +554,8 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 			type Item = I::Item;
 
 			fn next(&mut self) -> Option<Self::Item> {
-				if self.insert {
+				// the element goes between two items, so only when another one follows
+				if self.insert && self.iter.peek().is_some() {
 					self.insert = false;
 					Some(self.element.clone())
 				} else {
-- 
2.43.0


From 1cc59246473c08e6d36cf8e4601565ad305f9e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 81/86] fix: the serial ParallelIterator::filter_map could not
 map to another type, unlike the parallel one

---
 crates/maybe_rayon/src/iter/parallel_iterator.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/maybe_rayon/src/iter/parallel_iterator.rs b/crates/maybe_rayon/src/iter/parallel_iterator.rs
index 5016cf8..2c36eb9 100644
--- a/crates/maybe_rayon/src/iter/parallel_iterator.rs
+++ b/crates/maybe_rayon/src/iter/parallel_iterator.rs
@@ -166,9 +166,9 @@ pub(crate) trait ParallelIteratorInner: Sized + Iterator {
 	}
 
 	#[inline]
-	fn filter_map<P, R>(self, filter_op: P) -> impl ParallelIteratorInner<Item = Self::Item>
+	fn filter_map<P, R>(self, filter_op: P) -> impl ParallelIteratorInner<Item = R>
 	where
-		P: Fn(Self::Item) -> Option<Self::Item>,
+		P: Fn(Self::Item) -> Option<R>,
 	{
 		Iterator::filter_map(self, filter_op)
 	}
@@ -741,14 +741,11 @@ pub trait ParallelIterator: Sized {
 	}
 
 	#[inline]
-	fn filter_map<P, R>(self, filter_op: P) -> impl ParallelIterator<Item = Self::Item>
+	fn filter_map<P, R>(self, filter_op: P) -> impl ParallelIterator<Item = R>
 	where
-		P: Fn(Self::Item) -> Option<Self::Item>,
+		P: Fn(Self::Item) -> Option<R>,
 	{
-		ParallelWrapper::new(ParallelIteratorInner::filter_map::<P, R>(
-			self.into_inner(),
-			filter_op,
-		))
+		ParallelWrapper::new(ParallelIteratorInner::filter_map(self.into_inner(), filter_op))
 	}
 
 	#[inline]
-- 
2.43.0


From c9b141f195a44e53dc1215f441011ad0b22ad437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 82/86] fix: Array2D::rows panicked on an array without columns

---
 crates/utils/src/array_2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/array_2d.rs b/crates/utils/src/array_2d.rs
index 05d9cdb..c366ddc 100644
--- a/crates/utils/src/array_2d.rs
+++ b/crates/utils/src/array_2d.rs
@@ -37,8 +37,8 @@ impl<T: Default + Clone> Array2D<T> {
 
 impl<T, Data: Deref<Target = [T]>> Array2D<T, Data> {
 	/// Returns the number of rows in the array.
-	pub fn rows(&self) -> usize {
-		self.data.len() / self.cols
+	pub const fn rows(&self) -> usize {
+		self.rows
 	}
 
 	/// Returns the number of columns in the array.
-- 
2.43.0


From 946e3a16d867f7abc63fb54cc4b87ea5cd810740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:06 +0000
Subject: [PATCH 83/86] fix: dimension and range checks of array views and
 subranges wrapped around on overflow

---
 crates/utils/src/array_2d.rs               |  4 ++--
 crates/utils/src/random_access_sequence.rs | 14 ++++++++++++--
 crates/utils/src/strided_array.rs          |  9 +++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/utils/src/array_2d.rs b/crates/utils/src/array_2d.rs
index c366ddc..b2378ee 100644
--- a/crates/utils/src/array_2d.rs
+++ b/crates/utils/src/array_2d.rs
@@ -67,7 +67,7 @@ impl<T, Data: Deref<Target = [T]>> Array2D<T, Data> {
 
 	/// View of the array in a different shape, underlying elements stay the same.
 	pub fn reshape(&self, rows: usize, cols: usize) -> Option<Array2D<T, &[T]>> {
-		if rows * cols != self.data.len() {
+		if rows.checked_mul(cols) != Some(self.data.len()) {
 			return None;
 		}
 
@@ -96,7 +96,7 @@ impl<T, Data: DerefMut<Target = [T]>> Array2D<T, Data> {
 
 	/// Mutable view of the array in a different shape, underlying elements stay the same.
 	pub fn reshape_mut(&mut self, rows: usize, cols: usize) -> Option<Array2D<T, &mut [T]>> {
-		if rows * cols != self.data.len() {
+		if rows.checked_mul(cols) != Some(self.data.len()) {
 			return None;
 		}
 
diff --git a/crates/utils/src/random_access_sequence.rs b/crates/utils/src/random_access_sequence.rs
index b19ece1..ab9a4a7 100644
--- a/crates/utils/src/random_access_sequence.rs
+++ b/crates/utils/src/random_access_sequence.rs
@@ -99,7 +99,12 @@ pub struct SequenceSubrange<'a, T: Copy, Inner: RandomAccessSequence<T>> {
 impl<'a, T: Copy, Inner: RandomAccessSequence<T>> SequenceSubrange<'a, T, Inner> {
 	#[inline(always)]
 	pub fn new(inner: &'a Inner, offset: usize, len: usize) -> Self {
-		assert!(offset + len <= inner.len(), "subrange out of bounds");
+		assert!(
+			offset
+				.checked_add(len)
+				.is_some_and(|end| end <= inner.len()),
+			"subrange out of bounds"
+		);
 
 		Self {
 			inner,
@@ -135,7 +140,12 @@ pub struct SequenceSubrangeMut<'a, T: Copy, Inner: RandomAccessSequenceMut<T>> {
 impl<'a, T: Copy, Inner: RandomAccessSequenceMut<T>> SequenceSubrangeMut<'a, T, Inner> {
 	#[inline(always)]
 	pub fn new(inner: &'a mut Inner, offset: usize, len: usize) -> Self {
-		assert!(offset + len <= inner.len(), "subrange out of bounds");
+		assert!(
+			offset
+				.checked_add(len)
+				.is_some_and(|end| end <= inner.len()),
+			"subrange out of bounds"
+		);
 
 		Self {
 			inner,
diff --git a/crates/utils/src/strided_array.rs b/crates/utils/src/strided_array.rs
index fc0327c..da16c74 100644
--- a/crates/utils/src/strided_array.rs
+++ b/crates/utils/src/strided_array.rs
@@ -28,8 +28,9 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 		height: usize,
 		width: usize,
 	) -> Result<Self, Error> {
-		if width * height != data.len() {
-			return Err(Error::DimensionMismatch);
+		match width.checked_mul(height) {
+			Some(size) if size == data.len() => {}
+			_ => return Err(Error::DimensionMismatch),
 		}
 		Ok(Self {
 			data,
@@ -95,7 +96,7 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 		} = self;
 
 		cols.clone().step_by(stride).map(move |start| {
-			let end = (start + stride).min(cols.end);
+			let end = start.saturating_add(stride).min(cols.end);
 			Self {
 				// Safety: different instances of StridedArray2DViewMut created with the same data
 				// slice do not access overlapping indices.
@@ -117,7 +118,7 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 			.into_par_iter()
 			.step_by(stride)
 			.map(move |start| {
-				let end = (start + stride).min(self.cols.end);
+				let end = start.saturating_add(stride).min(self.cols.end);
 				// We are setting the same lifetime as `self` captures.
 				Self {
 					// Safety: different instances of StridedArray2DViewMut created with the same
-- 
2.43.0


From efaae0d4f6384aed515d37699de7f67bc69bab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 84/86] fix: vertical slices of StridedArray2DViewMut wrote
 through shared and aliasing references

---
 crates/utils/src/strided_array.rs | 87 +++++++++++++++++--------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/crates/utils/src/strided_array.rs b/crates/utils/src/strided_array.rs
index da16c74..f67edad 100644
--- a/crates/utils/src/strided_array.rs
+++ b/crates/utils/src/strided_array.rs
@@ -1,7 +1,9 @@
 // Copyright 2024-2025 Irreducible Inc.
 
-use core::slice;
-use std::ops::{Index, IndexMut, Range};
+use std::{
+	marker::PhantomData,
+	ops::{Index, IndexMut, Range},
+};
 
 use binius_maybe_rayon::prelude::*;
 
@@ -15,12 +17,19 @@ pub enum Error {
 /// vertical slices.
 #[derive(Debug)]
 pub struct StridedArray2DViewMut<'a, T> {
-	data: &'a mut [T],
+	// Vertical slices of the same data interleave in memory, so a view cannot hold a mutable
+	// reference to the whole data: it would alias the references of the other views.
+	data: *mut T,
 	data_width: usize,
 	height: usize,
 	cols: Range<usize>,
+	_marker: PhantomData<&'a mut [T]>,
 }
 
+// Safety: a view gives access to the elements of its columns only, just like `&mut [T]` does.
+unsafe impl<T: Send> Send for StridedArray2DViewMut<'_, T> {}
+unsafe impl<T: Sync> Sync for StridedArray2DViewMut<'_, T> {}
+
 impl<'a, T> StridedArray2DViewMut<'a, T> {
 	/// Create a single-piece view of the data.
 	pub const fn without_stride(
@@ -33,10 +42,11 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 			_ => return Err(Error::DimensionMismatch),
 		}
 		Ok(Self {
-			data,
+			data: data.as_mut_ptr(),
 			data_width: width,
 			height,
 			cols: 0..width,
+			_marker: PhantomData,
 		})
 	}
 
@@ -47,8 +57,9 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 		debug_assert!(i < self.height);
 		debug_assert!(j < self.width());
 		unsafe {
-			self.data
-				.get_unchecked(i * self.data_width + j + self.cols.start)
+			&*self
+				.data
+				.add(i * self.data_width + j + self.cols.start)
 		}
 	}
 
@@ -59,8 +70,9 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 		debug_assert!(i < self.height);
 		debug_assert!(j < self.width());
 		unsafe {
-			self.data
-				.get_unchecked_mut(i * self.data_width + j + self.cols.start)
+			&mut *self
+				.data
+				.add(i * self.data_width + j + self.cols.start)
 		}
 	}
 
@@ -76,7 +88,7 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 	pub fn iter_column_mut(&mut self, col: usize) -> impl Iterator<Item = &mut T> + '_ {
 		assert!(col < self.width());
 		let start = col + self.cols.start;
-		let data_ptr = self.data.as_mut_ptr();
+		let data_ptr = self.data;
 		(0..self.height).map(move |i|
 				// Safety: 
 				// - `data_ptr` points to the start of the data slice.
@@ -85,26 +97,31 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 				unsafe { &mut *data_ptr.add(i * self.data_width + start) })
 	}
 
+	/// Returns a view of the specified columns of the underlying data.
+	///
+	/// # Safety
+	/// The caller must ensure that the columns are within the columns of this view and that no
+	/// other view to the same columns is in use.
+	const unsafe fn columns(&self, cols: Range<usize>) -> Self {
+		Self {
+			data: self.data,
+			data_width: self.data_width,
+			height: self.height,
+			cols,
+			_marker: PhantomData,
+		}
+	}
+
 	/// Returns iterator over vertical slices of the data for the given stride.
 	#[allow(dead_code)]
-	pub fn into_strides(self, stride: usize) -> impl Iterator<Item = Self> + 'a {
-		let Self {
-			data,
-			data_width,
-			height,
-			cols,
-		} = self;
-
-		cols.clone().step_by(stride).map(move |start| {
-			let end = start.saturating_add(stride).min(cols.end);
-			Self {
-				// Safety: different instances of StridedArray2DViewMut created with the same data
-				// slice do not access overlapping indices.
-				data: unsafe { slice::from_raw_parts_mut(data.as_mut_ptr(), data.len()) },
-				data_width,
-				height,
-				cols: start..end,
-			}
+	pub fn into_strides(self, stride: usize) -> impl Iterator<Item = Self> + 'a
+	where
+		T: 'a,
+	{
+		self.cols.clone().step_by(stride).map(move |start| {
+			let end = start.saturating_add(stride).min(self.cols.end);
+			// Safety: the slices do not have columns in common and `self` is not used otherwise.
+			unsafe { self.columns(start..end) }
 		})
 	}
 
@@ -118,18 +135,10 @@ impl<'a, T> StridedArray2DViewMut<'a, T> {
 			.into_par_iter()
 			.step_by(stride)
 			.map(move |start| {
-				let end = start.saturating_add(stride).min(self.cols.end);
-				// We are setting the same lifetime as `self` captures.
-				Self {
-					// Safety: different instances of StridedArray2DViewMut created with the same
-					// data slice do not access overlapping indices.
-					data: unsafe {
-						slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, self.data.len())
-					},
-					data_width: self.data_width,
-					height: self.height,
-					cols: start..end,
-				}
+				let this = &self;
+				let end = start.saturating_add(stride).min(this.cols.end);
+				// Safety: the slices do not have columns in common and `self` is not used otherwise.
+				unsafe { this.columns(start..end) }
 			})
 	}
 }
-- 
2.43.0


From ca0e7a54d54ca5c2ff6b60051daff5e530b075c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 85/86] fix: segments of a table witness were written in
 parallel through shared references

---
 crates/m3/src/builder/witness.rs | 46 ++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/crates/m3/src/builder/witness.rs b/crates/m3/src/builder/witness.rs
index ceab402..136ddb0 100644
--- a/crates/m3/src/builder/witness.rs
+++ b/crates/m3/src/builder/witness.rs
@@ -875,23 +875,34 @@ impl<'a, F: TowerField, P: PackedField<Scalar = F>> TableWitnessSegmentedView<'a
 		// implementation is also possible, which would look similar to that of
 		// `rayon::slice::ChunksMut`. That just requires more code and doesn't seem justified.
 
-		// TODO: clippy error (clippy::mut_from_ref): mutable borrow from immutable input(s)
-		#[allow(clippy::mut_from_ref)]
-		unsafe fn cast_slice_ref_to_mut<T>(slice: &[T]) -> &mut [T] {
-			unsafe { slice::from_raw_parts_mut(slice.as_ptr() as *mut T, slice.len()) }
+		/// Pointer to the packed elements of an exclusively borrowed column.
+		struct ColumnPtr<P>(*mut P);
+
+		// Safety: The segments that are accessed through the pointer are disjoint and have the
+		// semantics of a mutable slice.
+		unsafe impl<P: Send> Send for ColumnPtr<P> {}
+		unsafe impl<P: Send> Sync for ColumnPtr<P> {}
+
+		impl<P> ColumnPtr<P> {
+			/// # Safety
+			///
+			/// The elements must be in bounds of the column, and they must not be accessed in any
+			/// other way while the returned slice is live.
+			unsafe fn segment<'a>(&self, start: usize, len: usize) -> &'a mut [P] {
+				unsafe { slice::from_raw_parts_mut(self.0.add(start), len) }
+			}
 		}
 
-		// Convert cols with mutable references into cols with const refs so that they can be
-		// cloned. Within the loop, we unsafely cast back to mut refs.
+		// Convert cols with mutable references into cols with pointers so that they can be shared.
+		// Within the loop, we unsafely cast the disjoint segments back to mut refs.
 		let cols = cols
 			.into_iter()
-			.map(|col| -> WitnessColumnInfo<(&'a [P], usize)> {
-				match col {
-					WitnessColumnInfo::Owned((data, chunk_size)) => {
-						WitnessColumnInfo::Owned((data, chunk_size))
-					}
-					WitnessColumnInfo::SameAsIndex(id) => WitnessColumnInfo::SameAsIndex(id),
+			.map(|col| match col {
+				WitnessColumnInfo::Owned((data, chunk_size)) => {
+					assert!(data.len() >= n_segments * chunk_size);
+					WitnessColumnInfo::Owned((ColumnPtr(data.as_mut_ptr()), chunk_size))
 				}
+				WitnessColumnInfo::SameAsIndex(id) => WitnessColumnInfo::SameAsIndex(id),
 			})
 			.collect::<Vec<_>>();
 
@@ -902,11 +913,12 @@ impl<'a, F: TowerField, P: PackedField<Scalar = F>> TableWitnessSegmentedView<'a
 					WitnessColumnInfo::SameAsIndex(id) => RefCellData::SameAsIndex(*id),
 					WitnessColumnInfo::Owned((data, chunk_size)) => {
 						RefCellData::Owned(RefCell::new(unsafe {
-							// Safety: The function borrows self mutably, so we have mutable access
-							// to all columns and thus none can be borrowed by anyone else. The
-							// loop is constructed to borrow disjoint segments of each column -- if
-							// this loop were transposed, we would use `chunks_mut`.
-							cast_slice_ref_to_mut(&data[i * chunk_size..(i + 1) * chunk_size])
+							// Safety: The view borrows the columns mutably, so we have mutable
+							// access to all of them and thus none can be borrowed by anyone else.
+							// The loop is constructed to borrow disjoint segments of each column --
+							// if this loop were transposed, we would use `chunks_mut`. The segments
+							// are in bounds by the length assertion above.
+							data.segment(i * chunk_size, *chunk_size)
 						}))
 					}
 				})
-- 
2.43.0


From 466f279092d70ff6da64013b01b6b453538e4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 86/86] fix: Merkle trees built from too few chunks had
 uninitialized digests

---
 .../src/merkle_tree/binary_merkle_tree.rs     | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/merkle_tree/binary_merkle_tree.rs b/crates/core/src/merkle_tree/binary_merkle_tree.rs
index 2594680..d483f9f 100644
--- a/crates/core/src/merkle_tree/binary_merkle_tree.rs
+++ b/crates/core/src/merkle_tree/binary_merkle_tree.rs
@@ -1,6 +1,11 @@
 // Copyright 2024-2025 Irreducible Inc.
 
-use std::{array, fmt::Debug, mem::MaybeUninit};
+use std::{
+	array,
+	fmt::Debug,
+	mem::MaybeUninit,
+	sync::atomic::{AtomicUsize, Ordering},
+};
 
 use binius_field::TowerField;
 use binius_hash::{PseudoCompressionFunction, multi_digest::ParallelDigest};
@@ -204,8 +209,21 @@ where
 	H: ParallelDigest<Digest: BlockSizeUser + FixedOutputReset>,
 	ParIter: IndexedParallelIterator<Item: IntoIterator<Item = F>>,
 {
+	// The digests of missing chunks would be left uninitialized.
+	let n_hashed = AtomicUsize::new(0);
+	let counted_chunks = iterated_chunks.map(|chunk| {
+		n_hashed.fetch_add(1, Ordering::Relaxed);
+		chunk
+	});
+
 	let hasher = H::new();
-	hasher.digest(iterated_chunks, digests);
+	hasher.digest(counted_chunks, digests);
+
+	if n_hashed.into_inner() < digests.len() {
+		bail!(Error::IncorrectVectorLen {
+			expected: digests.len(),
+		});
+	}
 
 	Ok(())
 }
-- 
2.43.0

