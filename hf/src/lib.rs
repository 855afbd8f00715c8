//! Shared pieces of the field/utility harnesses.
pub use binius_field::*;
pub use binius_field::{
	as_packed_field::{PackScalar, PackedType},
	linear_transformation::*,
	packed::*,
	tower_levels,
	underlier::*,
};
pub use vmon::{Case, Mon, Res, clip, ensure, ensure_eq, fail, gf::Rf, guard};

/// A scalar field with its reference model.
pub trait Sc: TowerField<Canonical: From<Self>> {
	const RF: Rf;
	const NAME: &'static str;
	fn u(self) -> u128;
	fn f(v: u128) -> Self;
	fn rnd(c: &mut Case) -> Self {
		Self::f(c.u128_patterned() & Self::RF.mask())
	}
}

macro_rules! sc {
	($($t:ty, $rf:expr, $to:expr, $from:expr;)*) => {$(
		impl Sc for $t {
			const RF: Rf = $rf;
			const NAME: &'static str = stringify!($t);
			fn u(self) -> u128 { ($to)(self.to_underlier()) }
			fn f(v: u128) -> Self { <$t>::from_underlier(($from)(v)) }
		}
	)*};
}
sc! {
	BinaryField1b, Rf::T(0), |x: U1| x.val() as u128, |v| U1::new(v as u8);
	BinaryField2b, Rf::T(1), |x: U2| x.val() as u128, |v| U2::new(v as u8);
	BinaryField4b, Rf::T(2), |x: U4| x.val() as u128, |v| U4::new(v as u8);
	BinaryField8b, Rf::T(3), |x| x as u128, |v| v as u8;
	BinaryField16b, Rf::T(4), |x| x as u128, |v| v as u16;
	BinaryField32b, Rf::T(5), |x| x as u128, |v| v as u32;
	BinaryField64b, Rf::T(6), |x| x as u128, |v| v as u64;
	BinaryField128b, Rf::T(7), |x| x, |v| v;
	AESTowerField8b, Rf::A(3), |x| x as u128, |v| v as u8;
	AESTowerField16b, Rf::A(4), |x| x as u128, |v| v as u16;
	AESTowerField32b, Rf::A(5), |x| x as u128, |v| v as u32;
	AESTowerField64b, Rf::A(6), |x| x as u128, |v| v as u64;
	AESTowerField128b, Rf::A(7), |x| x, |v| v;
	BinaryField128bPolyval, Rf::P, |x| x, |v| v;
}

/// Name of a type without its path.
pub fn tn<T>() -> String {
	let s = std::any::type_name::<T>();
	let mut out = String::new();
	let mut tok = String::new();
	for ch in s.chars() {
		if ch.is_alphanumeric() || ch == '_' {
			tok.push(ch);
		} else if ch == ':' {
			tok.clear();
		} else {
			out.push_str(&tok);
			tok.clear();
			out.push(ch);
		}
	}
	out.push_str(&tok);
	out
}

#[macro_export]
macro_rules! all_scalars {
	($m:ident) => {
		$m!(BinaryField1b); $m!(BinaryField2b); $m!(BinaryField4b); $m!(BinaryField8b);
		$m!(BinaryField16b); $m!(BinaryField32b); $m!(BinaryField64b); $m!(BinaryField128b);
		$m!(AESTowerField8b); $m!(AESTowerField16b); $m!(AESTowerField32b); $m!(AESTowerField64b);
		$m!(AESTowerField128b); $m!(BinaryField128bPolyval);
	};
}

/// (subfield, extension) pairs
#[macro_export]
macro_rules! all_ext_pairs {
	($m:ident) => {
		$m!(BinaryField1b, BinaryField1b); $m!(BinaryField1b, BinaryField2b); $m!(BinaryField1b, BinaryField4b);
		$m!(BinaryField1b, BinaryField8b); $m!(BinaryField1b, BinaryField16b); $m!(BinaryField1b, BinaryField32b);
		$m!(BinaryField1b, BinaryField64b); $m!(BinaryField1b, BinaryField128b);
		$m!(BinaryField2b, BinaryField2b); $m!(BinaryField2b, BinaryField4b); $m!(BinaryField2b, BinaryField8b);
		$m!(BinaryField2b, BinaryField16b); $m!(BinaryField2b, BinaryField32b); $m!(BinaryField2b, BinaryField64b);
		$m!(BinaryField2b, BinaryField128b);
		$m!(BinaryField4b, BinaryField4b); $m!(BinaryField4b, BinaryField8b); $m!(BinaryField4b, BinaryField16b);
		$m!(BinaryField4b, BinaryField32b); $m!(BinaryField4b, BinaryField64b); $m!(BinaryField4b, BinaryField128b);
		$m!(BinaryField8b, BinaryField8b); $m!(BinaryField8b, BinaryField16b); $m!(BinaryField8b, BinaryField32b);
		$m!(BinaryField8b, BinaryField64b); $m!(BinaryField8b, BinaryField128b);
		$m!(BinaryField16b, BinaryField16b); $m!(BinaryField16b, BinaryField32b); $m!(BinaryField16b, BinaryField64b);
		$m!(BinaryField16b, BinaryField128b);
		$m!(BinaryField32b, BinaryField32b); $m!(BinaryField32b, BinaryField64b); $m!(BinaryField32b, BinaryField128b);
		$m!(BinaryField64b, BinaryField64b); $m!(BinaryField64b, BinaryField128b);
		$m!(BinaryField128b, BinaryField128b);
		$m!(BinaryField1b, AESTowerField8b); $m!(BinaryField1b, AESTowerField16b); $m!(BinaryField1b, AESTowerField32b);
		$m!(BinaryField1b, AESTowerField64b); $m!(BinaryField1b, AESTowerField128b);
		$m!(AESTowerField8b, AESTowerField8b); $m!(AESTowerField8b, AESTowerField16b); $m!(AESTowerField8b, AESTowerField32b);
		$m!(AESTowerField8b, AESTowerField64b); $m!(AESTowerField8b, AESTowerField128b);
		$m!(AESTowerField16b, AESTowerField32b); $m!(AESTowerField16b, AESTowerField64b); $m!(AESTowerField16b, AESTowerField128b);
		$m!(AESTowerField32b, AESTowerField64b); $m!(AESTowerField32b, AESTowerField128b);
		$m!(AESTowerField64b, AESTowerField128b); $m!(AESTowerField128b, AESTowerField128b);
		$m!(BinaryField1b, BinaryField128bPolyval); $m!(BinaryField128bPolyval, BinaryField128bPolyval);
	};
}

/// every packed type; byte-sliced ones second
#[macro_export]
macro_rules! packed_canonical {
	($m:ident) => {
		$m!(BinaryField1b); $m!(BinaryField2b); $m!(BinaryField4b); $m!(BinaryField8b);
		$m!(BinaryField16b); $m!(BinaryField32b); $m!(BinaryField64b); $m!(BinaryField128b);
		$m!(PackedBinaryField1x1b);
		$m!(PackedBinaryField2x1b); $m!(PackedBinaryField1x2b);
		$m!(PackedBinaryField4x1b); $m!(PackedBinaryField2x2b); $m!(PackedBinaryField1x4b);
		$m!(PackedBinaryField8x1b); $m!(PackedBinaryField4x2b); $m!(PackedBinaryField2x4b); $m!(PackedBinaryField1x8b);
		$m!(PackedBinaryField16x1b); $m!(PackedBinaryField8x2b); $m!(PackedBinaryField4x4b); $m!(PackedBinaryField2x8b); $m!(PackedBinaryField1x16b);
		$m!(PackedBinaryField32x1b); $m!(PackedBinaryField16x2b); $m!(PackedBinaryField8x4b); $m!(PackedBinaryField4x8b); $m!(PackedBinaryField2x16b); $m!(PackedBinaryField1x32b);
		$m!(PackedBinaryField64x1b); $m!(PackedBinaryField32x2b); $m!(PackedBinaryField16x4b); $m!(PackedBinaryField8x8b); $m!(PackedBinaryField4x16b); $m!(PackedBinaryField2x32b); $m!(PackedBinaryField1x64b);
		$m!(PackedBinaryField128x1b); $m!(PackedBinaryField64x2b); $m!(PackedBinaryField32x4b); $m!(PackedBinaryField16x8b); $m!(PackedBinaryField8x16b); $m!(PackedBinaryField4x32b); $m!(PackedBinaryField2x64b); $m!(PackedBinaryField1x128b);
		$m!(PackedBinaryField256x1b); $m!(PackedBinaryField128x2b); $m!(PackedBinaryField64x4b); $m!(PackedBinaryField32x8b); $m!(PackedBinaryField16x16b); $m!(PackedBinaryField8x32b); $m!(PackedBinaryField4x64b); $m!(PackedBinaryField2x128b);
		$m!(PackedBinaryField512x1b); $m!(PackedBinaryField256x2b); $m!(PackedBinaryField128x4b); $m!(PackedBinaryField64x8b); $m!(PackedBinaryField32x16b); $m!(PackedBinaryField16x32b); $m!(PackedBinaryField8x64b); $m!(PackedBinaryField4x128b);
	};
}
#[macro_export]
macro_rules! packed_aes {
	($m:ident) => {
		$m!(AESTowerField8b); $m!(AESTowerField16b); $m!(AESTowerField32b); $m!(AESTowerField64b); $m!(AESTowerField128b);
		$m!(PackedAESBinaryField1x8b);
		$m!(PackedAESBinaryField2x8b); $m!(PackedAESBinaryField1x16b);
		$m!(PackedAESBinaryField4x8b); $m!(PackedAESBinaryField2x16b); $m!(PackedAESBinaryField1x32b);
		$m!(PackedAESBinaryField8x8b); $m!(PackedAESBinaryField4x16b); $m!(PackedAESBinaryField2x32b); $m!(PackedAESBinaryField1x64b);
		$m!(PackedAESBinaryField16x8b); $m!(PackedAESBinaryField8x16b); $m!(PackedAESBinaryField4x32b); $m!(PackedAESBinaryField2x64b); $m!(PackedAESBinaryField1x128b);
		$m!(PackedAESBinaryField32x8b); $m!(PackedAESBinaryField16x16b); $m!(PackedAESBinaryField8x32b); $m!(PackedAESBinaryField4x64b); $m!(PackedAESBinaryField2x128b);
		$m!(PackedAESBinaryField64x8b); $m!(PackedAESBinaryField32x16b); $m!(PackedAESBinaryField16x32b); $m!(PackedAESBinaryField8x64b); $m!(PackedAESBinaryField4x128b);
	};
}
#[macro_export]
macro_rules! packed_polyval {
	($m:ident) => {
		$m!(BinaryField128bPolyval); $m!(PackedBinaryPolyval1x128b); $m!(PackedBinaryPolyval2x128b); $m!(PackedBinaryPolyval4x128b);
	};
}
#[macro_export]
macro_rules! packed_bytesliced {
	($m:ident) => {
		$m!(ByteSlicedAES16x128b); $m!(ByteSlicedAES16x64b); $m!(ByteSlicedAES2x16x64b); $m!(ByteSlicedAES16x32b);
		$m!(ByteSlicedAES4x16x32b); $m!(ByteSlicedAES16x16b); $m!(ByteSlicedAES8x16x16b); $m!(ByteSlicedAES16x8b); $m!(ByteSlicedAES16x16x8b);
		$m!(ByteSliced16x128x1b); $m!(ByteSliced8x128x1b); $m!(ByteSliced4x128x1b); $m!(ByteSliced2x128x1b); $m!(ByteSliced1x128x1b);
		$m!(ByteSlicedAES32x128b); $m!(ByteSlicedAES32x64b); $m!(ByteSlicedAES2x32x64b); $m!(ByteSlicedAES32x32b);
		$m!(ByteSlicedAES4x32x32b); $m!(ByteSlicedAES32x16b); $m!(ByteSlicedAES8x32x16b); $m!(ByteSlicedAES32x8b); $m!(ByteSlicedAES16x32x8b);
		$m!(ByteSliced16x256x1b); $m!(ByteSliced8x256x1b); $m!(ByteSliced4x256x1b); $m!(ByteSliced2x256x1b); $m!(ByteSliced1x256x1b);
		$m!(ByteSlicedAES64x128b); $m!(ByteSlicedAES64x64b); $m!(ByteSlicedAES2x64x64b); $m!(ByteSlicedAES64x32b);
		$m!(ByteSlicedAES4x64x32b); $m!(ByteSlicedAES64x16b); $m!(ByteSlicedAES8x64x16b); $m!(ByteSlicedAES64x8b); $m!(ByteSlicedAES16x64x8b);
		$m!(ByteSliced16x512x1b); $m!(ByteSliced8x512x1b); $m!(ByteSliced4x512x1b); $m!(ByteSliced2x512x1b); $m!(ByteSliced1x512x1b);
	};
}
#[macro_export]
macro_rules! all_packed {
	($m:ident) => {
		$crate::packed_canonical!($m);
		$crate::packed_aes!($m);
		$crate::packed_polyval!($m);
		$crate::packed_bytesliced!($m);
	};
}
