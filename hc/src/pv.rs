//! Proving and verifying whole constraint systems.
use binius_compute::{ComputeHolder, cpu::alloc::CpuComputeAllocator};
use binius_core::{
	constraint_system::{self, ConstraintSystem as Ccs, Proof, channel::Boundary},
	fiat_shamir::{Challenger, HasherChallenger},
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	arch::{OptimalUnderlier, OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::{PackScalar, PackedType},
	tower::CanonicalTowerFamily,
	underlier::UnderlierType,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression};
use binius_m3::builder::{B128, WitnessIndex};

use crate::{Case, es, guard, sysgen::*};

pub trait Und: UnderlierType + PackScalar<B128, Packed: Pk> {
	const NAME: &'static str;
	fn prove_with<Ch: Challenger + Default>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], sizes: &[usize], witness: Wit<'_, Self>) -> Result<Vec<u8>, String>;
	fn verify_with<Ch: Challenger + Default>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], proof: &[u8]) -> Result<(), String>;
}
macro_rules! und {
	($t:ty, $n:expr) => {
		impl Und for $t {
			const NAME: &'static str = $n;
			fn prove_with<Ch: Challenger + Default>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], sizes: &[usize], witness: Wit<'_, Self>) -> Result<Vec<u8>, String> {
				let mut holder = FastCpuLayerHolder::<CanonicalTowerFamily, PackedType<$t, B128>>::new(1 << 16, 1 << 20);
				constraint_system::prove::<_, $t, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch, _, _, _>(&mut holder.to_data(), ccs, p.rate, p.sec, digest, boundaries, sizes, witness, &binius_hal::make_portable_backend())
					.map(|p| p.transcript)
					.map_err(es)
			}
			fn verify_with<Ch: Challenger + Default>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], proof: &[u8]) -> Result<(), String> {
				constraint_system::verify::<$t, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch>(ccs, p.rate, p.sec, digest, boundaries, Proof { transcript: proof.to_vec() }).map_err(es)
			}
		}
	};
}
und!(OptimalUnderlier128b, "128");
und!(OptimalUnderlier256b, "256");
und!(OptimalUnderlier512b, "512");
pub type Opt = OptimalUnderlier;
pub type Dig = digest::Output<Groestl256>;
pub type Wit<'a, U> = MultilinearExtensionIndex<'a, PackedType<U, B128>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Params {
	pub rate: usize,
	pub sec: usize,
}

pub fn prove<U: Und>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], sizes: &[usize], witness: Wit<'_, U>) -> Result<Vec<u8>, String> {
	U::prove_with::<HasherChallenger<Groestl256>>(ccs, p, digest, boundaries, sizes, witness)
}
pub fn verify<U: Und>(ccs: &Ccs<B128>, p: Params, digest: &Dig, boundaries: &[Boundary<B128>], proof: &[u8]) -> Result<(), String> {
	U::verify_with::<HasherChallenger<Groestl256>>(ccs, p, digest, boundaries, proof)
}

/// Builds a witness index from the given contents and hands it to `f`.
pub fn with_witness<U: Und, R>(s: &Sys, full: &Full, f: impl FnOnce(&Ccs<B128>, &[usize], Wit<'_, U>) -> R) -> Result<R, String> {
	let mut mem = CpuComputeAllocator::<PackedType<U, B128>>::new(1 << 16);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<PackedType<U, B128>>::new(&s.cs, &alloc);
	s.fill_full(&mut w, full)?;
	let sizes = w.table_sizes();
	let ccs = s.cs.compile().map_err(es)?;
	Ok(f(&ccs, &sizes, w.into_multilinear_extension_index()))
}
/// Builds a witness by the table fillers (the way a user does) and hands it to `f`.
pub fn with_filled<U: Und, R>(c: &mut Case, s: &Sys, f: impl FnOnce(&Ccs<B128>, &[usize], Wit<'_, U>) -> R) -> Result<R, String> {
	let mut mem = CpuComputeAllocator::<PackedType<U, B128>>::new(1 << 16);
	let alloc = mem.into_bump_allocator();
	let mut w = WitnessIndex::<PackedType<U, B128>>::new(&s.cs, &alloc);
	for (t, tab) in s.tabs.iter().enumerate() {
		let events: Vec<usize> = (0..tab.size).collect();
		let filler = s.filler::<PackedType<U, B128>>(t);
		if c.flip() {
			w.fill_table_sequential(&filler, &events).map_err(es)?;
		} else {
			w.fill_table_parallel(&filler, &events).map_err(es)?;
		}
	}
	w.fill_constant_cols().map_err(es)?;
	let sizes = w.table_sizes();
	let ccs = s.cs.compile().map_err(es)?;
	Ok(f(&ccs, &sizes, w.into_multilinear_extension_index()))
}
pub fn no_panic<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
	guard(f).map_err(|e| format!("panicked: {e}"))?
}
