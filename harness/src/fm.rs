//! Values of the specification (elements of the 16-bit tower field) in any field that has an image of it.
use binius_field::*;
use serde_json::Value;

use crate::nums;

pub trait Fm: BinaryField + Sync {
	fn of(x: u64) -> Self;
}
macro_rules! fm { ($($t:ident $u:ty),*) => {$(impl Fm for $t { fn of(x: u64) -> Self { $t::new(x as $u) } })*}; }
fm!(BinaryField8b u8, BinaryField16b u16, BinaryField32b u32, BinaryField64b u64, BinaryField128b u128);
impl Fm for BinaryField1b {
	fn of(x: u64) -> Self {
		if x & 1 == 1 { Self::ONE } else { Self::ZERO }
	}
}
macro_rules! via { ($($t:ident $b:ident $u:ty),*) => {$(impl Fm for $t { fn of(x: u64) -> Self { $b::new(x as $u).into() } })*}; }
via!(AESTowerField8b BinaryField8b u8, AESTowerField16b BinaryField16b u16, AESTowerField32b BinaryField32b u32, AESTowerField64b BinaryField64b u64,
	AESTowerField128b BinaryField128b u128, BinaryField128bPolyval BinaryField128b u128);

pub fn short<T>() -> &'static str {
	std::any::type_name::<T>()
}
pub fn vals<F: Fm>(v: &Value) -> Vec<F> {
	nums(v).into_iter().map(F::of).collect()
}
pub fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}
/// like `pack`, but what follows the values in the last element is not zero
pub fn pack_dirty<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH)
		.map(|c| {
			let mut p = P::broadcast(P::Scalar::ONE);
			for (i, x) in c.iter().enumerate() {
				p.set(i, *x);
			}
			p
		})
		.collect()
}
/// the first entry that differs
pub fn differs<P: PackedField>(got: &[P], want: &[P::Scalar]) -> Option<String> {
	for (i, w) in want.iter().enumerate() {
		if i / P::WIDTH >= got.len() {
			return Some(format!("only {} values of {}", got.len() * P::WIDTH, want.len()));
		}
		let g = got[i / P::WIDTH].get(i % P::WIDTH);
		if g != *w {
			return Some(format!("entry {i} is {g:?}, not {w:?}"));
		}
	}
	None
}
