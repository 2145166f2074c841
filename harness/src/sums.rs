//! Claims described by specification records, shared by the sumcheck-like harnesses.
use std::sync::Arc;

use binius_core::protocols::sumcheck::CompositeSumClaim;
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::{packed::set_packed_slice, *};
use binius_math::{ArithCircuit, MultilinearExtension, MultilinearPoly};

use crate::*;

pub type B1 = BinaryField1b;
pub trait Pk:
	PackedField<Scalar = B128>
	+ PackedExtension<B128, PackedSubfield = Self>
	+ PackedExtension<B16>
	+ PackedExtension<B8>
	+ PackedExtension<B1>
	+ RepackedExtension<Self>
	+ 'static
{
}
impl<T> Pk for T where
	T: PackedField<Scalar = B128>
		+ PackedExtension<B128, PackedSubfield = T>
		+ PackedExtension<B16>
		+ PackedExtension<B8>
		+ PackedExtension<B1>
		+ RepackedExtension<T>
		+ 'static
{
}

pub fn comp_of(comp: &Value, n_vars: usize, strip: bool) -> ArithCircuitPoly<B128> {
	comp_in(comp, n_vars, strip, b128)
}

pub fn comp_in<F: TowerField>(comp: &Value, n_vars: usize, strip: bool, konst: impl Fn(&Value) -> F) -> ArithCircuitPoly<F> {
	let mut e = ArithCircuit::zero();
	let mut first = true;
	for m in arr(comp) {
		let mut vars = nums(&m["e"]);
		if strip {
			vars.pop();
		}
		let mut t: Option<ArithCircuit<F>> = (u(&m["c"]) != 1 || vars.is_empty()).then(|| ArithCircuit::constant(konst(&m["c"])));
		for v in vars {
			let x = ArithCircuit::var(v as usize - 1);
			t = Some(match t {
				None => x,
				Some(t) => t * x,
			});
		}
		let t = t.unwrap();
		e = if first { t } else { e + t };
		first = false;
	}
	ArithCircuitPoly::with_n_vars(n_vars, e).unwrap()
}

/// `strip`: the last multilinear is the equality indicator; leave it out.
pub fn composite_claims(k: &Value, strip: bool) -> Vec<CompositeSumClaim<B128, ArithCircuitPoly<B128>>> {
	let n = arr(&k["kinds"]).len() - strip as usize;
	arr(&k["comps"])
		.iter()
		.zip(arr(&k["sums"]))
		.map(|(c, s)| CompositeSumClaim { composition: comp_of(c, n, strip), sum: b128(s) })
		.collect()
}

pub fn tables(k: &Value, strip: bool) -> Vec<Vec<B128>> {
	let mut t: Vec<Vec<B128>> = arr(&k["tables"]).iter().map(|t| arr(t).iter().map(b128).collect()).collect();
	if strip {
		t.pop();
	}
	t
}

pub fn pack_table<P: PackedField>(t: &[P::Scalar]) -> Vec<P> {
	t.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}

pub type Mle<P> = Arc<dyn MultilinearPoly<P> + Send + Sync>;

pub fn mle<P: Pk>(kind: &str, t: &[B128]) -> Mle<P> {
	let n = t.len().trailing_zeros() as usize;
	fn small<P, FS>(n: usize, t: Vec<FS>) -> Mle<P>
	where
		FS: Field,
		P: PackedField<Scalar = B128> + PackedExtension<FS> + 'static,
		B128: ExtensionField<FS>,
	{
		let mut data = vec![<P as PackedExtension<FS>>::PackedSubfield::default(); (t.len()).div_ceil(<P as PackedExtension<FS>>::PackedSubfield::WIDTH)];
		for (i, &x) in t.iter().enumerate() {
			set_packed_slice(&mut data, i, x);
		}
		MultilinearExtension::new(n, data).unwrap().specialize_arc_dyn::<P>()
	}
	match kind {
		"b1" | "zero" | "one" => small::<P, B1>(n, t.iter().map(|x| B1::from((x.val() & 1) as u8)).collect()),
		"b8" => small::<P, B8>(n, t.iter().map(|x| B8::new(x.val() as u8)).collect()),
		"b16" | "p12" | "p112" | "z1" | "s12" => small::<P, B16>(n, t.iter().map(|x| B16::new(x.val() as u16)).collect()),
		_ => small::<P, B128>(n, t.to_vec()),
	}
}

pub fn multilinears<P: Pk>(k: &Value, strip: bool) -> Vec<Mle<P>> {
	tables(k, strip).iter().zip(arr(&k["kinds"])).map(|(t, kind)| mle::<P>(st(kind), t)).collect()
}

/// Longest constant suffix of the tables of kind "suf"; none for the others.
pub fn const_suffixes(k: &Value) -> Vec<(B128, usize)> {
	tables(k, true)
		.iter()
		.zip(arr(&k["kinds"]))
		.map(|(t, kind)| {
			if st(kind) != "suf" {
				return (B128::ZERO, 0);
			}
			let last = *t.last().unwrap();
			(last, t.iter().rev().take_while(|&&x| x == last).count())
		})
		.collect()
}

// ------------------------------------------------------------------------------------------------
// The specification's behaviours at sizes it cannot enumerate: same claims, longer columns

pub struct Rng(pub u64);
impl Rng {
	pub fn next(&mut self) -> u64 {
		self.0 ^= self.0 << 13;
		self.0 ^= self.0 >> 7;
		self.0 ^= self.0 << 17;
		self.0.wrapping_mul(0x2545f4914f6cdd1d) >> 16
	}
}

/// Evaluation of the multilinear extension, variable 0 first.
pub fn eval_at(col: &[B128], point: &[B128]) -> B128 {
	assert_eq!(col.len(), 1 << point.len());
	let mut v = col.to_vec();
	for r in point.iter().rev() {
		let (lo, hi) = v.split_at(v.len() / 2);
		v = lo.iter().zip(hi).map(|(a, b)| *a + (*b - *a) * *r).collect();
	}
	v[0]
}

pub fn eq_table(point: &[B128]) -> Vec<B128> {
	let mut v = vec![B128::ONE];
	for r in point {
		let hi: Vec<B128> = v.iter().map(|x| *x * *r).collect();
		let lo = v.iter().zip(&hi).map(|(x, h)| *x - *h);
		v = lo.chain(hi.iter().copied()).collect();
	}
	v
}

fn value(c: &[Vec<B128>], comp: &Value, x: usize) -> B128 {
	arr(comp).iter().map(|m| nums(&m["e"]).iter().fold(b128(&m["c"]), |a, &v| a * c[v as usize - 1][x])).sum()
}

/// The case with every column `extra` variables longer: fresh columns of the same kinds, the sums
/// that belong to them, fresh challenges, and no messages.
pub fn grow(c: &Value, extra: usize, seed: u64) -> Value {
	let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
	for _ in 0..8 {
		r.next();
	}
	let mut c = c.clone();
	let top = arr(&c["claims"]).iter().map(|k| us(&k["n"])).max().unwrap_or(0) + extra;
	let eq: Vec<u64> = (0..top).map(|_| r.next() % 65536).collect();
	let eqp: Vec<B128> = eq.iter().map(|&x| B128::new(x as u128)).collect();
	for k in c["claims"].as_array_mut().unwrap() {
		let n = us(&k["n"]) + extra;
		let mut cols: Vec<Vec<B128>> = vec![];
		for kind in arr(&k["kinds"]) {
			let suf = (1 << n) / 2 + (r.next() as usize % (1 << n)) / 4;
			let col = (0..1usize << n)
				.map(|x| {
					let v = r.next() % 65536;
					match st(kind) {
						"b1" => B128::new(v as u128 & 1),
						"b8" => B128::new(v as u128 & 255),
						"zero" => B128::ZERO,
						"one" => B128::ONE,
						"suf" if x >= suf => B128::new(5),
						"p12" => cols[0][x] * cols[1][x],
						"p112" => cols[0][x] * cols[0][x] * cols[1][x],
						"s12" => cols[0][x] + cols[1][x],
						"z1" if cols[0][x] != B128::ZERO => B128::ZERO,
						_ => B128::new(v as u128),
					}
				})
				.collect();
			cols.push(if st(kind) == "eq" { eq_table(&eqp[top - n..]) } else { col });
		}
		let sums: Vec<Value> = arr(&k["comps"]).iter().map(|m| val((0..1 << n).map(|x| value(&cols, m, x)).sum())).collect();
		k["n"] = json!(n);
		k["sums"] = json!(sums);
		k["tables"] = json!(cols.iter().map(|t| t.iter().map(|&x| val(x)).collect::<Vec<_>>()).collect::<Vec<_>>());
	}
	c["eq"] = json!(eq);
	c["samples"] = json!((0..400).map(|_| r.next() % 65536).collect::<Vec<_>>());
	c["msgs"] = Value::Null;
	c
}
/// A grown case as reported: without its columns, which follow from the seed.
pub fn brief(c: &Value) -> Value {
	let mut c = c.clone();
	for k in c["claims"].as_array_mut().unwrap() {
		k.as_object_mut().unwrap().retain(|k, _| !["tables", "table", "base", "bits", "result", "layers"].contains(&k.as_str()));
	}
	c["samples"] = Value::Null;
	c
}
