//! Replays the specification's encodings: values are built through the library's constructors, written, read back, cut short and mangled.
use std::{
	fmt::Debug,
	marker::PhantomData,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_core::{
	constraint_system::{
		ConstraintSystem, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	oracle::*,
	polynomial::MultivariatePoly,
	transparent::{
		MultilinearExtensionTransparent, constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	},
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::*;
use binius_math::{ArithCircuit, ArithCircuitStep};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use bytes::Buf;
use generic_array::{GenericArray, typenum};
use vharness::*;

static CHECKED: AtomicUsize = AtomicUsize::new(0);
fn bad(what: String, c: &Value) {
	violation(what, c.clone());
}
fn by(v: &Value) -> Vec<u8> {
	arr(v).iter().map(|x| u(x) as u8).collect()
}
fn le(b: &[u8]) -> u128 {
	b.iter().rev().fold(0, |a, x| a << 8 | *x as u128)
}

trait Build: Sized {
	fn build(v: &Value) -> Self;
}
macro_rules! ints { ($($t:ty),*) => {$(impl Build for $t { fn build(v: &Value) -> Self { le(&by(v)) as $t } })*}; }
ints!(u8, u16, u32, u64, u128, usize);
impl Build for bool {
	fn build(v: &Value) -> Self {
		u(v) == 1
	}
}
impl Build for String {
	fn build(v: &Value) -> Self {
		String::from_utf8(by(v)).unwrap()
	}
}
impl<T: Build> Build for Vec<T> {
	fn build(v: &Value) -> Self {
		arr(v).iter().map(T::build).collect()
	}
}
impl<T: Build> Build for Option<T> {
	fn build(v: &Value) -> Self {
		arr(v).first().map(T::build)
	}
}
impl<A: Build, B: Build> Build for (A, B) {
	fn build(v: &Value) -> Self {
		(A::build(&v[0]), B::build(&v[1]))
	}
}
impl<T> Build for PhantomData<T> {
	fn build(_: &Value) -> Self {
		PhantomData
	}
}
impl<N: generic_array::ArrayLength<u8>> Build for GenericArray<u8, N> {
	fn build(v: &Value) -> Self {
		GenericArray::clone_from_slice(&by(v))
	}
}
macro_rules! fields { ($($t:ident $u:ty),*) => {$(impl Build for $t { fn build(v: &Value) -> Self { $t::new(le(&by(v)) as $u) } })*}; }
fields!(BinaryField8b u8, BinaryField16b u16, BinaryField32b u32, BinaryField64b u64, BinaryField128b u128);
macro_rules! smalls { ($($t:ident),*) => {$(impl Build for $t { fn build(v: &Value) -> Self { <$t as Sc>::raw(u(v) as u128) } })*}; }
smalls!(BinaryField1b, BinaryField2b, BinaryField4b);
macro_rules! isos { ($($t:ident $b:ident),*) => {$(impl Build for $t { fn build(v: &Value) -> Self { $b::build(v).into() } })*}; }
isos!(AESTowerField8b BinaryField8b, AESTowerField16b BinaryField16b, AESTowerField32b BinaryField32b, AESTowerField64b BinaryField64b, AESTowerField128b BinaryField128b,
	BinaryField128bPolyval BinaryField128b);

/// a field's elements by the bits they are stored in
trait Sc: Field {
	const BITS: usize;
	fn raw(x: u128) -> Self;
}
macro_rules! sc { ($($t:ident $n:expr, $f:expr);*) => {$(impl Sc for $t { const BITS: usize = $n; fn raw(x: u128) -> Self { let f: fn(u128) -> $t = $f; f(x) } })*}; }
sc!(BinaryField1b 1, |x| if x & 1 == 1 { BinaryField1b::ONE } else { BinaryField1b::ZERO };
	BinaryField2b 2, |x| BinaryField2b::from_bases((0..2).map(|i| BinaryField1b::raw(x >> i))).unwrap();
	BinaryField4b 4, |x| BinaryField4b::from_bases((0..4).map(|i| BinaryField1b::raw(x >> i))).unwrap();
	BinaryField8b 8, |x| BinaryField8b::new(x as u8); BinaryField16b 16, |x| BinaryField16b::new(x as u16); BinaryField32b 32, |x| BinaryField32b::new(x as u32);
	BinaryField64b 64, |x| BinaryField64b::new(x as u64); BinaryField128b 128, BinaryField128b::new;
	AESTowerField8b 8, |x| AESTowerField8b::new(x as u8); AESTowerField16b 16, |x| AESTowerField16b::new(x as u16); AESTowerField32b 32, |x| AESTowerField32b::new(x as u32);
	AESTowerField64b 64, |x| AESTowerField64b::new(x as u64); AESTowerField128b 128, AESTowerField128b::new; BinaryField128bPolyval 128, BinaryField128bPolyval::new);
fn packed_of<P: PackedField<Scalar: Sc>>(v: &Value) -> P {
	let b = by(v);
	let n = P::Scalar::BITS;
	P::from_fn(|i| {
		let at = i * n;
		let x = le(&b[at / 8..(at + n).div_ceil(8)]) >> (at % 8);
		P::Scalar::raw(if n == 128 { x } else { x & ((1 << n) - 1) })
	})
}

fn step<F: Field + Build>(v: &Value) -> ArithCircuitStep<F> {
	let a = &v["a"];
	match us(&v["v"]) {
		0 => ArithCircuitStep::Add(Build::build(&a[0]), Build::build(&a[1])),
		1 => ArithCircuitStep::Mul(Build::build(&a[0]), Build::build(&a[1])),
		2 => ArithCircuitStep::Pow(Build::build(&a[0]), Build::build(&a[1])),
		3 => ArithCircuitStep::Const(Build::build(&a[0])),
		_ => ArithCircuitStep::Var(Build::build(&a[0])),
	}
}
impl<F: Field + Build> Build for ArithCircuitStep<F> {
	fn build(v: &Value) -> Self {
		step(v)
	}
}
impl<F: Field + Build + SerializeBytes + DeserializeBytes> Build for ArithCircuit<F> {
	fn build(v: &Value) -> Self {
		// there is no constructor from steps: write them and read the circuit
		let steps: Vec<ArithCircuitStep<F>> = Build::build(v);
		let mut b = vec![];
		steps.serialize(&mut b, SerializationMode::Native).unwrap();
		let c = Self::deserialize(&b[..], SerializationMode::Native).expect("a circuit");
		assert_eq!(c.steps(), &steps[..], "steps of the circuit read");
		c
	}
}
impl Build for ArithCircuitPoly<B128> {
	fn build(v: &Value) -> Self {
		Self::with_n_vars(Build::build(&v[1]), Build::build(&v[0])).unwrap()
	}
}
impl Build for OracleId {
	fn build(v: &Value) -> Self {
		OracleId::from_index(Build::build(v))
	}
}
impl Build for FlushDirection {
	fn build(v: &Value) -> Self {
		[FlushDirection::Push, FlushDirection::Pull][us(&v["v"])]
	}
}
impl Build for ShiftVariant {
	fn build(v: &Value) -> Self {
		[ShiftVariant::CircularLeft, ShiftVariant::LogicalLeft, ShiftVariant::LogicalRight][us(&v["v"])]
	}
}
impl Build for ProjectionVariant {
	fn build(v: &Value) -> Self {
		if us(&v["v"]) == 0 { ProjectionVariant::Offset(Build::build(&v["a"][0])) } else { ProjectionVariant::Last }
	}
}
impl Build for TableSizeSpec {
	fn build(v: &Value) -> Self {
		match us(&v["v"]) {
			0 => TableSizeSpec::Arbitrary,
			1 => TableSizeSpec::PowerOfTwo,
			_ => TableSizeSpec::Fixed { log_size: Build::build(&v["a"][0]) },
		}
	}
}
impl Build for OracleOrConst<B128> {
	fn build(v: &Value) -> Self {
		let a = &v["a"];
		if us(&v["v"]) == 0 { OracleOrConst::Oracle(Build::build(&a[0])) } else { OracleOrConst::Const { base: Build::build(&a[0]), tower_level: Build::build(&a[1]) } }
	}
}
impl Build for ConstraintPredicate<B128> {
	fn build(v: &Value) -> Self {
		if us(&v["v"]) == 0 { ConstraintPredicate::Sum(Build::build(&v["a"][0])) } else { ConstraintPredicate::Zero }
	}
}
macro_rules! structs { ($($t:ty { $($f:ident $i:expr),* })*) => {$(impl Build for $t { fn build(v: &Value) -> Self { Self { $($f: Build::build(&v[$i])),* } } })*}; }
structs! {
	Flush<B128> { table_id 0, log_values_per_row 1, oracles 2, channel_id 3, direction 4, selectors 5, multiplicity 6 }
	Boundary<B128> { values 0, channel_id 1, direction 2, multiplicity 3 }
	Constraint<B128> { name 0, composition 1, predicate 2 }
	ConstraintSet<B128> { table_id 0, log_values_per_row 1, oracle_ids 2, constraints 3 }
	SizedConstraintSet<B128> { n_vars 0, oracle_ids 1, constraints 2 }
	Exp<B128> { bits_ids 0, base 1, exp_result_id 2 }
	SymbolicMultilinearOracle<B128> { id 0, name 1, table_id 2, log_values_per_row 3, tower_level 4, variant 5 }
	ConstraintSystem<B128> { oracles 0, table_constraints 1, non_zero_oracle_ids 2, flushes 3, exponents 4, channel_count 5, table_size_specs 6 }
}
impl Build for SymbolicMultilinearOracleSet<B128> {
	fn build(v: &Value) -> Self {
		let l: Vec<SymbolicMultilinearOracle<B128>> = Build::build(v);
		let mut b = vec![];
		l.serialize(&mut b, SerializationMode::Native).unwrap();
		let s = Self::deserialize(&b[..], SerializationMode::Native).expect("an oracle set");
		let got: Vec<_> = s.polys().cloned().collect();
		assert!(same(&got, &l), "oracles of the set read");
		s
	}
}
type Dp = Box<dyn MultivariatePoly<B128>>;
fn mle<P, PE>(vals: &[B128]) -> Dp
where
	P: PackedField,
	PE: PackedField<Scalar = B128> + RepackedExtension<P>,
	B128: ExtensionField<P::Scalar> + TryInto<P::Scalar>,
{
	let small: Vec<P::Scalar> = vals.iter().map(|x| (*x).try_into().ok().unwrap()).collect();
	let n = vals.len().ilog2() as usize;
	Box::new(MultilinearExtensionTransparent::<P, PE, Vec<P>>::from_values_and_mu(fm::pack_dirty::<P>(&small), n).unwrap())
}
impl Build for Dp {
	fn build(v: &Value) -> Self {
		let a = &v["a"];
		let n = |i: usize| -> usize { Build::build(&a[i]) };
		match us(&v["v"]) {
			0 => Box::new(TowerBasis::<B128>::new(n(0), n(1)).unwrap()),
			1 => Box::new(Powers::new(n(0), B128::build(&a[1]))),
			2 => Box::new(StepDown::new(n(0), n(1)).unwrap()),
			3 => Box::new(StepUp::new(n(0), n(1)).unwrap()),
			4 => Box::new(Constant::<B128>::new(n(0), B128::build(&a[1]))),
			5 => Box::new(SelectRow::new(n(0), n(1)).unwrap()),
			6 => {
				let vals: Vec<B128> = Build::build(a);
				let lv = vals.iter().map(|x| x.min_tower_level()).max().unwrap();
				// the smallest field that holds the values, or a larger one
				match (lv, vals.len() % 3) {
					(0, 1) => mle::<PackedBinaryField128x1b, PackedBinaryField1x128b>(&vals),
					(0, _) => mle::<PackedBinaryField256x1b, PackedBinaryField2x128b>(&vals),
					(1, _) => mle::<PackedBinaryField64x2b, PackedBinaryField1x128b>(&vals),
					(2, _) => mle::<PackedBinaryField64x4b, PackedBinaryField2x128b>(&vals),
					(3, 1) => mle::<PackedBinaryField16x8b, PackedBinaryField1x128b>(&vals),
					(3, _) => mle::<PackedBinaryField8x16b, PackedBinaryField1x128b>(&vals),
					(4, _) => mle::<PackedBinaryField16x16b, PackedBinaryField2x128b>(&vals),
					(5, _) => mle::<PackedBinaryField4x32b, PackedBinaryField1x128b>(&vals),
					(6, _) => mle::<PackedBinaryField2x64b, PackedBinaryField1x128b>(&vals),
					(_, 1) => mle::<PackedBinaryField1x128b, PackedBinaryField1x128b>(&vals),
					_ => mle::<PackedBinaryField4x128b, PackedBinaryField4x128b>(&vals),
				}
			}
			_ => Box::new(ArithCircuit::<B128>::build(a)),
		}
	}
}
impl Build for TransparentPolyOracle<B128> {
	fn build(v: &Value) -> Self {
		Self::new(Dp::build(v).into()).unwrap()
	}
}
impl Build for SymbolicMultilinearPolyVariant<B128> {
	fn build(v: &Value) -> Self {
		let a = &v["a"];
		match us(&v["v"]) {
			0 => Self::Committed,
			1 => Self::Transparent(Build::build(&a[0])),
			2 => Self::Structured(Build::build(&a[0])),
			3 => Self::Repeating { id: Build::build(&a[0]) },
			4 => Self::Projected { id: Build::build(&a[0]), values: Build::build(&a[1]), variant: Build::build(&a[2]) },
			5 => Self::Shifted { id: Build::build(&a[0]), shift_offset: Build::build(&a[1]), block_size: Build::build(&a[2]), shift_variant: Build::build(&a[3]) },
			6 => Self::Packed { id: Build::build(&a[0]), log_degree: Build::build(&a[1]) },
			7 => Self::LinearCombination { offset: Build::build(&a[0]), inner: Build::build(&a[1]) },
			8 => Self::ZeroPadded { id: Build::build(&a[0]), n_pad_vars: Build::build(&a[1]), nonzero_index: Build::build(&a[2]), start_index: Build::build(&a[3]) },
			_ => Self::Composite { inner: Build::build(&a[0]), circuit: Build::build(&a[1]) },
		}
	}
}

/// Equality by rendering: packed multilinears render their representation, which reading may change, so they are left to their bytes and values.
fn same<T: Debug>(a: &T, b: &T) -> bool {
	let (a, b) = (format!("{a:?}"), format!("{b:?}"));
	a == b || a.contains("MultilinearExtensionTransparent")
}

fn mode(c: &Value) -> SerializationMode {
	if st(&c["mode"]) == "native" { SerializationMode::Native } else { SerializationMode::CanonicalTower }
}
fn ser<T: SerializeBytes>(v: &T, m: SerializationMode) -> Result<Vec<u8>, String> {
	match guarded(|| {
		let mut b = vec![];
		v.serialize(&mut b, m).map(|_| b)
	}) {
		Ok(Ok(b)) => Ok(b),
		Ok(Err(e)) => Err(format!("{e}")),
		Err(e) => Err(e),
	}
}
fn de<T: DeserializeBytes>(b: &[u8], m: SerializationMode) -> Result<(T, usize), String> {
	let mut r = b;
	match guarded(|| T::deserialize(&mut r, m)) {
		Ok(Ok(v)) => Ok((v, b.len() - r.len())),
		Ok(Err(e)) => Err(format!("{e}")),
		Err(e) => Err(e),
	}
}
fn crashed(e: &str) -> bool {
	e.starts_with("panic")
}
fn read_back<T: SerializeBytes + DeserializeBytes>(c: &Value, bytes: &[u8], eq: impl Fn(&T) -> Option<String>) {
	let ty = st(&c["ty"]);
	let m = mode(c);
	let mut longer = bytes.to_vec();
	longer.extend([1, 0, 255]);
	for input in [bytes, &longer] {
		match de::<T>(input, m) {
			Ok((v, n)) => {
				if n != bytes.len() {
					bad(format!("{ty}: reading used {n} bytes of {}", bytes.len()), c);
				}
				if let Some(e) = eq(&v) {
					bad(format!("{ty}: read back differently: {e}"), c);
				}
				match ser(&v, m) {
					Ok(b) if b == bytes => {}
					o => bad(format!("{ty}: written again after reading: {o:?}"), c),
				}
			}
			Err(e) => return bad(format!("{ty}: own encoding refused: {e}"), c),
		}
	}
	// in two pieces
	for k in [1, bytes.len() / 2, bytes.len().saturating_sub(1)] {
		if k < bytes.len() {
			let r = guarded(|| T::deserialize(bytes[..k].chain(&bytes[k..]), m).map(|v| eq(&v)));
			if !matches!(r, Ok(Ok(None))) {
				bad(format!("{ty}: read from two buffers: {r:?}"), c);
			}
		}
	}
	for k in 0..bytes.len() {
		match de::<T>(&bytes[..k], m) {
			Ok(_) => bad(format!("{ty}: {k} of {} bytes accepted", bytes.len()), c),
			Err(e) if crashed(&e) => bad(format!("{ty}: {k} of {} bytes: {e}", bytes.len()), c),
			_ => {}
		}
	}
	for x in arr(&c["m"]) {
		let b = by(&x["b"]);
		let want = st(&x["s"]);
		CHECKED.fetch_add(1, SeqCst);
		let one = json!({"ty": ty, "mode": c["mode"], "mutant": x});
		match de::<T>(&b, m) {
			Ok((v, n)) => {
				if want == "bad" {
					bad(format!("{ty}: malformed input accepted"), &one);
				} else if want == "ok" {
					if n != us(&x["used"]) {
						bad(format!("{ty}: used {n} bytes of a changed encoding"), &one);
					}
					match ser(&v, m) {
						Ok(b) if b == by(&x["re"]) => {}
						o => bad(format!("{ty}: a changed encoding is written back as {o:?}"), &one),
					}
				}
			}
			Err(e) => {
				if want == "ok" {
					bad(format!("{ty}: a well-formed input refused: {e}"), &one);
				} else if crashed(&e) {
					bad(format!("{ty}: malformed input: {e}"), &one);
				}
			}
		}
	}
}
fn write<T: SerializeBytes>(c: &Value, v: &T, judged: bool) -> Option<Vec<u8>> {
	let ty = st(&c["ty"]);
	let m = mode(c);
	CHECKED.fetch_add(1, SeqCst);
	match (ser(v, m), c["fail"] == true) {
		(Ok(b), true) => {
			bad(format!("{ty}: a size beyond 32 bits is written as {b:?}"), c);
			None
		}
		(Err(e), true) => {
			if crashed(&e) {
				bad(format!("{ty}: {e}"), c);
			}
			None
		}
		(Ok(b), false) => {
			if judged && b != by(&c["b"]) {
				bad(format!("{ty}: written as {b:?}"), c);
			}
			for k in 0..=b.len() {
				let mut room = vec![0u8; k];
				let r = guarded(|| v.serialize(&mut room[..], m).is_ok());
				if r != Ok(k == b.len()) || k == b.len() && room != b {
					bad(format!("{ty}: writing {} bytes into {k}: {r:?}", b.len()), c);
				}
			}
			Some(b)
		}
		(Err(e), false) => {
			bad(format!("{ty}: not written: {e}"), c);
			None
		}
	}
}
fn both<T: Build + SerializeBytes + DeserializeBytes + Debug>(c: &Value) {
	let v = T::build(&c["v"]);
	let judged = !(st(&c["ty"]) == "pv" && st(&c["mode"]) == "native");
	if let Some(b) = write(c, &v, judged) {
		read_back::<T>(c, &b, |w| (!same(&v, w)).then(|| format!("{w:?} for {v:?}")));
	}
}
fn poly(c: &Value) {
	let v = Dp::build(&c["v"]);
	if let Some(b) = write(c, &v, true) {
		let circuit = us(&c["v"]["v"]) == 7;
		let packed = us(&c["v"]["v"]) == 6;
		read_back::<Dp>(c, &b, |w| {
			if v.n_vars() != w.n_vars() || v.degree() != w.degree() || !packed && v.binary_tower_level() != w.binary_tower_level() {
				return Some(format!("{} variables, degree {} for {}, {}", w.n_vars(), w.degree(), v.n_vars(), v.degree()));
			}
			if v.n_vars() > 12 {
				return None;
			}
			for s in 0..if circuit { 3 } else { 1 << v.n_vars() } + 2u128 {
				// the vertices, then two other points
				let at: Vec<B128> = (0..v.n_vars())
					.map(|i| if s < 1 << v.n_vars() { B128::new(s >> i & 1) } else { B128::new((s + 3) * 0x1234567890abcdef1234567 * (i as u128 + 1)) })
					.collect();
				let (x, y) = (guarded(|| v.evaluate(&at).ok()), guarded(|| w.evaluate(&at).ok()));
				if x != y {
					return Some(format!("{y:?} for {x:?} at {at:?}"));
				}
			}
			None
		});
	}
}
/// types whose fields are private: what is read must be written back the same, and show the values
fn shown<T: SerializeBytes + DeserializeBytes + Debug>(c: &Value, eq: impl Fn(&T) -> Option<String>) {
	CHECKED.fetch_add(1, SeqCst);
	let b = by(&c["b"]);
	read_back::<T>(c, &b, &eq);
	if let Ok((v, _)) = de::<T>(&b, mode(c)) {
		write(c, &v, true);
	}
}
fn differ<T: PartialEq + Debug>(what: &str, a: T, b: T) -> Option<String> {
	(a != b).then(|| format!("{what} {a:?} for {b:?}"))
}
fn variant(w: &MultilinearPolyVariant<B128>, v: &Value) -> Option<String> {
	use MultilinearPolyVariant::*;
	let a = &v["a"];
	let n = |i: usize| -> usize { Build::build(&a[i]) };
	let id = || OracleId::build(&a[0]);
	match (us(&v["v"]), w) {
		(0, Committed) => None,
		(1, Transparent(t)) => {
			let p = Dp::build(&a[0]);
			differ("variables", t.poly().n_vars(), p.n_vars())
		}
		(2, Structured(s)) => differ("circuit", s.steps(), ArithCircuit::<B128>::build(&a[0]).steps()),
		(3, Repeating { id: i, log_count }) => differ("repeating", (*i, *log_count), (id(), n(1))),
		(4, Projected(p)) => differ("projected", (p.id(), p.values().clone(), p.start_index()), (id(), Build::build(&a[1]), n(2))),
		(5, Shifted(s)) => differ("shifted", (s.id(), s.shift_offset(), s.block_size(), s.shift_variant()), (id(), n(1), n(2), Build::build(&a[3]))),
		(6, Packed(p)) => differ("packed", (p.id(), p.log_degree()), (id(), n(1))),
		(7, LinearCombination(l)) => differ(
			"combination",
			(l.n_vars(), l.offset(), l.polys().zip(l.coefficients()).collect::<Vec<_>>()),
			(n(0), Build::build(&a[1]), Build::build(&a[2])),
		),
		(8, ZeroPadded(z)) => differ("padded", (z.id(), z.n_pad_vars(), z.nonzero_index(), z.start_index()), (id(), n(1), n(2), n(3))),
		(9, Composite(m)) => differ("composite", (m.n_vars(), m.inner().clone(), m.c().clone()), (n(0), Build::build(&a[1]), Build::build(&a[2]))),
		_ => Some(format!("another variant: {w:?}")),
	}
}
fn oracle(w: &MultilinearPolyOracle<B128>, v: &Value) -> Option<String> {
	differ("oracle", (w.id, w.name.clone(), w.n_vars, w.tower_level), (Build::build(&v[0]), Build::build(&v[1]), Build::build(&v[2]), Build::build(&v[3])))
		.or_else(|| variant(&w.variant, &v[4]))
}
fn packed<P: PackedField<Scalar: Sc> + SerializeBytes + DeserializeBytes>(c: &Value) {
	let v: P = packed_of(&c["v"]);
	if let Some(b) = write(c, &v, true) {
		read_back::<P>(c, &b, |w| differ(fm::short::<P>(), *w, v));
	}
}
macro_rules! packs { ($c:expr; $($t:ty),*) => { {$(packed::<$t>($c);)*} }; }
fn case(c: &Value) {
	type B = BinaryField8b;
	let native = st(&c["mode"]) == "native";
	match st(&c["ty"]) {
		"u8" => both::<u8>(c),
		"u16" => both::<u16>(c),
		"u32" => both::<u32>(c),
		"u64" => both::<u64>(c),
		"u128" => both::<u128>(c),
		"usize" | "usizebig" => both::<usize>(c),
		"bool" => both::<bool>(c),
		"str" => {
			both::<String>(c);
			let v = String::build(&c["v"]);
			write(c, &v.as_str(), true);
		}
		"b1" => both::<BinaryField1b>(c),
		"b2" => both::<BinaryField2b>(c),
		"b4" => both::<BinaryField4b>(c),
		"b8" => both::<BinaryField8b>(c),
		"b16" => both::<BinaryField16b>(c),
		"b32" => both::<BinaryField32b>(c),
		"b64" => both::<BinaryField64b>(c),
		"b128" => both::<BinaryField128b>(c),
		"a8" => both::<AESTowerField8b>(c),
		"a16" => both::<AESTowerField16b>(c),
		"a32" => both::<AESTowerField32b>(c),
		"a64" => both::<AESTowerField64b>(c),
		"a128" => both::<AESTowerField128b>(c),
		"pv" => both::<BinaryField128bPolyval>(c),
		"arr32" => both::<GenericArray<u8, typenum::U32>>(c),
		"arr1" => both::<GenericArray<u8, typenum::U1>>(c),
		"p8" => packs!(c; PackedBinaryField8x1b, PackedBinaryField4x2b, PackedBinaryField2x4b, PackedBinaryField1x8b),
		"p16" => packs!(c; PackedBinaryField16x1b, PackedBinaryField2x8b, PackedBinaryField1x16b),
		"p32" => packs!(c; PackedBinaryField32x1b, PackedBinaryField4x8b, PackedBinaryField2x16b, PackedBinaryField1x32b),
		"p64" => packs!(c; PackedBinaryField64x1b, PackedBinaryField8x8b, PackedBinaryField4x16b, PackedBinaryField1x64b),
		"p128" => {
			packs!(c; PackedBinaryField128x1b, PackedBinaryField64x2b, PackedBinaryField32x4b, PackedBinaryField16x8b, PackedBinaryField8x16b, PackedBinaryField4x32b, PackedBinaryField2x64b, PackedBinaryField1x128b);
			if native {
				packs!(c; PackedAESBinaryField16x8b, PackedAESBinaryField1x128b);
			}
		}
		"p256" => {
			packs!(c; PackedBinaryField256x1b, PackedBinaryField32x8b, PackedBinaryField16x16b, PackedBinaryField8x32b, PackedBinaryField4x64b, PackedBinaryField2x128b);
			if native {
				packs!(c; PackedAESBinaryField32x8b, PackedAESBinaryField2x128b);
			}
		}
		"p512" => {
			packs!(c; PackedBinaryField512x1b, PackedBinaryField64x8b, PackedBinaryField16x32b, PackedBinaryField4x128b);
			if native {
				packs!(c; PackedAESBinaryField64x8b, PackedAESBinaryField4x128b);
			}
		}
		"v_b8" => both::<Vec<B>>(c),
		"v_a16" => both::<Vec<AESTowerField16b>>(c),
		"v_v_u16" => both::<Vec<Vec<u16>>>(c),
		"v_b1" => both::<Vec<BinaryField1b>>(c),
		"o_b32" => both::<Option<BinaryField32b>>(c),
		"o_str" => both::<Option<String>>(c),
		"o_v_bool" => both::<Option<Vec<bool>>>(c),
		"o_o_u8" => both::<Option<Option<u8>>>(c),
		"t_u8_str" => both::<(u8, String)>(c),
		"v_t" => both::<Vec<(usize, B128)>>(c),
		"v_str" => both::<Vec<String>>(c),
		"t_nested" => both::<((bool, Option<u32>), Vec<Option<u16>>)>(c),
		"phantom" => both::<PhantomData<B>>(c),
		"oid" | "oidbig" => both::<OracleId>(c),
		"step_b8" => both::<ArithCircuitStep<B>>(c),
		"circ_b128" => both::<ArithCircuit<B128>>(c),
		"circ_b8" => both::<ArithCircuit<B>>(c),
		"circ_a128" => both::<ArithCircuit<AESTowerField128b>>(c),
		"cpoly" => both::<ArithCircuitPoly<B128>>(c),
		"dir" => both::<FlushDirection>(c),
		"orconst" => both::<OracleOrConst<B128>>(c),
		"flush" => both::<Flush<B128>>(c),
		"boundary" => both::<Boundary<B128>>(c),
		"pred" => both::<ConstraintPredicate<B128>>(c),
		"constraint" => both::<Constraint<B128>>(c),
		"cset" => both::<ConstraintSet<B128>>(c),
		"sized" => both::<SizedConstraintSet<B128>>(c),
		"exp" => both::<Exp<B128>>(c),
		"sizespec" => both::<TableSizeSpec>(c),
		"shift" => both::<ShiftVariant>(c),
		"proj" => both::<ProjectionVariant>(c),
		"poly" => {
			poly(c);
			both::<TransparentPolyOracle<B128>>(c);
		}
		"symvariant" => both::<SymbolicMultilinearPolyVariant<B128>>(c),
		"symoracle" => both::<SymbolicMultilinearOracle<B128>>(c),
		"system" => both::<ConstraintSystem<B128>>(c),
		"polyvariant" => shown::<MultilinearPolyVariant<B128>>(c, |w| variant(w, &c["v"])),
		"polyoracle" => shown::<MultilinearPolyOracle<B128>>(c, |w| oracle(w, &c["v"])),
		"oracleset" => shown::<MultilinearOracleSet<B128>>(c, |w| differ("size", w.size(), Build::build(&c["v"][1]))),
		k => panic!("unknown type {k}"),
	}
}

fn main() {
	init();
	let cases = read_ndjson(&args()[1]);
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..6 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, SeqCst);
					if i >= cases.len() {
						break;
					}
					if let Err(e) = guarded(|| case(&cases[i])) {
						bad(format!("{}: harness: {e}", st(&cases[i]["ty"])), &cases[i]);
					}
				}
			});
		}
	});
	summary(json!({"cases": cases.len(), "checked": CHECKED.load(SeqCst)}));
}
