//! Replays Ntt.tla: transforms, encodings, interpolations and folds on every implementation, packing and isomorphic field.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

use binius_core::reed_solomon::reed_solomon::ReedSolomonCode;
use binius_field::*;
use binius_math::BinarySubspace;
use binius_ntt::{
	twiddle::{OnTheFlyTwiddleAccess, PrecomputedTwiddleAccess, TwiddleAccess},
	*,
};
use vharness::*;

static CHECKED: AtomicUsize = AtomicUsize::new(0);

/// a field with an image of the 16-bit (or 8-bit) tower field
trait Fm: BinaryField + Sync {
	fn of(x: u64) -> Self;
}
macro_rules! fm { ($($t:ident $u:ty),*) => {$(impl Fm for $t { fn of(x: u64) -> Self { $t::new(x as $u) } })*}; }
fm!(BinaryField8b u8, BinaryField16b u16, BinaryField32b u32, BinaryField64b u64, BinaryField128b u128);
impl Fm for AESTowerField8b {
	fn of(x: u64) -> Self {
		BinaryField8b::new(x as u8).into()
	}
}
impl Fm for AESTowerField16b {
	fn of(x: u64) -> Self {
		BinaryField16b::new(x as u16).into()
	}
}
impl Fm for AESTowerField128b {
	fn of(x: u64) -> Self {
		BinaryField128b::new(x as u128).into()
	}
}
impl Fm for BinaryField128bPolyval {
	fn of(x: u64) -> Self {
		BinaryField128b::new(x as u128).into()
	}
}

fn bad(what: String, c: &Value) {
	violation(what, c.clone());
}
fn short<T>() -> &'static str {
	std::any::type_name::<T>()
}
fn vals<F: Fm>(v: &Value) -> Vec<F> {
	nums(v).into_iter().map(F::of).collect()
}
fn pack<P: PackedField>(v: &[P::Scalar]) -> Vec<P> {
	v.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect()
}
fn cmp<P: PackedField>(what: &str, got: &[P], want: &[P::Scalar], c: &Value) {
	CHECKED.fetch_add(want.len(), SeqCst);
	for (i, w) in want.iter().enumerate() {
		let g = got[i / P::WIDTH].get(i % P::WIDTH);
		if g != *w {
			return bad(format!("{what}: entry {i} is {g:?}, not {w:?}"), c);
		}
	}
}
fn shape(c: &Value) -> NTTShape {
	NTTShape { log_x: us(&c["x"]), log_y: us(&c["y"]), log_z: us(&c["z"]) }
}
fn basis<F: Fm>(c: &Value) -> BinarySubspace<F> {
	BinarySubspace::new_unchecked(vals(&c["b"]))
}

/// calls the body with every implementation over the domain
macro_rules! every_ntt {
	($F:ty, $c:expr, |$n:ident, $name:ident| $body:expr) => {{
		let c = $c;
		let dom = basis::<$F>(c);
		let mk = || SingleThreadedNTT::<$F>::with_subspace(&dom).expect("domain");
		macro_rules! one { ($e:expr, $l:expr) => {{ let $n = &$e; let $name = &$l as &str; $body }}; }
		one!(mk(), "single");
		one!(mk().precompute_twiddles(), "single precomputed");
		for t in 0..4 {
			one!(mk().multithreaded_with_max_threads(t), format!("2^{t} threads"));
		}
		one!(mk().precompute_twiddles().multithreaded_with_max_threads(2), "4 threads precomputed");
		one!(mk().multithreaded(), "default threads");
	}};
}
macro_rules! canonical_ntt {
	($F:ty, $c:expr, |$n:ident, $name:ident| $body:expr) => {{
		let c = $c;
		let l = us(&c["L"]);
		if c["basis"] == json!(0) {
			macro_rules! one { ($e:expr, $l:expr) => {{ let $n = &$e; let $name = &$l as &str; $body }}; }
			one!(SingleThreadedNTT::<$F>::new(l).expect("domain"), "canonical");
			for pre in [false, true] {
				for (t, s) in [ThreadingSettings::SingleThreaded, ThreadingSettings::MultithreadedDefault, ThreadingSettings::ExplicitThreadsCount { log_threads: 1 }].into_iter().enumerate() {
					one!(DynamicDispatchNTT::<$F>::new(l, &NTTOptions { precompute_twiddles: pre, thread_settings: s }).expect("domain"), format!("dynamic {pre} {t}"));
				}
			}
		}
	}};
}

fn transform<F: Fm, P: PackedField<Scalar = F>>(ntt: &impl AdditiveNTT<F>, name: &str, c: &Value) {
	let (i, o) = (vals::<F>(&c["in"]), vals::<F>(&c["out"]));
	let (s, k, kb, skip) = (shape(c), us(&c["c"]), us(&c["cb"]), us(&c["skip"]));
	let what = format!("{} {name}", short::<P>());
	let mut d = pack::<P>(&i);
	match guarded(|| ntt.forward_transform(&mut d, s, k, kb, skip)) {
		Ok(Ok(())) => cmp(&format!("forward, {what}"), &d, &o, c),
		e => bad(format!("forward, {what}: {e:?}"), c),
	}
	let mut d = pack::<P>(&o);
	match guarded(|| ntt.inverse_transform(&mut d, s, k, kb, skip)) {
		Ok(Ok(())) => cmp(&format!("inverse, {what}"), &d, &i, c),
		e => bad(format!("inverse, {what}: {e:?}"), c),
	}
}
/// the same entries as coordinates of an extension field
fn transform_ext<F: Fm, PE: PackedExtension<F> + PackedField<Scalar: ExtensionField<F>>>(ntt: &impl AdditiveNTT<F>, name: &str, c: &Value) {
	let ld = <PE::Scalar as ExtensionField<F>>::LOG_DEGREE;
	let s = shape(c);
	if s.log_x < ld {
		return;
	}
	let ext = |v: &Value| -> Vec<PE::Scalar> { vals::<F>(v).chunks(1 << ld).map(|b| PE::Scalar::from_bases(b.iter().copied()).expect("bases")).collect() };
	let (i, o) = (ext(&c["in"]), ext(&c["out"]));
	let s = NTTShape { log_x: s.log_x - ld, ..s };
	let (k, kb, skip) = (us(&c["c"]), us(&c["cb"]), us(&c["skip"]));
	let what = format!("{} {name}", short::<PE>());
	let mut d = pack::<PE>(&i);
	match guarded(|| ntt.forward_transform_ext(&mut d, s, k, kb, skip)) {
		Ok(Ok(())) => cmp(&format!("forward of an extension, {what}"), &d, &o, c),
		e => bad(format!("forward of an extension, {what}: {e:?}"), c),
	}
	let mut d = pack::<PE>(&o);
	match guarded(|| ntt.inverse_transform_ext(&mut d, s, k, kb, skip)) {
		Ok(Ok(())) => cmp(&format!("inverse of an extension, {what}"), &d, &i, c),
		e => bad(format!("inverse of an extension, {what}: {e:?}"), c),
	}
}

fn encode<F: Fm, PE: PackedExtension<F> + PackedField<Scalar: ExtensionField<F>>>(ntt: &(impl AdditiveNTT<F> + Sync), name: &str, c: &Value) {
	let ld = <PE::Scalar as ExtensionField<F>>::LOG_DEGREE;
	let (dim, rate, batch) = (us(&c["dim"]), us(&c["rate"]), us(&c["batch"]));
	if batch < ld {
		return;
	}
	let what = format!("encoding, {} over {} {name}", short::<PE>(), short::<F>());
	let ext = |v: &Value| -> Vec<PE::Scalar> { vals::<F>(v).chunks(1 << ld).map(|b| PE::Scalar::from_bases(b.iter().copied()).expect("bases")).collect() };
	let (m, want) = (ext(&c["msg"]), ext(&c["code"]));
	let code = match ReedSolomonCode::<F>::with_ntt_subspace(ntt, dim, rate) {
		Ok(x) => x,
		Err(e) => return bad(format!("{what}: {e:?}"), c),
	};
	if code.subspace().basis() != vals::<F>(&c["dom"]) || code.dim() != 1 << dim || code.log_dim() != dim || code.len() != 1 << (dim + rate) || code.log_len() != dim + rate || code.inv_rate() != 1 << rate {
		bad(format!("{what}: parameters"), c);
	}
	let mut buf = pack::<PE>(&m);
	// what follows the message must not matter
	let n = (want.len() / PE::WIDTH).max(1);
	buf.resize(n, PE::broadcast(PE::Scalar::ONE));
	if m.len() < PE::WIDTH {
		for i in m.len()..PE::WIDTH {
			buf[0].set(i, PE::Scalar::ONE);
		}
	}
	match guarded(|| code.encode_ext_batch_inplace(ntt, &mut buf, batch - ld)) {
		Ok(Ok(())) => cmp(&what, &buf, &want, c),
		e => bad(format!("{what}: {e:?}"), c),
	}
	// a buffer of another size is refused
	let mut long = buf.clone();
	long.extend(buf.iter().copied());
	if matches!(guarded(|| code.encode_ext_batch_inplace(ntt, &mut long, batch - ld)), Ok(Ok(()))) {
		bad(format!("{what}: takes a buffer twice as long"), c);
	}
	// and so is a transform over other points
	if dim + rate >= 2 {
		let mut b = vals::<F>(&c["dom"]);
		let last = b.len() - 1;
		b[last] += F::ONE;
		let other = SingleThreadedNTT::<F>::with_subspace(&BinarySubspace::new_unchecked(b)).expect("domain");
		if matches!(guarded(|| code.encode_ext_batch_inplace(&other, &mut buf, batch - ld)), Ok(Ok(()))) {
			bad(format!("{what}: takes a transform over other points"), c);
		}
	}
}

fn odd<F: Fm>(ntt: &impl AdditiveNTT<F>, name: &str, c: &Value) {
	let (d, ell, cb) = (us(&c["d"]), us(&c["ell"]), us(&c["cb"]));
	let what = format!("interpolation on {d} cosets, {} {name}", short::<F>());
	let mut data = vals::<F>(&c["evals"]);
	match guarded(|| OddInterpolate::new(ntt, d, ell, cb).and_then(|o| o.inverse_transform(&mut data))) {
		Ok(Ok(())) => cmp(&what, &data, &vals::<F>(&c["coeffs"]), c),
		e => bad(format!("{what}: {e:?}"), c),
	}
	if matches!(guarded(|| OddInterpolate::new(ntt, (1 << cb) + 1, ell, cb).is_ok()), Ok(true)) {
		bad(format!("{what}: takes more cosets than there are"), c);
	}
	if matches!(guarded(|| OddInterpolate::new(ntt, 1, ntt.log_domain_size() + 1, 0).is_ok()), Ok(true)) {
		bad(format!("{what}: takes more points than there are"), c);
	}
	data.push(F::ONE);
	if matches!(guarded(|| OddInterpolate::new(ntt, d, ell, cb).and_then(|o| o.inverse_transform(&mut data)).is_ok()), Ok(true)) {
		bad(format!("{what}: takes a value too many"), c);
	}
}

fn fold<F: Fm + ExtensionField<FS>, FS: Fm, P: PackedField<Scalar = F>>(ntt: &(impl AdditiveNTT<FS> + Sync), name: &str, c: &Value) {
	let what = format!("fold, {} {name}", short::<P>());
	let (len, batch) = (us(&c["len"]), us(&c["batch"]));
	let (w, cs, want) = (vals::<F>(&c["word"]), vals::<F>(&c["cs"]), vals::<F>(&c["out"]));
	if w.len() < P::WIDTH {
		return;
	}
	match guarded(|| fri::fold_interleaved::<F, FS, _, P>(ntt, &pack::<P>(&w), &cs, len, batch)) {
		Ok(g) if g.len() == want.len() => cmp(&what, &g, &want, c),
		Ok(g) => bad(format!("{what}: {} values, not {}", g.len(), want.len()), c),
		Err(e) => bad(format!("{what}: {e}"), c),
	}
}

fn twiddles<F: Fm>(c: &Value) {
	let dom = basis::<F>(c);
	let tw: Vec<Vec<F>> = arr(&c["tw"]).iter().map(|r| vals(r)).collect();
	let doms: Vec<Vec<F>> = arr(&c["doms"]).iter().map(|r| vals(r)).collect();
	fn one<F: Fm>(name: &str, got: &[impl TwiddleAccess<F>], tw: &[Vec<F>], doms: &[Vec<F>], c: &Value) {
		let what = format!("{} {name}", short::<F>());
		if got.len() != tw.len() {
			return bad(format!("{what}: {} rounds", got.len()), c);
		}
		for (r, (g, w)) in got.iter().zip(tw).enumerate() {
			let n = g.log_n();
			if 1 << n != w.len() {
				bad(format!("{what}: round {r} has 2^{n} twiddles"), c);
				continue;
			}
			let (s, shift) = g.affine_subspace();
			if s.basis() != doms[doms.len() - 1 - r] || shift != F::ZERO {
				bad(format!("{what}: domain of round {r}"), c);
			}
			for i in 0..w.len() {
				if g.get(i) != w[i] {
					return bad(format!("{what}: twiddle {i} of round {r}"), c);
				}
			}
			for bits in 0..n {
				for i in 0..1 << bits {
					if g.get_pair(bits, i) != (w[i], w[1 << bits | i]) {
						return bad(format!("{what}: pair {i} of 2^{bits} of round {r}"), c);
					}
				}
			}
			for bits in 0..=n {
				for k in 0..1usize << bits {
					let co = g.coset(bits, k);
					let part = &w[k << (n - bits)..(k + 1) << (n - bits)];
					if 1 << co.log_n() != part.len() || (0..part.len()).any(|i| co.get(i) != part[i]) {
						return bad(format!("{what}: coset {k} of 2^{bits} of round {r}"), c);
					}
					let (s, shift) = co.affine_subspace();
					if shift != part[0] || s.dim() != n - bits + 1 || s.basis()[1..].iter().enumerate().any(|(i, &b)| b != w[1 << i]) {
						return bad(format!("{what}: points of coset {k} of 2^{bits} of round {r}"), c);
					}
					for b2 in 0..n - bits {
						for i in 0..1 << b2 {
							if co.get_pair(b2, i) != (part[i], part[1 << b2 | i]) {
								return bad(format!("{what}: pair in coset {k} of round {r}"), c);
							}
						}
					}
				}
			}
			CHECKED.fetch_add(w.len(), SeqCst);
		}
	}
	match (OnTheFlyTwiddleAccess::generate(&dom), PrecomputedTwiddleAccess::generate(&dom)) {
		(Ok(a), Ok(b)) => {
			one("twiddles on the fly", &a, &tw, &doms, c);
			one("twiddles precomputed", &b, &tw, &doms, c);
		}
		(a, b) => bad(format!("twiddles refused {} {}", a.is_err(), b.is_err()), c),
	}
	let mut no_one = vals::<F>(&c["b"]);
	no_one[0] += F::of(2);
	if SingleThreadedNTT::<F>::with_subspace(&BinarySubspace::new_unchecked(no_one)).is_ok() {
		bad("takes a domain whose first basis element is not one".into(), c);
	}
	every_ntt!(F, c, |n, name| {
		for (d, w) in doms.iter().enumerate() {
			if n.subspace(d + 1).basis() != w {
				bad(format!("{} {name}: domain of dimension {}", short::<F>(), d + 1), c);
			}
		}
		if n.log_domain_size() != doms.len() {
			bad(format!("{} {name}: size of the domain", short::<F>()), c);
		}
	});
}

fn refusal(c: &Value) {
	type F = BinaryField8b;
	let (s, k, kb, skip, len) = (shape(c), us(&c["c"]), us(&c["cb"]), us(&c["skip"]), us(&c["len"]));
	let full = 1usize << (s.log_x + s.log_y + s.log_z);
	// a buffer of one or two elements may be longer than the tensor
	if (len.is_power_of_two() && len <= 2 && full <= len) || len == 0 {
		return;
	}
	let ok = c["ok"] == json!(true);
	let l = us(&c["L"]);
	let st = SingleThreadedNTT::<F>::new(l).expect("domain");
	let pre = SingleThreadedNTT::<F>::new(l).expect("domain").precompute_twiddles();
	let mt = SingleThreadedNTT::<F>::new(l).expect("domain").multithreaded_with_max_threads(1);
	let d: Vec<F> = (0..len).map(|i| F::new(i as u8)).collect();
	macro_rules! one { ($n:expr, $name:literal) => {{
		let mut a = d.clone();
		let f = guarded(|| $n.forward_transform(&mut a, s, k, kb, skip).map_err(|e| e.to_string()));
		let mut a = d.clone();
		let i = guarded(|| $n.inverse_transform(&mut a, s, k, kb, skip).map_err(|e| e.to_string()));
		CHECKED.fetch_add(2, SeqCst);
		for (n, r) in [("forward", f), ("inverse", i)] {
			if !(matches!(r, Ok(Ok(()))) && ok || matches!(r, Ok(Err(_))) && !ok) {
				bad(format!("{} {n}: {r:?} for a shape that is {}", $name, if ok { "admissible" } else { "not" }), c);
			}
		}
	}}; }
	one!(st, "single");
	one!(pre, "precomputed");
	one!(mt, "multithreaded");
}

fn case(c: &Value) {
	let small = us(&c["lv"]) == 3;
	match st(&c["k"]) {
		"ntt" => {
			macro_rules! on { ($F:ty: $($P:ident),* ; $($E:ident),*) => {{
				every_ntt!($F, c, |n, name| { $(transform::<$F, $P>(n, name, c);)* $(transform_ext::<$F, $E>(n, name, c);)* });
			}}; }
			macro_rules! canon { ($F:ty: $($P:ident),*) => { canonical_ntt!($F, c, |n, name| { $(transform::<$F, $P>(n, name, c);)* }); }; }
			if small {
				on!(BinaryField8b: BinaryField8b, PackedBinaryField2x8b, PackedBinaryField4x8b, PackedBinaryField8x8b, PackedBinaryField16x8b, PackedBinaryField32x8b, PackedBinaryField64x8b;
					PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x32b, PackedBinaryField16x16b, PackedBinaryField8x8b);
				canon!(BinaryField8b: BinaryField8b, PackedBinaryField16x8b);
				on!(AESTowerField8b: AESTowerField8b, PackedAESBinaryField16x8b, PackedAESBinaryField64x8b, ByteSlicedAES16x8b; PackedAESBinaryField1x128b, PackedAESBinaryField4x32b);
				if c["basis"] == json!(0) {
					let l = us(&c["L"]);
					transform::<AESTowerField8b, AESTowerField8b>(&SingleThreadedNTT::<AESTowerField8b>::with_canonical_field(l).expect("domain"), "canonical", c);
					transform::<AESTowerField8b, PackedAESBinaryField32x8b>(&SingleThreadedNTT::<AESTowerField8b>::with_domain_field::<BinaryField8b>(l).expect("domain"), "domain field", c);
				}
			} else {
				on!(BinaryField16b: BinaryField16b, PackedBinaryField2x16b, PackedBinaryField4x16b, PackedBinaryField8x16b, PackedBinaryField16x16b, PackedBinaryField32x16b;
					PackedBinaryField1x128b, PackedBinaryField4x128b, PackedBinaryField8x32b, PackedBinaryField2x64b);
				canon!(BinaryField16b: BinaryField16b, PackedBinaryField8x16b);
				on!(AESTowerField16b: AESTowerField16b, PackedAESBinaryField8x16b, ByteSlicedAES16x16b; PackedAESBinaryField2x128b);
			}
			on!(BinaryField32b: BinaryField32b, PackedBinaryField4x32b, PackedBinaryField16x32b; PackedBinaryField1x128b);
			on!(BinaryField128b: BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b; );
			on!(BinaryField128bPolyval: BinaryField128bPolyval, PackedBinaryPolyval2x128b; );
		}
		"rs" => {
			macro_rules! on { ($F:ty: $($E:ident),*) => {{ every_ntt!($F, c, |n, name| { $(encode::<$F, $E>(n, name, c);)* }); }}; }
			if small {
				on!(BinaryField8b: BinaryField8b, PackedBinaryField2x8b, PackedBinaryField4x8b, PackedBinaryField8x8b, PackedBinaryField16x8b, PackedBinaryField32x8b, PackedBinaryField64x8b,
					PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b, PackedBinaryField4x32b, PackedBinaryField16x16b);
				on!(AESTowerField8b: PackedAESBinaryField16x8b, PackedAESBinaryField1x128b);
			} else {
				on!(BinaryField16b: BinaryField16b, PackedBinaryField8x16b, PackedBinaryField32x16b, PackedBinaryField1x128b, PackedBinaryField4x128b, PackedBinaryField8x32b);
			}
			on!(BinaryField32b: BinaryField32b, PackedBinaryField8x32b, PackedBinaryField1x128b, PackedBinaryField4x128b);
			on!(BinaryField128b: BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
			canonical_ntt!(BinaryField32b, c, |n, name| encode::<BinaryField32b, PackedBinaryField1x128b>(n, name, c));
			if c["basis"] == json!(0) && us(&c["L"]) == us(&c["dim"]) + us(&c["rate"]) {
				let code = ReedSolomonCode::<BinaryField32b>::new(us(&c["dim"]), us(&c["rate"]));
				if !code.is_ok_and(|x| x.subspace().basis() == vals::<BinaryField32b>(&c["dom"])) {
					bad("code of its own domain".into(), c);
				}
			}
			let n = SingleThreadedNTT::<BinaryField32b>::with_subspace(&basis(c)).expect("domain");
			if ReedSolomonCode::<BinaryField32b>::with_ntt_subspace(&n, us(&c["dim"]), us(&c["L"]) + 1 - us(&c["dim"])).is_ok()
				|| ReedSolomonCode::<BinaryField32b>::with_subspace(basis(c), us(&c["dim"]), us(&c["L"]) + 1 - us(&c["dim"])).is_ok()
			{
				bad("takes a code longer than its domain".into(), c);
			}
		}
		"odd" => {
			if small {
				every_ntt!(BinaryField8b, c, |n, name| odd::<BinaryField8b>(n, name, c));
				every_ntt!(AESTowerField8b, c, |n, name| odd::<AESTowerField8b>(n, name, c));
			} else {
				every_ntt!(BinaryField16b, c, |n, name| odd::<BinaryField16b>(n, name, c));
			}
			every_ntt!(BinaryField128b, c, |n, name| odd::<BinaryField128b>(n, name, c));
		}
		"fold" => {
			macro_rules! on { ($FS:ty, $F:ty: $($P:ident),*) => {{ every_ntt!($FS, c, |n, name| { $(fold::<$F, $FS, $P>(n, name, c);)* }); }}; }
			if small {
				on!(BinaryField8b, BinaryField128b: BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
				on!(AESTowerField8b, AESTowerField128b: AESTowerField128b, PackedAESBinaryField2x128b);
			} else {
				on!(BinaryField16b, BinaryField128b: BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
				on!(BinaryField16b, BinaryField32b: BinaryField32b, PackedBinaryField4x32b);
			}
			on!(BinaryField128b, BinaryField128b: BinaryField128b, PackedBinaryField2x128b, PackedBinaryField4x128b);
		}
		"tw" => {
			if small {
				twiddles::<BinaryField8b>(c);
				twiddles::<AESTowerField8b>(c);
			}
			twiddles::<BinaryField16b>(c);
			twiddles::<AESTowerField16b>(c);
			twiddles::<AESTowerField128b>(c);
			twiddles::<BinaryField128bPolyval>(c);
			twiddles::<BinaryField64b>(c);
		}
		"shape" => refusal(c),
		k => panic!("unknown case {k}"),
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	// domains the field cannot hold
	for l in [9, 10, 64] {
		if guarded(|| SingleThreadedNTT::<BinaryField8b>::new(l).is_ok()) != Ok(false) || guarded(|| DynamicDispatchNTT::<BinaryField8b>::new(l, &NTTOptions::default()).is_ok()) != Ok(false) {
			bad(format!("takes a domain of dimension {l} in a field of 8 bits"), &json!({"L": l}));
		}
	}
	if guarded(|| SingleThreadedNTT::<BinaryField8b>::new(0).is_ok()) != Ok(false) {
		bad("takes an empty domain".into(), &json!({"L": 0}));
	}
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..6 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, SeqCst);
					if i >= cases.len() {
						break;
					}
					if let Err(e) = guarded(|| case(&cases[i])) {
						bad(format!("harness: {e}"), &cases[i]);
					}
				}
			});
		}
	});
	summary(json!({"cases": cases.len(), "checked": CHECKED.load(SeqCst)}));
}
