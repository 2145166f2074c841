//! Replays Field.tla: rows of operands and results for every field family, put in the lanes of every packed type; positions of lanes;
//! linear maps; subfield operations.
use std::{
	collections::HashMap,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_field::{
	arithmetic_traits::{InvertOrZero, MulAlpha, Square},
	linear_transformation::{FieldLinearTransformation, PackedTransformationFactory, Transformation},
	packed::*,
	underlier::{U1, U2, U4, WithUnderlier},
	util::*,
	*,
};
use vharness::*;

static CHECKED: AtomicUsize = AtomicUsize::new(0);
static TYPES: AtomicUsize = AtomicUsize::new(0);

trait Sc: Field {
	fn of(x: u128) -> Self;
	fn raw(self) -> u128;
}
macro_rules! sc {
	($($t:ident $u:ty),*) => {$(impl Sc for $t {
		fn of(x: u128) -> Self { <$t as WithUnderlier>::from_underlier(x as $u) }
		fn raw(self) -> u128 { <$t as WithUnderlier>::to_underlier(self) as u128 }
	})*};
}
sc!(BinaryField8b u8, BinaryField16b u16, BinaryField32b u32, BinaryField64b u64, BinaryField128b u128,
	AESTowerField8b u8, AESTowerField16b u16, AESTowerField32b u32, AESTowerField64b u64, AESTowerField128b u128, BinaryField128bPolyval u128);
macro_rules! scs {
	($($t:ident $u:ident),*) => {$(impl Sc for $t {
		fn of(x: u128) -> Self { <$t as WithUnderlier>::from_underlier($u::new(x as u8)) }
		fn raw(self) -> u128 { <$t as WithUnderlier>::to_underlier(self).val() as u128 }
	})*};
}
scs!(BinaryField1b U1, BinaryField2b U2, BinaryField4b U4);

/// Whether a field reports itself as the canonical tower and as the AES tower.
fn family<F: TowerField>() -> (bool, bool) {
	(is_canonical_tower::<F>(), is_aes_tower::<F>())
}

fn big(v: &Value) -> u128 {
	nums(v).iter().enumerate().map(|(i, &x)| (x as u128) << (16 * i)).sum()
}
#[derive(Default)]
struct Rows {
	pairs: Vec<[u128; 4]>,
	un: Vec<Un>,
	pow: Vec<(u128, u64, u128)>,
	sub: HashMap<usize, Vec<[u128; 4]>>,
}
struct Un {
	a: u128,
	sq: u128,
	inv: u128,
	alpha: u128,
	prim: Vec<u128>,
	min: i64,
}
struct Lanes {
	at: Vec<usize>,
	il: Vec<[Vec<usize>; 2]>,
	uz: Vec<[Vec<usize>; 2]>,
	sp: Vec<Vec<(usize, Vec<usize>)>>,
}
struct Transp {
	w: usize,
	t: usize,
	m: usize,
	src: Vec<Vec<usize>>,
}
struct Lin {
	bases: Vec<u128>,
	rows: Vec<(u128, u128)>,
}
struct All {
	rows: HashMap<(String, usize), Rows>,
	lanes: HashMap<usize, Lanes>,
	transp: Vec<Transp>,
	lin: HashMap<usize, Vec<Lin>>,
}
fn idx(v: &Value) -> Vec<usize> {
	nums(v).iter().map(|&x| x as usize).collect()
}
fn load(path: &str) -> All {
	let mut a = All { rows: HashMap::new(), lanes: HashMap::new(), transp: vec![], lin: HashMap::new() };
	for c in read_ndjson(path) {
		let key = || (st(&c["f"]).to_string(), us(&c["lv"]));
		match st(&c["k"]) {
			"pairs" => a.rows.entry(key()).or_default().pairs.extend(arr(&c["rows"]).iter().map(|r| [big(&r["a"]), big(&r["b"]), big(&r["s"]), big(&r["p"])])),
			"un" => a.rows.entry(key()).or_default().un.extend(arr(&c["rows"]).iter().map(|r| Un {
				a: big(&r["a"]),
				sq: big(&r["sq"]),
				inv: big(&r["inv"]),
				alpha: if r["alpha"].is_null() { 0 } else { big(&r["alpha"]) },
				prim: r["prim"].as_array().map(|p| p.iter().map(big).collect()).unwrap_or_default(),
				min: r["min"].as_i64().unwrap_or(-1),
			})),
			"pow" => a.rows.entry(key()).or_default().pow.extend(arr(&c["rows"]).iter().map(|r| (big(&r["a"]), big(&r["e"]) as u64, big(&r["r"])))),
			"sub" => a.rows.entry(key()).or_default().sub.entry(us(&c["sub"])).or_default().extend(arr(&c["rows"]).iter().map(|r| [big(&r["a"]), big(&r["b"]), big(&r["s"]), big(&r["p"])])),
			"lanes" => {
				let two = |v: &Value| arr(v).iter().map(|x| [idx(&x[0]), idx(&x[1])]).collect::<Vec<_>>();
				a.lanes.insert(us(&c["w"]), Lanes {
					at: idx(&c["at"]),
					il: two(&c["il"]),
					uz: two(&c["uz"]),
					sp: arr(&c["sp"]).iter().map(|x| arr(x).iter().map(|y| (us(&y["blk"]), idx(&y["src"]))).collect()).collect(),
				});
			}
			"family" => {
				let (canonical, aes) = match (st(&c["f"]), us(&c["lv"])) {
					("bin", 0) => family::<BinaryField1b>(),
					("bin", 1) => family::<BinaryField2b>(),
					("bin", 2) => family::<BinaryField4b>(),
					("bin", 3) => family::<BinaryField8b>(),
					("bin", 4) => family::<BinaryField16b>(),
					("bin", 5) => family::<BinaryField32b>(),
					("bin", 6) => family::<BinaryField64b>(),
					("bin", _) => family::<BinaryField128b>(),
					(_, 3) => family::<AESTowerField8b>(),
					(_, 4) => family::<AESTowerField16b>(),
					(_, 5) => family::<AESTowerField32b>(),
					(_, 6) => family::<AESTowerField64b>(),
					_ => family::<AESTowerField128b>(),
				};
				if json!(canonical) != c["canonical"] || json!(aes) != c["aes"] {
					violation(format!("representation of field {} level {}: canonical {canonical}, AES {aes}; the specification says {} and {}", c["f"], c["lv"], c["canonical"], c["aes"]), c.clone());
				}
			}
			"transpose" => a.transp.push(Transp { w: us(&c["w"]), t: us(&c["t"]), m: us(&c["m"]), src: arr(&c["src"]).iter().map(idx).collect() }),
			"lin" => a.lin.entry(us(&c["lv"])).or_default().push(Lin { bases: arr(&c["bases"]).iter().map(big).collect(), rows: arr(&c["rows"]).iter().map(|r| (big(&r["a"]), big(&r["r"]))).collect() }),
			k => panic!("{k}"),
		}
	}
	a
}

/// one alarm per type and operation
fn bad(ty: &str, op: &str, detail: String) {
	static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
	let k = format!("{ty} {op}");
	let mut s = SEEN.lock().unwrap();
	if !s.contains(&k) {
		s.push(k);
		violation(format!("{ty}: {op}: {detail}"), json!({"type": ty, "op": op, "detail": detail}));
	}
}
fn name<T>() -> &'static str {
	std::any::type_name::<T>()
}
fn check<S: Sc>(ty: &str, op: &str, got: S, want: u128, ctx: impl FnOnce() -> String) {
	if got.raw() != want {
		bad(ty, op, format!("{} gives {:x}, not {want:x}", ctx(), got.raw()));
	}
}
/// lanes of a packed value against a function of the lane
fn lanes<P: PackedField<Scalar: Sc>>(op: &str, p: P, want: impl Fn(usize) -> u128, ctx: impl Fn(usize) -> String) {
	for i in 0..P::WIDTH {
		check(name::<P>(), op, p.get(i), want(i), || format!("lane {i} of {}, {}", P::WIDTH, ctx(i)));
	}
}
fn guard(ty: &str, op: &str, f: impl FnOnce()) {
	if let Err(e) = guarded(f) {
		bad(ty, op, format!("panic {e}"));
	}
}

fn packed<P: PackedField<Scalar: Sc>>(a: &All, fam: &str, lv: usize) {
	TYPES.fetch_add(1, SeqCst);
	let Some(r) = a.rows.get(&(fam.to_string(), lv)) else { return };
	let of = P::Scalar::of;
	let w = P::WIDTH;
	let n = r.pairs.len();
	// each block starts elsewhere, so that rows meet different lanes
	let blocks = (n.div_ceil(w) + 2).min(3000);
	for b in 0..blocks {
		let row = |i: usize| &r.pairs[(b * (w + 1) + i) % n];
		let (x, y) = (P::from_fn(|i| of(row(i)[0])), P::from_fn(|i| of(row(i)[1])));
		let c = |i: usize| format!("{:x}, {:x}", row(i)[0], row(i)[1]);
		guard(name::<P>(), "arithmetic", || {
			lanes("from_fn", x, |i| row(i)[0], c);
			lanes("add", x + y, |i| row(i)[2], c);
			lanes("mul", x * y, |i| row(i)[3], c);
			if b < 40 {
				lanes("sub", x - y, |i| row(i)[2], c);
				let mut z = x;
				z += y;
				lanes("add_assign", z, |i| row(i)[2], c);
				let mut z = x;
				z -= y;
				lanes("sub_assign", z, |i| row(i)[2], c);
				let mut z = x;
				z *= y;
				lanes("mul_assign", z, |i| row(i)[3], c);
				lanes("sum", [x, y].into_iter().sum::<P>(), |i| row(i)[2], c);
				lanes("product", [x, y].into_iter().product::<P>(), |i| row(i)[3], c);
				lanes("from_scalars", P::from_scalars((0..w).map(|i| of(row(i)[0]))), |i| row(i)[0], c);
				// a scalar in place of a vector
				let s = of(row(0)[1]);
				let same: Vec<usize> = (0..n).filter(|&k| r.pairs[k][1] == row(0)[1]).take(w).collect();
				let sx = P::from_fn(|i| of(r.pairs[same[i % same.len()]][0]));
				lanes("add scalar", sx + s, |i| r.pairs[same[i % same.len()]][2], c);
				lanes("sub scalar", sx - s, |i| r.pairs[same[i % same.len()]][2], c);
				lanes("mul scalar", sx * s, |i| r.pairs[same[i % same.len()]][3], c);
				let mut z = sx;
				z *= s;
				lanes("mul_assign scalar", z, |i| r.pairs[same[i % same.len()]][3], c);
				let mut z = sx;
				z += s;
				lanes("add_assign scalar", z, |i| r.pairs[same[i % same.len()]][2], c);
				lanes("broadcast", P::broadcast(s), |_| row(0)[1], c);
				lanes("set_single", P::set_single(s), |i| if i == 0 { row(0)[1] } else { 0 }, c);
				// every lane set in turn leaves the others
				let mut z = x;
				for i in (b % 3..w).step_by(3) {
					z.set(i, y.get(i));
				}
				lanes("set", z, |i| if i % 3 == b % 3 { row(i)[1] } else { row(i)[0] }, c);
				if x.get_checked(w).is_ok() || z.set_checked(w, s).is_ok() || x.get_checked(w - 1).is_err() {
					bad(name::<P>(), "get_checked", "the bound is not the width".into());
				}
				for (i, v) in x.iter().enumerate() {
					check(name::<P>(), "iter", v, row(i)[0], || format!("lane {i}"));
				}
				if x.iter().count() != w || x.into_iter().count() != w {
					bad(name::<P>(), "iter", "not as many values as lanes".into());
				}
				for (i, v) in x.into_iter().enumerate() {
					check(name::<P>(), "into_iter", v, row(i)[0], || format!("lane {i}"));
				}
				if (x == y) != (0..w).all(|i| row(i)[0] == row(i)[1]) {
					bad(name::<P>(), "eq", "differs from equality of lanes".into());
				}
			}
			CHECKED.fetch_add(w, SeqCst);
		});
	}
	let n = r.un.len();
	for b in 0..(n.div_ceil(w) + 2).min(3000) {
		let row = |i: usize| &r.un[(b * (w + 1) + i) % n];
		let x = P::from_fn(|i| of(row(i).a));
		let c = |i: usize| format!("{:x}", row(i).a);
		guard(name::<P>(), "unary", || {
			lanes("square", PackedField::square(x), |i| row(i).sq, c);
			lanes("invert_or_zero", PackedField::invert_or_zero(x), |i| row(i).inv, c);
		});
		CHECKED.fetch_add(w, SeqCst);
	}
	let n = r.pow.len();
	for b in 0..n {
		// one exponent for all lanes
		let e = r.pow[b].1;
		let same: Vec<usize> = (0..n).filter(|&k| r.pow[k].1 == e).collect();
		let x = P::from_fn(|i| of(r.pow[same[i % same.len()]].0));
		guard(name::<P>(), "pow", || lanes("pow", x.pow(e), |i| r.pow[same[i % same.len()]].2, |i| format!("{:x}^{e}", r.pow[same[i % same.len()]].0)));
	}
	positions::<P>(a, r, lv);
}
fn positions<P: PackedField<Scalar: Sc>>(a: &All, r: &Rows, lv: usize) {
	let (w, lw) = (P::WIDTH, P::LOG_WIDTH);
	let of = P::Scalar::of;
	let mask = if lv == 7 { u128::MAX } else { (1u128 << (1 << lv)) - 1 };
	// values that tell lanes apart, one bit field at a time for narrow fields
	for k in 0..if lv >= 4 { 2 } else { 14usize.div_ceil(1 << lv) + 1 } {
		let v = |i: usize| -> u128 {
			if lv >= 4 {
				if k == 0 { (i as u128 + 1) & mask } else { r.pairs[i % r.pairs.len()][0] ^ (i as u128 & mask) }
			} else {
				(i as u128) >> (k << lv) & mask
			}
		};
		let (x, y) = (P::from_fn(|i| of(v(i))), P::from_fn(|i| of(v(i + w))));
		if let Some(l) = a.lanes.get(&lw) {
			let some = |op: &str, p: P, src: &[usize], d: String| {
				for (&i, &s) in l.at.iter().zip(src) {
					check(name::<P>(), op, p.get(i), v(s), || format!("lane {i} ({d})"));
				}
			};
			for b in 0..lw {
				guard(name::<P>(), "interleave", || {
					let (p, q) = x.interleave(y, b);
					some("interleave", p, &l.il[b][0], format!("first, blocks of 2^{b}"));
					some("interleave", q, &l.il[b][1], format!("second, blocks of 2^{b}"));
				});
				guard(name::<P>(), "unzip", || {
					let (p, q) = x.unzip(y, b);
					some("unzip", p, &l.uz[b][0], format!("first, blocks of 2^{b}"));
					some("unzip", q, &l.uz[b][1], format!("second, blocks of 2^{b}"));
				});
			}
			for b in 0..=lw {
				for (blk, src) in &l.sp[b] {
					guard(name::<P>(), "spread", || some("spread", x.spread(b, *blk), src, format!("block {blk} of 2^{b}")));
				}
			}
			if guarded(|| x.spread(lw + 1, 0)).is_ok() || guarded(|| x.spread(0, w)).is_ok() {
				bad(name::<P>(), "spread", "takes a block outside the vector".into());
			}
			CHECKED.fetch_add(1, SeqCst);
		}
		for t in a.transp.iter().filter(|t| t.w == lw) {
			let mut e: Vec<P> = (0..1usize << t.m).map(|j| P::from_fn(|i| of(v(j * w + i)))).collect();
			guard(name::<P>(), "square_transpose", || {
				if square_transpose(t.t, &mut e).is_err() {
					bad(name::<P>(), "square_transpose", format!("refuses 2^{} of 2^{} by 2^{}", t.m, t.t, t.t));
					return;
				}
				for (j, s) in t.src.iter().enumerate() {
					lanes("square_transpose", e[j], |i| v(s[i]), |_| format!("vector {j} of 2^{}, squares of 2^{}", t.m, t.t));
				}
			});
		}
		if lw < 7 {
			let mut e = vec![x; 4 << lw];
			if square_transpose(lw + 1, &mut e).is_ok() {
				bad(name::<P>(), "square_transpose", "takes squares wider than a vector".into());
			}
			let mut e = vec![x; 3];
			if square_transpose(0, &mut e).is_ok() {
				bad(name::<P>(), "square_transpose", "takes three vectors".into());
			}
		}
		// slices of vectors
		let three = vec![x, y, P::from_fn(|i| of(v(i + 2 * w)))];
		guard(name::<P>(), "slices", || {
			let mut t2 = three.clone();
			for i in (0..3 * w).step_by((3 * w).div_ceil(97)) {
				check(name::<P>(), "get_packed_slice", get_packed_slice(&three, i), v(i), || format!("value {i}"));
				set_packed_slice(&mut t2, i, of(v(3 * w - 1 - i)));
				check(name::<P>(), "set_packed_slice", get_packed_slice(&t2, i), v(3 * w - 1 - i), || format!("value {i}"));
				let mut it = iter_packed_slice_with_offset(&three, i);
				check(name::<P>(), "iter_packed_slice_with_offset", it.next().unwrap(), v(i), || format!("value {i}"));
				if i % 7 == 0 && it.count() != 3 * w - 1 - i {
					bad(name::<P>(), "iter_packed_slice_with_offset", format!("wrong number of values from {i}"));
				}
			}
			if get_packed_slice_checked(&three, 3 * w).is_ok() || set_packed_slice_checked(&mut t2, 3 * w, of(0)).is_ok() || len_packed_slice(&three) != 3 * w {
				bad(name::<P>(), "slice bound", "is not three vectors".into());
			}
			for (i, x) in P::iter_slice(&three).enumerate().step_by(5) {
				check(name::<P>(), "iter_slice", x, v(i), || format!("value {i}"));
			}
		});
		for n in [1, w.div_ceil(2), w, w + 1, 2 * w - 1, 2 * w, 2 * w + w.div_ceil(2), 3 * w] {
			let n = n.min(3 * w);
			let s: Vec<P::Scalar> = (0..n).map(|i| of(v(i))).collect();
			guard(name::<P>(), "pack_slice", || {
				let p: Vec<P> = pack_slice(&s);
				for i in 0..n {
					check(name::<P>(), "pack_slice", get_packed_slice(&p, i), v(i), || format!("value {i} of {n}"));
				}
				let mut d = vec![P::broadcast(of(1)); 3];
				copy_packed_from_scalars_slice(&s, &mut d);
				for i in 0..3 * w {
					check(name::<P>(), "copy_packed_from_scalars_slice", get_packed_slice(&d, i), if i < n { v(i) } else { 1 }, || format!("value {i}, copying {n}"));
				}
			});
		}
	}
	// sums of products
	let p: Vec<P> = (0..3).map(|j| P::from_fn(|i| of(r.pairs[(j * w + i) % r.pairs.len()][0]))).collect();
	let q: Vec<P> = (0..3).map(|j| P::from_fn(|i| of(r.pairs[(j * w + i) % r.pairs.len()][1]))).collect();
	let want = (0..3 * w).fold(0, |s, i| s ^ r.pairs[i % r.pairs.len()][3]);
	guard(name::<P>(), "inner_product", || {
		check(name::<P>(), "inner_product_unchecked", inner_product_unchecked(P::iter_slice(&p), P::iter_slice(&q)), want, || "three vectors".into());
		check(name::<P>(), "inner_product_par", inner_product_par(&p, &q), want, || "three vectors".into());
	});
}
fn long_products<PX: PackedField<Scalar: Sc + ExtensionField<PY::Scalar>>, PY: PackedField<Scalar: Sc>>(a: &All, fam: &str, lv: usize, sub: usize) {
	let r = &a.rows[&(fam.to_string(), lv)].sub[&sub];
	// total values: a multiple of both widths; short, and long enough for the parallel way
	let m = PX::WIDTH.max(PY::WIDTH);
	for n in [m, 3 * m, 1024 * PY::WIDTH, 1024 * PY::WIDTH + 7 * m] {
		let n = n.div_ceil(m) * m;
		let x: Vec<PX> = (0..n / PX::WIDTH).map(|j| PX::from_fn(|i| PX::Scalar::of(r[(j * PX::WIDTH + i) % r.len()][0]))).collect();
		let y: Vec<PY> = (0..n / PY::WIDTH).map(|j| PY::from_fn(|i| PY::Scalar::of(r[(j * PY::WIDTH + i) % r.len()][1]))).collect();
		let want = (0..n).fold(0, |s, i| s ^ r[i % r.len()][3]);
		guard(name::<PX>(), "inner_product_par", || check(name::<PX>(), "inner_product_par", inner_product_par::<PX::Scalar, PX, PY>(&x, &y), want, || format!("{n} values with {}", name::<PY>())));
		CHECKED.fetch_add(n, SeqCst);
	}
	if PY::WIDTH > PX::WIDTH {
		// fewer values than the second argument has lanes
		let x: Vec<PX> = vec![PX::from_fn(|i| PX::Scalar::of(r[i % r.len()][0]))];
		let y: Vec<PY> = vec![PY::from_fn(|i| PY::Scalar::of(r[i % r.len()][1]))];
		let want = (0..PX::WIDTH).fold(0, |s, i| s ^ r[i % r.len()][3]);
		guard(name::<PX>(), "inner_product_par", || check(name::<PX>(), "inner_product_par", inner_product_par::<PX::Scalar, PX, PY>(&x, &y), want, || format!("one vector with {}", name::<PY>())));
	}
}

fn alpha<P: PackedField<Scalar: Sc> + MulAlpha>(a: &All, fam: &str, lv: usize) {
	let Some(r) = a.rows.get(&(fam.to_string(), lv)) else { return };
	let (w, n) = (P::WIDTH, r.un.len());
	for b in 0..(n.div_ceil(w) + 2).min(2000) {
		let row = |i: usize| &r.un[(b * (w + 1) + i) % n];
		let x = P::from_fn(|i| P::Scalar::of(row(i).a));
		guard(name::<P>(), "mul_alpha", || lanes("mul_alpha", x.mul_alpha(), |i| row(i).alpha, |i| format!("{:x}", row(i).a)));
		CHECKED.fetch_add(w, SeqCst);
	}
}

fn scalar<F: Sc + TowerField + Square + InvertOrZero>(a: &All, fam: &str, lv: usize) {
	let Some(r) = a.rows.get(&(fam.to_string(), lv)) else { return };
	let ty = name::<F>();
	let of = F::of;
	if F::TOWER_LEVEL != lv || F::ONE != of(if fam == "poly" { F::ONE.raw() } else { 1 }) || F::ZERO.raw() != 0 {
		bad(ty, "constants", "level, one or zero".into());
	}
	guard(ty, "scalar", || {
		for p in &r.pairs {
			let (x, y) = (of(p[0]), of(p[1]));
			let c = || format!("{:x}, {:x}", p[0], p[1]);
			check(ty, "scalar add", x + y, p[2], c);
			check(ty, "scalar sub", x - y, p[2], c);
			check(ty, "scalar mul", x * y, p[3], c);
			check(ty, "scalar neg", -x, p[0], c);
			check(ty, "scalar double", x.double(), 0, c);
			check(ty, "scalar &add", x + &y, p[2], c);
			check(ty, "scalar &mul", x * &y, p[3], c);
			check(ty, "scalar sum", [x, y].iter().sum::<F>(), p[2], c);
			check(ty, "scalar product", [x, y].iter().product::<F>(), p[3], c);
			if (x == y) != (p[0] == p[1]) {
				bad(ty, "scalar eq", c());
			}
		}
		for u in &r.un {
			let x = of(u.a);
			let c = || format!("{:x}", u.a);
			check(ty, "scalar square", Square::square(x), u.sq, c);
			check(ty, "scalar invert_or_zero", InvertOrZero::invert_or_zero(x), u.inv, c);
			match x.invert() {
				Some(y) if u.a != 0 => check(ty, "scalar invert", y, u.inv, c),
				None if u.a == 0 => {}
				_ => bad(ty, "scalar invert", c()),
			}
			if x.is_zero() != (u.a == 0) {
				bad(ty, "scalar is_zero", c());
			}
			if fam != "poly" {
				for (k, &p) in u.prim.iter().enumerate() {
					match x.mul_primitive(k) {
						Ok(y) => check(ty, "mul_primitive", y, p, || format!("{:x} by {k}", u.a)),
						Err(_) => bad(ty, "mul_primitive", format!("refuses {k}")),
					}
				}
				if x.mul_primitive(lv).is_ok() && lv > 0 {
					bad(ty, "mul_primitive", "takes a level of another field".into());
				}
				if x.min_tower_level() as i64 != u.min {
					bad(ty, "min_tower_level", format!("{:x} gives {}, not {}", u.a, x.min_tower_level(), u.min));
				}
			}
		}
		for &(x, e, want) in &r.pow {
			check(ty, "scalar pow", Field::pow(&of(x), [e]), want, || format!("{x:x}^{e}"));
			check(ty, "scalar pow_vartime", of(x).pow_vartime([e]), want, || format!("{x:x}^{e}"));
			if e < 50 {
				check(ty, "powers", powers(of(x)).nth(e as usize).unwrap(), want, || format!("{x:x}^{e}"));
			}
			check(ty, "scalar pow, two words", Field::pow(&of(x), [e, 0]), want, || format!("{x:x}^{e}"));
		}
		// the generator generates: no proper divisor of the group order takes it to one
		if lv > 0 {
			let order: u128 = if lv == 7 { u128::MAX } else { (1 << (1 << lv)) - 1 };
			let p = |e: u128| Field::pow(&F::MULTIPLICATIVE_GENERATOR, [e as u64, (e >> 64) as u64]);
			if p(order) != F::ONE || [3u128, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721].iter().any(|q| order % q == 0 && p(order / q) == F::ONE) {
				bad(ty, "MULTIPLICATIVE_GENERATOR", "does not generate the group".into());
			}
		}
	});
}

fn sub<FE: Sc + ExtensionField<FS>, FS: Sc + TryFrom<FE>>(a: &All, fam: &str, lv: usize, k: usize)
where
	FE: TowerField,
{
	let Some(r) = a.rows.get(&(fam.to_string(), lv)).and_then(|r| r.sub.get(&k)) else { return };
	let ty = &format!("{} over {}", name::<FE>(), name::<FS>());
	let bits = 1usize << k;
	let mask = if k == 7 { u128::MAX } else { (1u128 << bits) - 1 };
	let deg = 1usize << (lv - k);
	guard(ty, "subfield", || {
		if <FE as ExtensionField<FS>>::DEGREE != deg || <FE as ExtensionField<FS>>::LOG_DEGREE != lv - k {
			bad(ty, "degree", format!("{}", <FE as ExtensionField<FS>>::DEGREE));
		}
		for p in r {
			let (x, y) = (FE::of(p[0]), FS::of(p[1]));
			let c = || format!("{:x}, {:x}", p[0], p[1]);
			check(ty, "mul by subfield", x * y, p[3], c);
			check(ty, "add subfield", x + y, p[2], c);
			check(ty, "sub subfield", x - y, p[2], c);
			let mut z = x;
			z *= y;
			check(ty, "mul_assign subfield", z, p[3], c);
			let mut z = x;
			z += y;
			check(ty, "add_assign subfield", z, p[2], c);
			check(ty, "embedding", FE::from(y), p[1], c);
			let b: Vec<FS> = ExtensionField::<FS>::iter_bases(&x).collect();
			if b.len() != deg {
				bad(ty, "iter_bases", format!("{} elements", b.len()));
			}
			for (i, e) in b.iter().enumerate() {
				check(ty, "iter_bases", *e, p[0] >> (i * bits) & mask, || format!("{i} of {:x}", p[0]));
				check(ty, "get_base", ExtensionField::<FS>::get_base(&x, i), p[0] >> (i * bits) & mask, || format!("{i} of {:x}", p[0]));
			}
			let b2: Vec<FS> = ExtensionField::<FS>::into_iter_bases(x).collect();
			if b2 != b {
				bad(ty, "into_iter_bases", c());
			}
			match FE::from_bases(b.iter().copied()) {
				Ok(y) => check(ty, "from_bases", y, p[0], c),
				Err(_) => bad(ty, "from_bases", c()),
			}
			// fewer elements: the rest are zero
			match FE::from_bases(b[..deg / 2].iter().copied()) {
				Ok(y) => check(ty, "from_bases, half", y, if deg == 1 { 0 } else { p[0] & ((1 << (bits * deg / 2)) - 1) }, c),
				Err(_) => bad(ty, "from_bases, half", c()),
			}
			if FE::from_bases(b.iter().copied().chain([FS::ONE])).is_ok() {
				bad(ty, "from_bases", "takes one element more than the degree".into());
			}
			let t: Result<FS, _> = x.try_into();
			match t {
				Ok(t) if p[0] & !mask == 0 => check(ty, "try_from", t, p[0], c),
				Err(_) if p[0] & !mask != 0 => {}
				_ => bad(ty, "try_from", c()),
			}
		}
		for i in 0..deg {
			check(ty, "basis", <FE as ExtensionField<FS>>::basis(i), 1 << (i * bits), || format!("{i}"));
		}
		if <FE as ExtensionField<FS>>::basis_checked(deg).is_ok() {
			bad(ty, "basis", "takes an index past the degree".into());
		}
		CHECKED.fetch_add(r.len(), SeqCst);
	});
}
/// the tower's own basis; its elements are products of generators
fn tower_basis<F: Sc + TowerField>(fam: &str, lv: usize, conv: impl Fn(u128) -> u128) {
	// the AES tower starts at bytes
	for k in (if fam == "aes" { 3 } else { 0 })..=lv {
		for i in 0..1usize << (lv - k) {
			match <F as TowerField>::basis(k, i) {
				Ok(y) => check(name::<F>(), "tower basis", y, conv(1 << (i << k)), || format!("{i} over level {k} ({fam})")),
				Err(_) => bad(name::<F>(), "tower basis", format!("refuses {i} over level {k}")),
			}
		}
		if guarded(|| <F as TowerField>::basis(k, 1 << (lv - k)).is_ok()) == Ok(true) {
			bad(name::<F>(), "tower basis", format!("takes one too many over level {k}"));
		}
	}
	if guarded(|| <F as TowerField>::basis(lv + 1, 0).is_ok()) == Ok(true) {
		bad(name::<F>(), "tower basis", "takes a level above its own".into());
	}
}

fn subpacked<PE: PackedExtension<FS> + PackedField<Scalar: Sc>, FS: Sc>(a: &All, fam: &str, lv: usize, k: usize) {
	let Some(r) = a.rows.get(&(fam.to_string(), lv)).and_then(|r| r.sub.get(&k)) else { return };
	let (w, deg) = (PE::WIDTH, 1usize << (lv - k));
	let bits = 1usize << k;
	let mask = if k == 7 { u128::MAX } else { (1u128 << bits) - 1 };
	let ty = &format!("{} over {}", name::<PE>(), name::<FS>());
	guard(ty, "packed subfield", || {
		for b in 0..r.len().div_ceil(w).min(20) {
			let row = |i: usize| &r[(b * (w + 1) + i) % r.len()];
			let x = PE::from_fn(|i| PE::Scalar::of(row(i)[0]));
			// one multiplier
			let s = row(0)[1];
			let same: Vec<&[u128; 4]> = r.iter().filter(|q| q[1] == s).collect();
			let xs = PE::from_fn(|i| PE::Scalar::of(same[i % same.len()][0]));
			lanes("mul_by_subfield_scalar", mul_by_subfield_scalar(xs, FS::of(s)), |i| same[i % same.len()][3], |i| format!("{:x} by {s:x}", same[i % same.len()][0]));
			let base = PE::cast_base(x);
			for (i, e) in base.iter().enumerate() {
				check(ty, "cast_base", e, row(i / deg)[0] >> (i % deg * bits) & mask, || format!("value {i}"));
			}
			lanes("cast_ext", PE::cast_ext(base), |i| row(i)[0], |i| format!("{:x}", row(i)[0]));
			// a slice, each lane with its own multiplier
			let val = |i: usize| &r[(b * 31 + i) % r.len()];
			let mk = || (0..deg).map(|j| PE::from_fn(|i| PE::Scalar::of(val(j * w + i)[0]))).collect::<Vec<PE>>();
			let rhs = vec![PE::PackedSubfield::from_fn(|i| FS::of(val(i)[1]))];
			for par in [false, true] {
				let mut l = mk();
				let e = if par { ext_base_mul_par::<PE, FS>(&mut l, &rhs) } else { ext_base_mul::<PE, FS>(&mut l, &rhs) };
				if e.is_err() {
					bad(ty, "ext_base_mul", "refuses".into());
				}
				for (j, p) in l.iter().enumerate() {
					lanes("ext_base_mul", *p, |i| val(j * w + i)[3], |i| format!("{:x} by {:x}", val(j * w + i)[0], val(j * w + i)[1]));
				}
				let mut l = mk();
				l.push(x);
				if (if par { ext_base_mul_par::<PE, FS>(&mut l, &rhs) } else { ext_base_mul::<PE, FS>(&mut l, &rhs) }).is_ok() {
					bad(ty, "ext_base_mul", "takes lengths that do not match".into());
				}
			}
			CHECKED.fetch_add(w, SeqCst);
		}
	});
}

fn linear<IP, OP>(a: &All, lv: usize)
where
	IP: PackedTransformationFactory<OP> + PackedField<Scalar: Sc + BinaryField>,
	OP: PackedField<Scalar: Sc + BinaryField> + PackedBinaryField,
{
	let ty = &format!("{} to {}", name::<IP>(), name::<OP>());
	for l in &a.lin[&lv] {
		guard(ty, "linear", || {
			let bases: Vec<OP::Scalar> = l.bases.iter().map(|&b| OP::Scalar::of(b)).collect();
			let t = FieldLinearTransformation::<OP::Scalar, Vec<OP::Scalar>>::new(bases.clone());
			for (x, y) in &l.rows {
				let got: OP::Scalar = t.transform(&IP::Scalar::of(*x));
				check(ty, "linear map", got, *y, || format!("{x:x}"));
			}
			let t = IP::make_packed_transformation(t);
			for b in 0..4 {
				let row = |i: usize| l.rows[(b * 11 + i) % l.rows.len()];
				let x = IP::from_fn(|i| IP::Scalar::of(row(i).0));
				let y: OP = t.transform(&x);
				lanes(&format!("packed linear map from {}", name::<IP>()), y, |i| row(i).1, |i| format!("{:x}", row(i).0));
			}
			CHECKED.fetch_add(l.rows.len(), SeqCst);
		});
	}
}
fn converter<A, B>(a: &All, lv: usize)
where
	A: PackedExtension<AESTowerField8b> + PackedField<Scalar: Sc>,
	B: PackedExtension<BinaryField8b> + PackedField<Scalar: Sc>,
	PackedSubfield<A, AESTowerField8b>: PackedTransformationFactory<PackedSubfield<B, BinaryField8b>>,
	PackedSubfield<B, BinaryField8b>: PackedTransformationFactory<PackedSubfield<A, AESTowerField8b>>,
	A::Scalar: From<B::Scalar>,
	B::Scalar: From<A::Scalar>,
{
	let (r, q) = (&a.rows[&("bin".to_string(), lv)], &a.rows[&("aes".to_string(), lv)]);
	let to = make_aes_to_binary_packed_transformer::<A, B>();
	let back = make_binary_to_aes_packed_transformer::<B, A>();
	let ty = name::<A>();
	for b in 0..6 {
		guard(ty, "conversion", || {
			let v = |i: usize| r.pairs[(b * 37 + i) % r.pairs.len()][b % 2];
			let x = B::from_fn(|i| B::Scalar::of(v(i)));
			let y = Transformation::<B, A>::transform(&back, &x);
			for i in 0..A::WIDTH {
				check(ty, "conversion from binary", y.get(i), aes_of(v(i)), || format!("{:x}", v(i)));
				check(ty, "scalar conversion from binary", A::Scalar::from(x.get(i)), aes_of(v(i)), || format!("{:x}", v(i)));
				check(ty, "scalar conversion to binary", B::Scalar::from(y.get(i)), v(i), || format!("{:x}", v(i)));
			}
			lanes("conversion to binary and back", Transformation::<A, B>::transform(&to, &y), v, |i| format!("{:x}", v(i)));
			let z = |i: usize| q.pairs[(b * 37 + i) % q.pairs.len()][b % 2];
			let zs = A::from_fn(|i| A::Scalar::of(z(i)));
			lanes("conversion from binary and back", Transformation::<B, A>::transform(&back, &Transformation::<A, B>::transform(&to, &zs)), z, |i| format!("{:x}", z(i)));
			CHECKED.fetch_add(A::WIDTH, SeqCst);
		});
	}
}
/// bits to bytes of the AES field, as the specification has them
fn aes_of(x: u128) -> u128 {
	const BITS: [u8; 8] = [1, 188, 176, 236, 211, 141, 46, 88];
	(0..16).map(|b| ((0..8).filter(|k| x >> (8 * b + k) & 1 == 1).fold(0u8, |s, k| s ^ BITS[k as usize]) as u128) << (8 * b)).sum()
}

fn dump(path: &str) {
	let l = |x: u128| (0..8).map(|i| (x >> (16 * i)) as u16).collect::<Vec<_>>();
	let im = |f: &dyn Fn(u128) -> u128| (0..128).map(|b| l(f(1 << b))).collect::<Vec<_>>();
	type P = BinaryField128bPolyval;
	type B = BinaryField128b;
	type A = AESTowerField128b;
	let v = json!({
		"bin2poly": im(&|x| P::from(B::of(x)).raw()),
		"poly2bin": im(&|x| B::from(P::of(x)).raw()),
		"aes2poly": im(&|x| P::from(A::of(x)).raw()),
		"poly2aes": im(&|x| A::from(P::of(x)).raw()),
		"bin2aes": im(&|x| A::from(B::of(x)).raw()),
		"aes2bin": im(&|x| B::from(A::of(x)).raw()),
	});
	std::fs::write(path, format!("{v}\n")).unwrap();
	summary(json!({"checked": 6}));
}

type Job<'a> = Box<dyn Fn() + Send + Sync + 'a>;
fn main() {
	init();
	let args = args();
	if args[0] == "dump" {
		return dump(&args[1]);
	}
	let a = load(&args[1]);
	let a = &a;
	let mut jobs: Vec<Job> = vec![];
	macro_rules! packed { ($fam:literal: $($t:ident $lv:literal),* $(,)?) => { $(jobs.push(Box::new(move || packed::<$t>(a, $fam, $lv)));)* }; }
	macro_rules! alphas { ($fam:literal: $($t:ident $lv:literal),* $(,)?) => { $(jobs.push(Box::new(move || alpha::<$t>(a, $fam, $lv)));)* }; }
	macro_rules! both { ($($x:tt)*) => { packed!($($x)*); alphas!($($x)*); }; }
	both!("bin": BinaryField1b 0, BinaryField2b 1, BinaryField4b 2, BinaryField8b 3, BinaryField16b 4, BinaryField32b 5, BinaryField64b 6, BinaryField128b 7,
		PackedBinaryField1x1b 0, PackedBinaryField2x1b 0, PackedBinaryField1x2b 1, PackedBinaryField4x1b 0, PackedBinaryField2x2b 1, PackedBinaryField1x4b 2,
		PackedBinaryField8x1b 0, PackedBinaryField4x2b 1, PackedBinaryField2x4b 2, PackedBinaryField1x8b 3,
		PackedBinaryField16x1b 0, PackedBinaryField8x2b 1, PackedBinaryField4x4b 2, PackedBinaryField2x8b 3, PackedBinaryField1x16b 4,
		PackedBinaryField32x1b 0, PackedBinaryField16x2b 1, PackedBinaryField8x4b 2, PackedBinaryField4x8b 3, PackedBinaryField2x16b 4, PackedBinaryField1x32b 5,
		PackedBinaryField64x1b 0, PackedBinaryField32x2b 1, PackedBinaryField16x4b 2, PackedBinaryField8x8b 3, PackedBinaryField4x16b 4, PackedBinaryField2x32b 5, PackedBinaryField1x64b 6,
		PackedBinaryField128x1b 0, PackedBinaryField64x2b 1, PackedBinaryField32x4b 2, PackedBinaryField16x8b 3, PackedBinaryField8x16b 4, PackedBinaryField4x32b 5, PackedBinaryField2x64b 6, PackedBinaryField1x128b 7,
		PackedBinaryField256x1b 0, PackedBinaryField128x2b 1, PackedBinaryField64x4b 2, PackedBinaryField32x8b 3, PackedBinaryField16x16b 4, PackedBinaryField8x32b 5, PackedBinaryField4x64b 6, PackedBinaryField2x128b 7,
		PackedBinaryField512x1b 0, PackedBinaryField256x2b 1, PackedBinaryField128x4b 2, PackedBinaryField64x8b 3, PackedBinaryField32x16b 4, PackedBinaryField16x32b 5, PackedBinaryField8x64b 6, PackedBinaryField4x128b 7);
	both!("aes": AESTowerField8b 3, AESTowerField16b 4, AESTowerField32b 5, AESTowerField64b 6, AESTowerField128b 7,
		PackedAESBinaryField1x8b 3, PackedAESBinaryField2x8b 3, PackedAESBinaryField1x16b 4, PackedAESBinaryField4x8b 3, PackedAESBinaryField2x16b 4, PackedAESBinaryField1x32b 5,
		PackedAESBinaryField8x8b 3, PackedAESBinaryField4x16b 4, PackedAESBinaryField2x32b 5, PackedAESBinaryField1x64b 6,
		PackedAESBinaryField16x8b 3, PackedAESBinaryField8x16b 4, PackedAESBinaryField4x32b 5, PackedAESBinaryField2x64b 6, PackedAESBinaryField1x128b 7,
		PackedAESBinaryField32x8b 3, PackedAESBinaryField16x16b 4, PackedAESBinaryField8x32b 5, PackedAESBinaryField4x64b 6, PackedAESBinaryField2x128b 7,
		PackedAESBinaryField64x8b 3, PackedAESBinaryField32x16b 4, PackedAESBinaryField16x32b 5, PackedAESBinaryField8x64b 6, PackedAESBinaryField4x128b 7);
	packed!("aes": ByteSlicedAES16x128b 7, ByteSlicedAES16x64b 6, ByteSlicedAES2x16x64b 6, ByteSlicedAES16x32b 5, ByteSlicedAES4x16x32b 5, ByteSlicedAES16x16b 4, ByteSlicedAES8x16x16b 4,
		ByteSlicedAES16x8b 3, ByteSlicedAES16x16x8b 3, ByteSlicedAES32x128b 7, ByteSlicedAES32x64b 6, ByteSlicedAES2x32x64b 6, ByteSlicedAES32x32b 5, ByteSlicedAES4x32x32b 5,
		ByteSlicedAES32x16b 4, ByteSlicedAES8x32x16b 4, ByteSlicedAES32x8b 3, ByteSlicedAES16x32x8b 3, ByteSlicedAES64x128b 7, ByteSlicedAES64x64b 6, ByteSlicedAES2x64x64b 6,
		ByteSlicedAES64x32b 5, ByteSlicedAES4x64x32b 5, ByteSlicedAES64x16b 4, ByteSlicedAES8x64x16b 4, ByteSlicedAES64x8b 3, ByteSlicedAES16x64x8b 3);
	packed!("bin": ByteSliced16x128x1b 0, ByteSliced8x128x1b 0, ByteSliced4x128x1b 0, ByteSliced2x128x1b 0, ByteSliced1x128x1b 0, ByteSliced16x256x1b 0, ByteSliced8x256x1b 0,
		ByteSliced4x256x1b 0, ByteSliced2x256x1b 0, ByteSliced1x256x1b 0, ByteSliced16x512x1b 0, ByteSliced8x512x1b 0, ByteSliced4x512x1b 0, ByteSliced2x512x1b 0, ByteSliced1x512x1b 0);
	packed!("poly": BinaryField128bPolyval 7, PackedBinaryPolyval1x128b 7, PackedBinaryPolyval2x128b 7, PackedBinaryPolyval4x128b 7);
	macro_rules! scalars { ($fam:literal $conv:expr; $($t:ident $lv:literal),*) => { $(jobs.push(Box::new(move || { scalar::<$t>(a, $fam, $lv); if $fam != "poly" { tower_basis::<$t>($fam, $lv, $conv) } }));)* }; }
	scalars!("bin" |x| x; BinaryField1b 0, BinaryField2b 1, BinaryField4b 2, BinaryField8b 3, BinaryField16b 4, BinaryField32b 5, BinaryField64b 6, BinaryField128b 7);
	scalars!("aes" aes_of; AESTowerField8b 3, AESTowerField16b 4, AESTowerField32b 5, AESTowerField64b 6, AESTowerField128b 7);
	scalars!("poly" |x| x; BinaryField128bPolyval 7);
	macro_rules! subs { ($fam:literal: $($t:ident $lv:literal: $($s:ident $k:literal)*);* $(;)?) => { $($(jobs.push(Box::new(move || sub::<$t, $s>(a, $fam, $lv, $k)));)*)* }; }
	subs!("bin": BinaryField2b 1: BinaryField1b 0; BinaryField4b 2: BinaryField1b 0 BinaryField2b 1; BinaryField8b 3: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2;
		BinaryField16b 4: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3;
		BinaryField32b 5: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3 BinaryField16b 4;
		BinaryField64b 6: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3 BinaryField16b 4 BinaryField32b 5;
		BinaryField128b 7: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3 BinaryField16b 4 BinaryField32b 5 BinaryField64b 6);
	subs!("aes": AESTowerField16b 4: AESTowerField8b 3; AESTowerField32b 5: AESTowerField8b 3 AESTowerField16b 4; AESTowerField64b 6: AESTowerField8b 3 AESTowerField16b 4 AESTowerField32b 5;
		AESTowerField128b 7: AESTowerField8b 3 AESTowerField16b 4 AESTowerField32b 5 AESTowerField64b 6);
	macro_rules! psubs { ($fam:literal: $($t:ident $lv:literal: $($s:ident $k:literal)*);* $(;)?) => { $($(jobs.push(Box::new(move || subpacked::<$t, $s>(a, $fam, $lv, $k)));)*)* }; }
	psubs!("bin": PackedBinaryField1x128b 7: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4 BinaryField32b 5 BinaryField64b 6 BinaryField128b 7;
		PackedBinaryField2x64b 6: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4 BinaryField32b 5; PackedBinaryField4x32b 5: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4;
		PackedBinaryField8x16b 4: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3; PackedBinaryField16x8b 3: BinaryField1b 0 BinaryField2b 1 BinaryField4b 2 BinaryField8b 3;
		PackedBinaryField2x128b 7: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4 BinaryField32b 5 BinaryField64b 6;
		PackedBinaryField8x32b 5: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4; PackedBinaryField16x16b 4: BinaryField1b 0 BinaryField8b 3; PackedBinaryField32x8b 3: BinaryField1b 0 BinaryField4b 2;
		PackedBinaryField4x128b 7: BinaryField1b 0 BinaryField8b 3 BinaryField32b 5; PackedBinaryField16x32b 5: BinaryField1b 0 BinaryField8b 3 BinaryField16b 4;
		PackedBinaryField64x8b 3: BinaryField1b 0 BinaryField2b 1; PackedBinaryField1x64b 6: BinaryField1b 0 BinaryField16b 4; PackedBinaryField2x32b 5: BinaryField8b 3;
		PackedBinaryField2x16b 4: BinaryField8b 3 BinaryField1b 0; PackedBinaryField2x8b 3: BinaryField1b 0 BinaryField4b 2; PackedBinaryField1x16b 4: BinaryField4b 2; PackedBinaryField4x4b 2: BinaryField1b 0 BinaryField2b 1);
	psubs!("aes": PackedAESBinaryField1x128b 7: AESTowerField8b 3 AESTowerField16b 4 AESTowerField32b 5 AESTowerField64b 6; PackedAESBinaryField2x128b 7: AESTowerField8b 3 AESTowerField32b 5;
		PackedAESBinaryField4x128b 7: AESTowerField8b 3 AESTowerField64b 6; PackedAESBinaryField8x16b 4: AESTowerField8b 3; PackedAESBinaryField16x16b 4: AESTowerField8b 3;
		PackedAESBinaryField8x32b 5: AESTowerField8b 3 AESTowerField16b 4;
		ByteSlicedAES16x128b 7: AESTowerField8b 3 AESTowerField16b 4 AESTowerField32b 5 AESTowerField64b 6; ByteSlicedAES32x128b 7: AESTowerField8b 3 AESTowerField64b 6; ByteSlicedAES2x16x64b 6: AESTowerField8b 3;
		ByteSlicedAES64x128b 7: AESTowerField8b 3);
	macro_rules! lin { ($($i:ident $o:ident $lv:literal),* $(,)?) => { $(jobs.push(Box::new(move || linear::<$i, $o>(a, $lv)));)* }; }
	lin!(PackedBinaryField1x128b PackedBinaryField1x128b 7, PackedBinaryField2x128b PackedBinaryField2x128b 7, PackedBinaryField4x128b PackedBinaryField4x128b 7,
		PackedBinaryField2x64b PackedBinaryField2x64b 6, PackedBinaryField4x64b PackedBinaryField4x64b 6, PackedBinaryField8x64b PackedBinaryField8x64b 6,
		PackedBinaryField4x32b PackedBinaryField4x32b 5, PackedBinaryField8x32b PackedBinaryField8x32b 5, PackedBinaryField16x32b PackedBinaryField16x32b 5,
		PackedBinaryField8x16b PackedBinaryField8x16b 4, PackedBinaryField16x16b PackedBinaryField16x16b 4, PackedBinaryField32x16b PackedBinaryField32x16b 4,
		PackedBinaryField16x8b PackedBinaryField16x8b 3, PackedBinaryField32x8b PackedBinaryField32x8b 3, PackedBinaryField64x8b PackedBinaryField64x8b 3,
		PackedBinaryField8x8b PackedBinaryField8x8b 3, PackedBinaryField4x16b PackedBinaryField4x16b 4, PackedBinaryField2x32b PackedBinaryField2x32b 5, PackedBinaryField1x64b PackedBinaryField1x64b 6,
		PackedBinaryField4x8b PackedBinaryField4x8b 3, PackedBinaryField2x16b PackedBinaryField2x16b 4, PackedBinaryField1x32b PackedBinaryField1x32b 5,
		PackedBinaryField2x8b PackedBinaryField2x8b 3, PackedBinaryField1x16b PackedBinaryField1x16b 4, PackedBinaryField1x8b PackedBinaryField1x8b 3,
		PackedBinaryField32x4b PackedBinaryField32x4b 2, PackedBinaryField64x2b PackedBinaryField64x2b 1, PackedBinaryField128x1b PackedBinaryField128x1b 0,
		PackedBinaryField64x4b PackedBinaryField64x4b 2, PackedBinaryField128x4b PackedBinaryField128x4b 2,
		PackedAESBinaryField1x128b PackedAESBinaryField1x128b 7, PackedAESBinaryField2x128b PackedAESBinaryField2x128b 7, PackedAESBinaryField4x128b PackedAESBinaryField4x128b 7,
		PackedAESBinaryField16x8b PackedAESBinaryField16x8b 3, PackedAESBinaryField32x8b PackedAESBinaryField32x8b 3, PackedAESBinaryField64x8b PackedAESBinaryField64x8b 3,
		PackedAESBinaryField8x16b PackedAESBinaryField8x16b 4, PackedAESBinaryField16x16b PackedAESBinaryField16x16b 4, PackedAESBinaryField4x32b PackedAESBinaryField4x32b 5,
		PackedAESBinaryField4x64b PackedAESBinaryField4x64b 6, PackedAESBinaryField8x8b PackedAESBinaryField8x8b 3, PackedAESBinaryField4x8b PackedAESBinaryField4x8b 3,
		PackedAESBinaryField1x128b PackedBinaryField1x128b 7, PackedBinaryField1x128b PackedAESBinaryField1x128b 7, PackedBinaryField16x8b PackedAESBinaryField16x8b 3, PackedAESBinaryField32x8b PackedBinaryField32x8b 3,
		PackedBinaryPolyval1x128b PackedBinaryField1x128b 7, PackedBinaryField1x128b PackedBinaryPolyval1x128b 7, PackedBinaryPolyval2x128b PackedBinaryField2x128b 7, PackedBinaryField4x128b PackedBinaryPolyval4x128b 7,
		PackedBinaryPolyval1x128b PackedBinaryPolyval1x128b 7, PackedBinaryPolyval4x128b PackedAESBinaryField4x128b 7,
		ByteSlicedAES16x128b ByteSlicedAES16x128b 7, ByteSlicedAES16x16b ByteSlicedAES16x16b 4, ByteSlicedAES32x32b ByteSlicedAES32x32b 5, ByteSlicedAES16x8b ByteSlicedAES16x8b 3, ByteSlicedAES64x64b ByteSlicedAES64x64b 6,
		ByteSlicedAES8x16x16b ByteSlicedAES8x16x16b 4, ByteSliced16x128x1b ByteSliced16x128x1b 0);
	macro_rules! conv { ($($i:ident $o:ident $lv:literal),* $(,)?) => { $(jobs.push(Box::new(move || converter::<$i, $o>(a, $lv)));)* }; }
	conv!(PackedAESBinaryField16x8b PackedBinaryField16x8b 3, PackedAESBinaryField8x16b PackedBinaryField8x16b 4, PackedAESBinaryField4x32b PackedBinaryField4x32b 5, PackedAESBinaryField2x64b PackedBinaryField2x64b 6,
		PackedAESBinaryField1x128b PackedBinaryField1x128b 7, PackedAESBinaryField2x128b PackedBinaryField2x128b 7, PackedAESBinaryField4x128b PackedBinaryField4x128b 7,
		PackedAESBinaryField32x8b PackedBinaryField32x8b 3, PackedAESBinaryField16x32b PackedBinaryField16x32b 5, PackedAESBinaryField8x8b PackedBinaryField8x8b 3);
	macro_rules! long { ($($x:ident $y:ident $lv:literal $k:literal),* $(,)?) => { $(jobs.push(Box::new(move || long_products::<$x, $y>(a, "bin", $lv, $k)));)* }; }
	long!(PackedBinaryField1x128b PackedBinaryField128x1b 7 0, PackedBinaryField1x128b PackedBinaryField16x8b 7 3, PackedBinaryField2x128b PackedBinaryField8x32b 7 5, PackedBinaryField4x128b PackedBinaryField4x128b 7 7,
		BinaryField128b PackedBinaryField8x16b 7 4, PackedBinaryField4x32b PackedBinaryField4x8b 5 3, PackedBinaryField4x128b PackedBinaryField512x1b 7 0, PackedBinaryField8x16b PackedBinaryField8x16b 4 4,
		PackedBinaryField8x16b PackedBinaryField2x8b 4 3, PackedBinaryField4x128b BinaryField8b 7 3);
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..8 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, SeqCst);
					if i >= jobs.len() {
						break;
					}
					jobs[i]();
				}
			});
		}
	});
	summary(json!({"types": TYPES.load(SeqCst), "jobs": jobs.len(), "checked": CHECKED.load(SeqCst)}));
}
