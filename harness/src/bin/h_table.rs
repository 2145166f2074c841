//! Replays Table.tla: tables are built, filled in the ways the builder offers and compared with the rows of the specification;
//! the compiled system judges the witness.
use std::{
	any::Any,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{fiat_shamir::HasherChallenger, oracle::ShiftVariant};
use binius_field::{
	ExtensionField, PackedExtension, PackedField, TowerField,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::PackedType,
	packed::set_packed_slice,
};
use binius_hash::groestl::Groestl256;
use binius_m3::builder::{
	B1, B8, B16, B32, B64, B128, Col, ColumnId, ConstraintSystem, Expr, FlushOpts, StructuredDynSize, TableBuilder, TableFiller, TableId, TableWitnessSegment,
	WitnessIndex, upcast_col,
};
use vharness::{
	system::{boundaries, each, expr, prove128, prove256, prove512, shift_variant, verify},
	*,
};

type Ch = HasherChallenger<Groestl256>;
static ACC: AtomicUsize = AtomicUsize::new(0);
static REJ: AtomicUsize = AtomicUsize::new(0);
static PROVED: AtomicUsize = AtomicUsize::new(0);

struct C {
	id: ColumnId,
	f: usize,
	v: usize,
	col: Box<dyn Any + Send + Sync>,
}
trait Fd: TowerField {
	fn of(x: u64) -> Self;
}
impl Fd for B1 {
	fn of(x: u64) -> Self {
		B1::from((x & 1) as u8)
	}
}
impl Fd for B8 {
	fn of(x: u64) -> Self {
		B8::new(x as u8)
	}
}
impl Fd for B16 {
	fn of(x: u64) -> Self {
		B16::new(x as u16)
	}
}
fn typed<F: Fd, const V: usize>(c: &C) -> Col<F, V> {
	*c.col.downcast_ref::<Col<F, V>>().unwrap()
}
/// column `c` seen as one over F, a field containing its own
fn up<F, const V: usize>(c: &C) -> Col<F, V>
where
	F: Fd + ExtensionField<B1> + MaybeExt,
{
	F::up::<V>(c)
}
trait MaybeExt: Fd {
	fn up<const V: usize>(c: &C) -> Col<Self, V>;
}
impl MaybeExt for B1 {
	fn up<const V: usize>(c: &C) -> Col<B1, V> {
		typed::<B1, V>(c)
	}
}
impl MaybeExt for B8 {
	fn up<const V: usize>(c: &C) -> Col<B8, V> {
		if c.f == 0 { upcast_col(typed::<B1, V>(c)) } else { typed::<B8, V>(c) }
	}
}
impl MaybeExt for B16 {
	fn up<const V: usize>(c: &C) -> Col<B16, V> {
		match c.f {
			0 => upcast_col(typed::<B1, V>(c)),
			3 => upcast_col(typed::<B8, V>(c)),
			_ => typed::<B16, V>(c),
		}
	}
}
fn wrap<F: Fd, const V: usize>(f: usize, v: usize, col: Col<F, V>) -> C {
	C { id: col.id(), f, v, col: Box::new(col) }
}
macro_rules! on_v {
	($v:expr, $V:ident, $e:expr) => {
		match $v {
			0 => {
				const $V: usize = 1;
				$e
			}
			1 => {
				const $V: usize = 2;
				$e
			}
			2 => {
				const $V: usize = 4;
				$e
			}
			3 => {
				const $V: usize = 8;
				$e
			}
			_ => {
				const $V: usize = 16;
				$e
			}
		}
	};
}
macro_rules! on_f {
	($f:expr, $F:ident, $e:expr) => {
		match $f {
			0 => {
				type $F = B1;
				$e
			}
			3 => {
				type $F = B8;
				$e
			}
			_ => {
				type $F = B16;
				$e
			}
		}
	};
}
macro_rules! on_fv {
	($f:expr, $v:expr, $F:ident, $V:ident, $e:expr) => {
		on_f!($f, $F, on_v!($v, $V, $e))
	};
}

/// the sum of monomials of the specification over columns
fn poly<F: MaybeExt, const V: usize>(cols: &[C], ins: &Value, comp: &Value) -> Expr<F, V>
where
	F: ExtensionField<B1>,
{
	let ins: Vec<Col<F, V>> = nums(ins).iter().map(|&i| up::<F, V>(&cols[i as usize - 1])).collect();
	let mut sum: Option<Expr<F, V>> = None;
	let zero = || Expr::from(ins[0]) * F::ZERO;
	for m in arr(comp) {
		let c = F::of(u(&m["c"]));
		let e = nums(&m["e"]);
		let t = if e.is_empty() {
			zero() + c
		} else {
			let mut t = Expr::from(ins[e[0] as usize - 1]);
			if e.len() > 1 && e.iter().all(|&x| x == e[0]) {
				t = t.pow(e.len() as u64);
			} else {
				for &x in &e[1..] {
					t = t * ins[x as usize - 1];
				}
			}
			if c == F::ONE { t } else { t * c }
		};
		sum = Some(match sum {
			None => t,
			Some(s) => s + t,
		});
	}
	sum.unwrap_or_else(zero)
}

macro_rules! block {
	($t:expr, $name:expr, $F:ident, $src:expr, $idx:expr, $vs:expr, $vd:expr; $(($a:literal, $b:literal, $A:literal, $B:literal)),*) => {
		match ($vs, $vd) {
			$(($a, $b) => wrap::<$F, $B>($src.f, $vd, $t.add_selected_block::<$F, $A, $B>($name, typed::<$F, $A>($src), $idx)),)*
			p => panic!("block {p:?}"),
		}
	};
}
macro_rules! zpad {
	($t:expr, $name:expr, $F:ident, $src:expr, $idx:expr, $up:expr, $vs:expr, $vd:expr; $(($a:literal, $b:literal, $A:literal, $B:literal)),*) => {
		match ($vs, $vd) {
			$(($a, $b) => wrap::<$F, $B>($src.f, $vd, if $up { $t.add_zero_pad_upcast::<$F, $A, $B>($name, typed::<$F, $A>($src)) }
				else { $t.add_zero_pad::<$F, $A, $B>($name, typed::<$F, $A>($src), $idx) }),)*
			p => panic!("pad {p:?}"),
		}
	};
}

fn add_col(t: &mut TableBuilder<'_>, i: usize, c: &Value, cols: &[C]) -> C {
	let name = format!("c{i}");
	let (f, v) = (us(&c["f"]), us(&c["v"]));
	let src = c.get("id").map(|x| &cols[us(x) - 1]);
	let idx = c.get("idx").map(us).unwrap_or(0);
	match st(&c["k"]) {
		"com" => on_fv!(f, v, F, V, wrap(f, v, t.add_committed::<F, V>(name))),
		"shift" => {
			let var: ShiftVariant = shift_variant(&c["var"]);
			on_fv!(f, v, F, V, wrap(f, v, t.add_shifted(name, typed::<F, V>(src.unwrap()), us(&c["b"]), us(&c["o"]), var)))
		}
		"calc" => on_fv!(f, v, F, V, wrap(f, v, t.add_computed(name, poly::<F, V>(cols, &c["in"], &c["c"])))),
		"sel" => on_fv!(f, src.unwrap().v, F, V, wrap::<F, 1>(f, 0, t.add_selected(name, typed::<F, V>(src.unwrap()), idx))),
		"const" => {
			let vals = nums(&c["vals"]);
			on_fv!(f, v, F, V, wrap(f, v, t.add_constant::<F, V>(name, std::array::from_fn(|k| F::of(vals[k])))))
		}
		"blk" => {
			let s = src.unwrap();
			on_f!(f, F, block!(t, name, F, s, idx, s.v, v; (1,0,2,1),(2,0,4,1),(2,1,4,2),(3,0,8,1),(3,1,8,2),(3,2,8,4),(4,1,16,2),(4,2,16,4),(4,3,16,8)))
		}
		"zp" => {
			let s = src.unwrap();
			// the last position through either method
			let upc = idx + 1 == 1 << (v - s.v) && i % 2 == 0;
			on_f!(f, F, zpad!(t, name, F, s, idx, upc, s.v, v; (0,1,1,2),(0,2,1,4),(0,3,1,8),(1,2,2,4),(1,3,2,8),(2,3,4,8),(2,4,4,16),(3,4,8,16)))
		}
		"pack" => {
			let s = src.unwrap();
			match (s.f, f, v) {
				(0, 3, 0) => wrap::<B8, 1>(f, v, t.add_packed(name, typed::<B1, 8>(s))),
				(0, 3, 1) => wrap::<B8, 2>(f, v, t.add_packed(name, typed::<B1, 16>(s))),
				(0, 4, 0) => wrap::<B16, 1>(f, v, t.add_packed(name, typed::<B1, 16>(s))),
				(3, 4, 0) => wrap::<B16, 1>(f, v, t.add_packed(name, typed::<B8, 2>(s))),
				(3, 4, 1) => wrap::<B16, 2>(f, v, t.add_packed(name, typed::<B8, 4>(s))),
				(3, 4, 2) => wrap::<B16, 4>(f, v, t.add_packed(name, typed::<B8, 8>(s))),
				p => panic!("pack {p:?}"),
			}
		}
		"inc" => on_f!(f, F, wrap::<F, 1>(f, v, t.add_structured::<F>(name, StructuredDynSize::Incrementing { max_size_log: us(&c["max"]) }))),
		"fixed" => {
			let mut e = expr(&c["c"]);
			let n = us(&c["n"]);
			// a circuit over exactly n variables
			if e.n_vars() != n {
				e = binius_math::ArithCircuit::from(binius_math::ArithExpr::from(&e) + binius_math::ArithExpr::Var(n - 1) * binius_math::ArithExpr::zero());
			}
			on_f!(f, F, wrap::<F, 1>(f, v, t.add_fixed::<F>(name, e)))
		}
		k => panic!("column {k}"),
	}
}

struct Filler<'a> {
	id: TableId,
	tab: usize,
	c: &'a Value,
	cols: &'a [C],
	wit: &'a [Vec<u64>],
	mode: usize,
}
trait Pk: PackedField<Scalar = B128> + PackedExtension<B1> + PackedExtension<B8> + PackedExtension<B16> + PackedExtension<B32> + PackedExtension<B64> + PackedExtension<B128> {}
impl<T> Pk for T where
	T: PackedField<Scalar = B128> + PackedExtension<B1> + PackedExtension<B8> + PackedExtension<B16> + PackedExtension<B32> + PackedExtension<B64> + PackedExtension<B128>
{
}
impl<P: Pk> TableFiller<P> for Filler<'_> {
	type Event = usize;
	fn id(&self) -> TableId {
		self.id
	}
	fn fill(&self, rows: &[usize], w: &mut TableWitnessSegment<P>) -> anyhow::Result<()> {
		anyhow::ensure!(rows.len() == w.size(), "the filler got {} events for a segment of {}", rows.len(), w.size());
		// the events are the row numbers
		anyhow::ensure!(rows[0] == w.index() << w.log_size(), "the segment of rows {}.. says it is number {} of segments of {}", rows[0], w.index(), w.size());
		for (i, spec) in arr(&self.c["sy"]["cols"]).iter().enumerate() {
			if us(&spec["tab"]) != self.tab + 1 || st(&spec["k"]) == "pack" || (st(&spec["k"]) == "const" && self.mode > 0) {
				continue;
			}
			let c = &self.cols[i];
			let same = st(&spec["k"]) == "calc" && nums(&spec["in"]).iter().all(|&k| self.cols[k as usize - 1].f == c.f);
			if same && self.mode > 0 {
				on_fv!(c.f, c.v, F, V, {
					let e = poly::<F, V>(self.cols, &spec["in"], &spec["c"]);
					let vals: Vec<_> = w.eval_expr(&e)?.collect();
					let mut d = w.get_mut(typed::<F, V>(c))?;
					anyhow::ensure!(vals.len() == d.len(), "evaluating an expression gives {} elements of {}", vals.len(), d.len());
					d.copy_from_slice(&vals);
				});
				continue;
			}
			let n = 1 << c.v;
			let vals = rows.iter().flat_map(|&r| self.wit[i][r * n..(r + 1) * n].iter().copied()).enumerate();
			if self.mode == 1 {
				on_fv!(c.f, c.v, F, V, {
					let mut d = w.get_mut(typed::<F, V>(c))?;
					for (k, x) in vals {
						set_packed_slice(&mut d, k, F::of(x));
					}
				});
			} else {
				let mut d = w.get_dyn_mut(c.id)?;
				for (k, x) in vals {
					d.set(k, B128::new(x as u128))?;
				}
			}
		}
		Ok(())
	}
}

fn build(c: &Value) -> (ConstraintSystem<B128>, Vec<TableId>, Vec<C>) {
	let sy = &c["sy"];
	let mut cs = ConstraintSystem::<B128>::new();
	let chans: Vec<_> = (0..us(&sy["nch"])).map(|i| cs.add_channel(format!("ch{i}"))).collect();
	let mut cols: Vec<Option<C>> = arr(&sy["cols"]).iter().map(|_| None).collect();
	let mut tids = vec![];
	// all columns of a table are added in one go; columns of earlier positions exist already
	let mut done: Vec<C> = vec![];
	for (ti, t) in arr(&sy["tabs"]).iter().enumerate() {
		let mut b = cs.add_table(format!("t{ti}"));
		tids.push(b.id());
		match st(&t["k"]) {
			"po2" => b.require_power_of_two_size(),
			"fix" => b.require_fixed_size(us(&t["log"])),
			_ => {}
		}
		for (i, s) in arr(&sy["cols"]).iter().enumerate() {
			if us(&s["tab"]) == ti + 1 {
				assert_eq!(i, done.len(), "columns are listed table by table");
				let x = add_col(&mut b, i, s, &done);
				done.push(x);
			}
		}
		for (k, q) in arr(&sy["cons"]).iter().enumerate() {
			if us(&q["tab"]) == ti + 1 {
				let f = nums(&q["in"]).iter().map(|&i| done[i as usize - 1].f).max().unwrap().max(us(&q["f"]));
				on_fv!(f, us(&q["v"]), F, V, b.assert_zero(format!("z{k}"), poly::<F, V>(&done, &q["in"], &q["c"])));
			}
		}
		for n in nums(&sy["nz"]) {
			let x = &done[n as usize - 1];
			if us(&arr(&sy["cols"])[n as usize - 1]["tab"]) == ti + 1 {
				on_fv!(x.f, x.v, F, V, b.assert_nonzero(typed::<F, V>(x)));
			}
		}
		for f in arr(&sy["fl"]) {
			if us(&f["tab"]) != ti + 1 {
				continue;
			}
			let ids = nums(&f["cols"]);
			let ch = chans[us(&f["ch"]) - 1];
			let mult = us(&f["mult"]) as u32;
			let pull = st(&f["dir"]) == "pull";
			if us(&f["v"]) > 0 {
				// several values per row: only reads
				on_v!(us(&f["v"]), V, b.read(ch, ids.iter().map(|&i| up::<B16, V>(&done[i as usize - 1]))));
			} else {
				let cs_: Vec<Col<B16>> = ids.iter().map(|&i| up::<B16, 1>(&done[i as usize - 1])).collect();
				let opts = FlushOpts { multiplicity: mult, selectors: nums(&f["sel"]).iter().map(|&i| typed::<B1, 1>(&done[i as usize - 1])).collect() };
				match (pull, mult == 1 && opts.selectors.is_empty()) {
					(true, true) => b.pull(ch, cs_),
					(false, true) => b.push(ch, cs_),
					(true, false) => b.pull_with_opts(ch, cs_, opts),
					(false, false) => b.push_with_opts(ch, cs_, opts),
				}
			}
		}
	}
	let _ = &mut cols;
	(cs, tids, done)
}

macro_rules! run {
	($name:ident, $u:ty, $prove:ident) => {
		fn $name(c: &Value, i: usize, mode: usize, prove: bool) -> Result<(), String> {
			type P = PackedType<$u, B128>;
			let (cs, tids, cols) = build(c);
			let wit: Vec<Vec<u64>> = arr(&c["wit"]).iter().map(nums).collect();
			let sizes: Vec<usize> = nums(&c["sizes"]).iter().map(|&x| x as usize).collect();
			let honest = st(&c["dev"]["k"]) == "none";
			let specs = arr(&c["sy"]["cols"]);
			let mut alloc = CpuComputeAllocator::<P>::new(1 << 14);
			let alloc = alloc.into_bump_allocator();
			let mut w = WitnessIndex::<P>::new(&cs, &alloc);
			let seg = us(&c["seg"]);
			let e = |e: binius_m3::builder::Error| format!("filling fails: {e}");
			for (t, &id) in tids.iter().enumerate() {
				let f = Filler { id, tab: t, c, cols: &cols, wit: &wit, mode: mode % 3 };
				let rows: Vec<usize> = (0..sizes[t]).collect();
				match mode {
					_ if rows.is_empty() => w.fill_table_sequential(&f, &rows).map_err(e)?,
					0 => w.fill_table_sequential(&f, &rows).map_err(e)?,
					1 => w.fill_table_parallel(&f, &rows).map_err(e)?,
					2 | 3 => w.init_table(id, rows.len()).map_err(e)?.fill_sequential_with_segment_size(&f, &rows, seg).map_err(e)?,
					_ => w.init_table(id, rows.len()).map_err(e)?.fill_parallel_with_segment_size(&f, &rows, seg).map_err(e)?,
				}
			}
			if mode % 3 > 0 {
				w.fill_constant_cols().map_err(e)?;
			}
			if w.table_sizes() != sizes {
				return Err(format!("table sizes are {:?}", w.table_sizes()));
			}
			for (t, &id) in tids.iter().enumerate() {
				let n = sizes[t];
				if n == 0 {
					continue;
				}
				let tw = w.get_table(id).unwrap();
				let cap = tw.capacity();
				if cap != n.next_power_of_two() {
					return Err(format!("a table of {n} rows has {cap}"));
				}
				let s = tw.full_segment();
				if !honest {
					// the stored rows of the specification, its changed cell included
					for (i, spec) in specs.iter().enumerate() {
						if us(&spec["tab"]) == t + 1 && st(&spec["k"]) != "pack" {
							let mut d = s.get_dyn_mut(cols[i].id).map_err(e)?;
							for (k, &x) in wit[i].iter().enumerate() {
								d.set(k, B128::new(x as u128)).map_err(e)?;
							}
						}
					}
					continue;
				}
				let mut own: Vec<usize> = vec![];
				let mut got: Vec<Vec<u64>> = vec![];
				for (i, spec) in specs.iter().enumerate() {
					if us(&spec["tab"]) == t + 1 {
						let d = s.get_dyn(cols[i].id).map_err(e)?;
						own.push(i);
						got.push((0..cap << cols[i].v).map(|k| u128::from(d.get(k)) as u64).collect());
					}
				}
				let cell = |t: &[u64], i: usize, r: usize| t[r << cols[i].v..(r + 1) << cols[i].v].to_vec();
				for r in 0..cap {
					let is = |ev: usize| own.iter().zip(&got).all(|(&i, g)| cell(g, i, r) == cell(&wit[i], i, ev));
					if r < n && !is(r) {
						let (&i, g) = own.iter().zip(&got).find(|(i, g)| cell(g, **i, r) != cell(&wit[**i], **i, r)).unwrap();
						return Err(format!("row {r} of {n}, column {i} ({}) holds {:?}, not {:?}", specs[i], cell(g, i, r), cell(&wit[i], i, r)));
					}
					if r >= n && !(0..n).any(is) {
						return Err(format!("row {r} of a table of {n} repeats none of its rows: {:?}", own.iter().zip(&got).map(|(&i, g)| cell(g, i, r)).collect::<Vec<_>>()));
					}
				}
			}
			let ccs = cs.compile().map_err(|e| format!("the system does not compile: {e}"))?;
			let b = boundaries(c);
			let index = w.into_multilinear_extension_index();
			let r = binius_core::constraint_system::validate::validate_witness(&ccs, &b, &sizes, &index);
			let acc = st(&c["want"]) == "acc";
			if acc { &ACC } else { &REJ }.fetch_add(1, SeqCst);
			match (acc, &r) {
				(true, Err(e)) => return Err(format!("the witness check rejects a valid table: {e} (deviation {})", c["dev"])),
				(false, Ok(())) => return Err(format!("the witness check accepts an invalid table (deviation {})", c["dev"])),
				_ => {}
			}
			if prove {
				PROVED.fetch_add(1, SeqCst);
				let p = guarded(|| $prove::<Ch>(&ccs, &b, &sizes, index));
				let v = match p {
					Ok(Ok(p)) => match guarded(|| verify::<Ch>(&ccs, &b, p)) {
						Ok(Ok(())) => Ok(()),
						r => Err(format!("verifier: {r:?}")),
					},
					r => Err(format!("prover: {:?}", r.map(|x| x.map(|_| ())))),
				};
				match (st(&c["proof"]), v) {
					("acc", Err(e)) => return Err(format!("no accepted proof from a valid table: {e} (deviation {})", c["dev"])),
					("rej", Ok(())) => return Err(format!("a proof made from an invalid table verifies (deviation {})", c["dev"])),
					_ => {}
				}
			}
			let _ = i;
			Ok(())
		}
	};
}
run!(run128, OptimalUnderlier128b, prove128);
run!(run256, OptimalUnderlier256b, prove256);
run!(run512, OptimalUnderlier512b, prove512);

fn main() {
	init();
	let a = args();
	let t0 = std::time::Instant::now();
	let cases = read_ndjson(&a[1]);
	let every: usize = a[2].parse().unwrap();
	each(&cases, |i, c| {
		let honest = st(&c["dev"]["k"]) == "none";
		for u in 0..3usize {
			for mode in 0..6 {
				if !honest && (mode + u * 2) % 6 != i % 6 {
					continue;
				}
				// filling whole tables ignores the split
				if mode < 2 && us(&c["seg"]) > 0 {
					continue;
				}
				let prove = u == (i / every) % 3 && if honest { mode == (i % 4) + 2 } else { i % every == 0 };
				let r = guarded(|| match u {
					0 => run128(c, i, mode, prove),
					1 => run256(c, i, mode, prove),
					_ => run512(c, i, mode, prove),
				});
				match r {
					Ok(Ok(())) => {}
					Ok(Err(e)) => violation(format!("underlier {u}, way {mode}: {e}"), c.clone()),
					Err(e) => violation(format!("underlier {u}, way {mode}: panic {e}"), c.clone()),
				}
			}
		}
	});
	summary(json!({"cases": cases.len(), "accepted": ACC.load(SeqCst), "rejected": REJ.load(SeqCst), "wall": t0.elapsed().as_secs_f32(), "proved": PROVED.load(SeqCst)}));
}
