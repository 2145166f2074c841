//! Replays Gadget.tla: each gadget is put in a table between harness columns for its operands and results, filled by its own
//! populating code, compared with the specification, and the compiled constraints are searched for any other result.
use std::{
	collections::HashSet,
	sync::{
		Arc,
		atomic::{AtomicUsize, Ordering::SeqCst},
	},
};

use binius_compute::cpu::alloc::CpuComputeAllocator;
use binius_core::{constraint_system::{ConstraintSystem as Ccs, channel::{Boundary, FlushDirection}}, fiat_shamir::HasherChallenger, oracle::{MultilinearPolyVariant, ShiftVariant}};
use binius_field::{
	BinaryField1b, BinaryField2b, BinaryField4b, BinaryField32b, BinaryField64b, ExtensionField, TowerField,
	arch::{OptimalUnderlier, OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::{PackScalar, PackedType},
	packed::set_packed_slice,
	underlier::{U2, U4},
	*,
};
use binius_hash::groestl::Groestl256;
use binius_m3::{
	builder::{B1, B8, B16, B32, B64, B128, Col, ColumnId, ConstraintSystem, FlushOpts, TableBuilder, TableId, TableWitnessSegment, WitnessIndex, tally},
	gadgets::{
		add::{Incr, U32Add, U32AddFlags, U32AddStacked, WideAdd},
		barrel_shifter::BarrelShifter,
		div::{DivSS32, DivUU32},
		indexed_lookup::{
			and::{BitAnd, BitAndIndexedLookup, BitAndLookup},
			incr::{Incr as IncrByLookup, IncrIndexedLookup, IncrLookup, merge_incr_vals},
		},
		mul::{MulSS32, MulSU32, MulUU32, MulUU64, SignConverter, TwosComplement},
		sub::{U32Sub, U32SubFlags, WideSub},
	},
};
use binius_math::{MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly};
use vharness::{
	rows::Eng,
	system::{Wit, each, prove128, prove256, prove512, verify},
	*,
};

type Ch = HasherChallenger<Groestl256>;
static ROWS: AtomicUsize = AtomicUsize::new(0);
static UNIQUE: AtomicUsize = AtomicUsize::new(0);
static UNSURE: AtomicUsize = AtomicUsize::new(0);
static PROVED: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicUsize = AtomicUsize::new(0);

/// part of a word: a harness column, the gadget's column it mirrors, bits per value, values per row
#[derive(Clone)]
struct Part {
	own: ColumnId,
	src: Option<ColumnId>,
	bits: usize,
	vals: usize,
}
type Word = Vec<Part>;
fn bytes(v: &Value) -> Vec<u8> {
	nums(v).iter().map(|&x| x as u8).collect()
}
fn get(b: &[u8], at: usize, n: usize) -> u128 {
	(0..n).map(|i| ((b[(at + i) / 8] >> ((at + i) % 8) & 1) as u128) << i).sum()
}

/// input columns of one bit each
fn ibits<const N: usize>(t: &mut TableBuilder, n: &str) -> ([Col<B1>; N], Word) {
	let c: [Col<B1>; N] = std::array::from_fn(|i| t.add_committed::<B1, 1>(format!("i_{n}[{i}]")));
	(c, c.iter().map(|c| Part { own: c.id(), src: None, bits: 1, vals: 1 }).collect())
}
fn ipack<const V: usize>(t: &mut TableBuilder, n: &str) -> (Col<B1, V>, Word) {
	let c = t.add_committed::<B1, V>(format!("i_{n}"));
	(c, vec![Part { own: c.id(), src: None, bits: 1, vals: V }])
}
fn ifield<F: TowerField, const V: usize>(t: &mut TableBuilder, n: &str) -> (Col<F, V>, Word)
where
	B128: ExtensionField<F>,
{
	let c = t.add_committed::<F, V>(format!("i_{n}"));
	(c, vec![Part { own: c.id(), src: None, bits: 1 << F::TOWER_LEVEL, vals: V }])
}
/// a harness column equal to a gadget's column
fn mirror<F: TowerField, const V: usize>(t: &mut TableBuilder, pre: &str, n: &str, g: Col<F, V>) -> Word
where
	B128: ExtensionField<F>,
{
	let c = t.add_committed::<F, V>(format!("{pre}_{n}"));
	t.assert_zero(format!("{pre}_{n}"), c - g);
	vec![Part { own: c.id(), src: Some(g.id()), bits: 1 << F::TOWER_LEVEL, vals: V }]
}
fn mirrors(t: &mut TableBuilder, pre: &str, n: &str, g: &[Col<B1>]) -> Word {
	g.iter().enumerate().flat_map(|(i, &c)| mirror(t, pre, &format!("{n}[{i}]"), c)).collect()
}

macro_rules! run {
	($name:ident, $fills:ident, $build:ident, $Gad:ident, $u:ty, $prove:ident) => {
		type $fills = PackedType<$u, B128>;
		struct $Gad {
			ins: Vec<Word>,
			outs: Vec<Word>,
			fill: Box<dyn Fn(&mut TableWitnessSegment<$fills>, &[Value]) -> Result<(), String> + Sync>,
		}
		fn $build(t: &mut TableBuilder, g: &str, fl: &[&str]) -> $Gad {
			let has = |s: &str| fl.contains(&s);
			let e = |e: anyhow::Error| format!("populate fails: {e}");
			let x32 = |rows: &[Value], k: usize| rows.iter().map(|r| B32::new(get(&bytes(&r["in"][k]), 0, 32) as u32)).collect::<Vec<_>>();
			let x64 = |rows: &[Value], k: usize| rows.iter().map(|r| B64::new(get(&bytes(&r["in"][k]), 0, 64) as u64)).collect::<Vec<_>>();
			match g {
				"u32add" => {
					let ((x, wx), (y, wy)) = (ipack::<32>(t, "x"), ipack::<32>(t, "y"));
					let c = has("c").then(|| ipack::<32>(t, "c"));
					let a = U32Add::new(t, x, y, U32AddFlags { carry_in_bit: c.as_ref().map(|c| c.0), commit_zout: has("z"), expose_final_carry: has("f") });
					let mut outs = vec![mirror(t, "o", "z", a.zout)];
					if has("f") {
						outs.push(mirror(t, "o", "f", a.final_carry.expect("no final carry column")));
					}
					$Gad { ins: [wx, wy].into_iter().chain(c.map(|c| c.1)).collect(), outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
				}
				"u32sub" => {
					let ((x, wx), (y, wy)) = (ipack::<32>(t, "x"), ipack::<32>(t, "y"));
					let c = has("c").then(|| ipack::<32>(t, "c"));
					let a = U32Sub::new(t, x, y, U32SubFlags { borrow_in_bit: c.as_ref().map(|c| c.0), commit_zout: has("z"), expose_final_borrow: has("f") });
					let mut outs = vec![mirror(t, "o", "z", a.zout)];
					if has("f") {
						outs.push(mirror(t, "o", "f", a.final_borrow.expect("no final borrow column")));
					}
					$Gad { ins: [wx, wy].into_iter().chain(c.map(|c| c.1)).collect(), outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
				}
				"stack" => {
					macro_rules! st {
						($V:literal) => {{
							let ((x, wx), (y, wy)) = (ipack::<$V>(t, "x"), ipack::<$V>(t, "y"));
							let c = has("c").then(|| ipack::<$V>(t, "c"));
							let a = U32AddStacked::<$V>::new(t, x, y, has("z"), c.as_ref().map(|c| c.0));
							let outs = vec![mirror(t, "o", "z", a.zout)];
							$Gad { ins: [wx, wy].into_iter().chain(c.map(|c| c.1)).collect(), outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
						}};
					}
					if has("128") { st!(128) } else if has("64") { st!(64) } else { st!(32) }
				}
				"wadd" => {
					macro_rules! wa {
						($T:ty, $N:literal) => {{
							let ((x, wx), (y, wy)) = (ibits::<$N>(t, "x"), ibits::<$N>(t, "y"));
							let c = has("c").then(|| ipack::<32>(t, "c"));
							let a = WideAdd::<$T, $N>::new(t, x, y, U32AddFlags { carry_in_bit: c.as_ref().map(|c| c.0), commit_zout: has("z"), expose_final_carry: has("f") });
							let outs = vec![mirrors(t, "o", "z", &a.z_out), mirror(t, "o", "f", a.final_carry_out)];
							$Gad { ins: [wx, wy].into_iter().chain(c.map(|c| c.1)).collect(), outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
						}};
					}
					if has("64") { wa!(u64, 64) } else { wa!(u32, 32) }
				}
				"wsub" => {
					macro_rules! ws {
						($T:ty, $N:literal) => {{
							let ((x, wx), (y, wy)) = (ibits::<$N>(t, "x"), ibits::<$N>(t, "y"));
							let c = has("c").then(|| ipack::<32>(t, "c"));
							let a = WideSub::<$T, $N>::new(t, x, y, U32SubFlags { borrow_in_bit: c.as_ref().map(|c| c.0), commit_zout: has("z"), expose_final_borrow: has("f") });
							let mut outs = vec![mirrors(t, "o", "z", &a.zout)];
							if has("f") {
								outs.push(mirror(t, "o", "f", a.final_borrow.expect("no final borrow column")));
							}
							$Gad { ins: [wx, wy].into_iter().chain(c.map(|c| c.1)).collect(), outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
						}};
					}
					if has("64") { ws!(u64, 64) } else { ws!(u32, 32) }
				}
				"incr" => {
					macro_rules! ic {
						($T:ty, $N:literal) => {{
							let (x, wx) = ibits::<$N>(t, "x");
							let a = Incr::<$T, $N>::new(t, x);
							let outs = vec![mirrors(t, "o", "z", &a.zout), mirror(t, "o", "f", a.final_carry_out)];
							$Gad { ins: vec![wx], outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
						}};
					}
					if has("64") { ic!(u64, 64) } else { ic!(u32, 32) }
				}
				"twos" => {
					macro_rules! tw {
						($T:ty, $N:literal) => {{
							let (x, wx) = ibits::<$N>(t, "x");
							let a = TwosComplement::<$T, $N>::new(t, x);
							let outs = vec![mirrors(t, "o", "z", &a.result_bits)];
							$Gad { ins: vec![wx], outs, fill: Box::new(move |s, _| a.populate(s).map_err(e)) }
						}};
					}
					if has("64") { tw!(u64, 64) } else { tw!(u32, 32) }
				}
				"sconv" => {
					macro_rules! sc {
						($T:ty, $N:literal) => {{
							let (x, wx) = ibits::<$N>(t, "x");
							let ([k], wk) = ibits::<1>(t, "k");
							let a = SignConverter::<$T, $N>::new(t, x, k.into());
							let conv = a.converted_bits;
							let outs = vec![mirrors(t, "o", "z", &conv)];
							$Gad {
								ins: vec![wx, wk],
								outs,
								fill: Box::new(move |s, rows| {
									a.populate(s).map_err(e)?;
									// these are the caller's to fill
									for (i, c) in conv.iter().enumerate() {
										let mut d = s.get_dyn_mut(c.id()).map_err(|e| e.to_string())?;
										for (r, row) in rows.iter().enumerate() {
											d.set(r, B128::new(get(&bytes(&row["out"][0]), i, 1))).map_err(|e| e.to_string())?;
										}
									}
									Ok(())
								}),
							}
						}};
					}
					if has("64") { sc!(u64, 64) } else { sc!(u32, 32) }
				}
				"barrel" => {
					let ((x, wx), (a, wa)) = (ipack::<32>(t, "x"), ipack::<16>(t, "a"));
					let b = BarrelShifter::new(t, x, a, match fl[0] {
						"left" => ShiftVariant::LogicalLeft,
						"right" => ShiftVariant::LogicalRight,
						_ => ShiftVariant::CircularLeft,
					});
					let outs = vec![mirror(t, "o", "z", b.output)];
					$Gad { ins: vec![wx, wa], outs, fill: Box::new(move |s, _| b.populate(s).map_err(e)) }
				}
				"mul" if has("64") => {
					let a = MulUU64::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "x", a.xin), mirror(t, "i", "y", a.yin)],
						outs: vec![mirror(t, "o", "l", a.out_low), mirror(t, "o", "h", a.out_high)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x64(r, 0), x64(r, 1)).map_err(e)),
					}
				}
				"mul" => {
					let a = MulUU32::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "x", a.xin), mirror(t, "i", "y", a.yin)],
						outs: vec![mirror(t, "o", "l", a.out_low), mirror(t, "o", "h", a.out_high)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				"mulw" if has("64") => {
					let ((x, wx), (y, wy)) = (ibits::<64>(t, "x"), ibits::<64>(t, "y"));
					let a = MulUU64::with_inputs(t, x, y);
					$Gad {
						ins: vec![wx, wy],
						outs: vec![mirrors(t, "o", "l", &a.out_low_bits), mirrors(t, "o", "h", &a.out_high_bits)],
						fill: Box::new(move |s, r| a.populate(s, x64(r, 0), x64(r, 1)).map_err(e)),
					}
				}
				"mulw" => {
					let ((x, wx), (y, wy)) = (ibits::<32>(t, "x"), ibits::<32>(t, "y"));
					let a = MulUU32::with_inputs(t, x, y);
					$Gad {
						ins: vec![wx, wy],
						outs: vec![mirrors(t, "o", "l", &a.out_low_bits), mirrors(t, "o", "h", &a.out_high_bits)],
						fill: Box::new(move |s, r| a.populate(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				"mulss" => {
					let a = MulSS32::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "x", a.xin), mirror(t, "i", "y", a.yin)],
						outs: vec![mirror(t, "o", "l", a.out_low), mirror(t, "o", "h", a.out_high)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				"mulsu" => {
					let a = MulSU32::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "x", a.xin), mirror(t, "i", "y", a.yin)],
						outs: vec![mirror(t, "o", "l", a.out_low), mirror(t, "o", "h", a.out_high)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				"div" => {
					let a = DivUU32::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "p", a.p_in), mirror(t, "i", "q", a.q_in)],
						outs: vec![mirror(t, "o", "d", a.out_div), mirror(t, "o", "r", a.out_rem)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				"sdiv" => {
					let a = DivSS32::new(t);
					$Gad {
						ins: vec![mirror(t, "i", "p", a.p_in), mirror(t, "i", "q", a.q_in)],
						outs: vec![mirror(t, "o", "d", a.out_div), mirror(t, "o", "r", a.out_rem)],
						fill: Box::new(move |s, r| a.populate_with_inputs(s, x32(r, 0), x32(r, 1)).map_err(e)),
					}
				}
				g => panic!("gadget {g}"),
			}
		}
		fn $name(c: &Value, search: bool, prove: bool) -> Result<(), String> {
			let fl: Vec<&str> = arr(&c["fl"]).iter().map(st).collect();
			let rows = arr(&c["rows"]);
			let mut cs = ConstraintSystem::<B128>::new();
			let mut t = cs.add_table("gadget");
			let id = t.id();
			let g = $build(&mut t, st(&c["g"]), &fl);
			// another table, for a commitment large enough for the prover
			let mut pad = cs.add_table("pad");
			pad.require_fixed_size(3);
			let pid = pad.id();
			let pcol = pad.add_committed::<B16, 16>("pad");
			let er = |e: binius_m3::builder::Error| e.to_string();
			let mut alloc = CpuComputeAllocator::<$fills>::new(1 << 16);
			let alloc = alloc.into_bump_allocator();
			let mut w = WitnessIndex::<$fills>::new(&cs, &alloc);
			{
				let tw = w.init_table(id, rows.len()).map_err(er)?;
				let mut s = tw.full_segment();
				// the rows are repeated to fill the table
				let full: Vec<Value> = rows.iter().cycle().take(s.size()).cloned().collect();
				let put = |s: &TableWitnessSegment<$fills>, words: &[Word], key: &str, own: bool| -> Result<(), String> {
					for (k, wd) in words.iter().enumerate() {
						let mut at = 0;
						for p in wd {
							if own == p.src.is_none() {
								let mut d = s.get_dyn_mut(p.own).map_err(er)?;
								for (r, row) in full.iter().enumerate() {
									let b = bytes(&row[key][k]);
									for v in 0..p.vals {
										d.set(r * p.vals + v, B128::new(get(&b, at + v * p.bits, p.bits))).map_err(er)?;
									}
								}
							}
							at += p.bits * p.vals;
						}
					}
					Ok(())
				};
				put(&s, &g.ins, "in", true)?;
				(g.fill)(&mut s, &full)?;
				put(&s, &g.ins, "in", false)?;
				// results as the gadget computes them
				for (k, wd) in g.outs.iter().enumerate() {
					let mut at = 0;
					for p in wd {
						let vals: Vec<B128> = {
							let src = s.get_dyn(p.src.unwrap()).map_err(er)?;
							(0..full.len() * p.vals).map(|i| src.get(i)).collect()
						};
						for (i, &x) in vals.iter().enumerate() {
							let want = get(&bytes(&full[i / p.vals]["out"][k]), at + i % p.vals * p.bits, p.bits);
							if x.val() != want {
								return Err(format!("result {k} of row {} ({}) has {:x} for bits {}.., not {want:x}", i / p.vals, full[i / p.vals], x.val(), at + i % p.vals * p.bits));
							}
						}
						let mut d = s.get_dyn_mut(p.own).map_err(er)?;
						for (i, x) in vals.into_iter().enumerate() {
							d.set(i, x).map_err(er)?;
						}
						at += p.bits * p.vals;
					}
				}
				ROWS.fetch_add(rows.len(), SeqCst);
			}
			{
				let tw = w.init_table(pid, 8).map_err(er)?;
				let s = tw.full_segment();
				let mut d = s.get_dyn_mut(pcol.id()).map_err(er)?;
				for i in 0..128 {
					d.set(i, B128::new(i as u128 * 77 % 65536)).map_err(er)?;
				}
			}
			w.fill_constant_cols().map_err(er)?;
			let sizes = w.table_sizes();
			let ccs = cs.compile().map_err(|e| format!("the system does not compile: {e}"))?;
			let index = w.into_multilinear_extension_index();
			if ccs.exponents.is_empty() {
				binius_core::constraint_system::validate::validate_witness(&ccs, &[], &sizes, &index).map_err(|e| format!("the witness check rejects the gadget's own witness: {e}"))?;
			}
			{
				let mut eng = Eng::new(&ccs, &sizes, |id, i| index.get_multilin_poly(id).unwrap().evaluate_on_hypercube(i).unwrap());
				eng.start(|n| n.starts_with("i_") || n == "pad");
				let b = eng.broken();
				if !b.is_empty() {
					return Err(format!("the gadget's own witness breaks its constraints: {:?}", &b[..b.len().min(5)]));
				}
				if search {
					let r = if st(&c["g"]).ends_with("div") { quotients(&mut eng, rows, st(&c["g"]) == "sdiv") } else { eng.another(|n| n.starts_with("o_"), 20000) };
					STEPS.fetch_add(eng.steps, SeqCst);
					match r {
						Ok(None) => {
							UNIQUE.fetch_add(rows.len(), SeqCst);
						}
						Err(n) => {
							UNSURE.fetch_add(n, SeqCst);
						}
						Ok(Some(cells)) => {
							let diff: Vec<String> = (0..cells.len())
								.filter(|&v| cells[v] != eng.honest[v])
								.map(|v| format!("{}@{}.{}", eng.name(eng.cells[v].0), eng.cells[v].1, eng.cells[v].2))
								.collect();
							let cols = eng.table(&cells);
							let d = format!("{} cells changed: {:?}", diff.len(), &diff[..diff.len().min(12)]);
							match forged(&ccs, &sizes, cols) {
								Ok(()) => return Err(format!("a proof for wrong results verifies; {d}")),
								Err(e) => return Err(format!("wrong results meet all constraints ({e}); {d}")),
							}
						}
					}
				}
			}
			if prove {
				PROVED.fetch_add(1, SeqCst);
				let p = $prove::<Ch>(&ccs, &[], &sizes, index).map_err(|e| format!("no proof from the gadget's own witness: {e}"))?;
				verify::<Ch>(&ccs, &[], p).map_err(|e| format!("the proof of the gadget's own witness is rejected: {e}"))?;
			}
			Ok(())
		}
	};
}
run!(run128, P128, build128, G128, OptimalUnderlier128b, prove128);
run!(run256, P256, build256, G256, OptimalUnderlier256b, prove256);
run!(run512, P512, build512, G512, OptimalUnderlier512b, prove512);

/// Division: quotients and remainders other than the right ones, each a result a table that drops a condition would take.
fn quotients(eng: &mut Eng, rows: &[Value], signed: bool) -> Result<Option<Vec<bool>>, usize> {
	let all = eng.table_rows();
	for k in 0..rows.len().min(all) {
		let (p, q) = (get(&bytes(&rows[k]["in"][0]), 0, 32) as u32, get(&bytes(&rows[k]["in"][1]), 0, 32) as u32);
		let (d, r) = (get(&bytes(&rows[k]["out"][0]), 0, 32) as u32, get(&bytes(&rows[k]["out"][1]), 0, 32) as u32);
		// the inverse of an odd divisor modulo 2^32
		let inv = (0..5).fold(q, |x, _| x.wrapping_mul(2u32.wrapping_sub(q.wrapping_mul(x))));
		let mut lies: Vec<(u32, u32)> = vec![];
		for e in [d.wrapping_add(1), d.wrapping_sub(1), 0, p, d.wrapping_neg(), !d, 1, u32::MAX] {
			lies.push((e, p.wrapping_sub(e.wrapping_mul(q))));
		}
		lies.extend([(d, r.wrapping_add(1)), (d, r.wrapping_add(q)), (d, r.wrapping_neg()), (d, 0), (d, r ^ 1 << 31), (d ^ 1 << 31, r)]);
		if q & 1 == 1 {
			for s in [0, 1, r, q.wrapping_sub(1)] {
				lies.push((p.wrapping_sub(s).wrapping_mul(inv), s));
			}
		}
		lies.retain(|&x| x != (d, r));
		lies.sort_unstable();
		lies.dedup();
		let (bd, br) = (eng.bits(|n| n.starts_with("o_d"), k), eng.bits(|n| n.starts_with("o_r"), k));
		if k == 0 {
			eng.begin();
		}
		let mark = eng.mark();
		// the other rows as they are
		for j in (0..all).filter(|&j| j != k) {
			let set: Vec<(u32, bool)> = eng.bits(|n| n.starts_with("o_"), j).into_iter().map(|v| (v, eng.honest[v as usize])).collect();
			if !eng.assume(&set) {
				return Ok(None);
			}
		}
		for (ld, lr) in lies {
			let set: Vec<(u32, bool)> = bd.iter().enumerate().map(|(b, &v)| (v, ld >> b & 1 == 1)).chain(br.iter().enumerate().map(|(b, &v)| (v, lr >> b & 1 == 1))).collect();
			let abs = |x: u32| if signed { (x as i32).unsigned_abs() as u128 } else { x as u128 };
			let prod = abs(ld) * abs(q);
			if let Some(x) = eng.with(&set, vec![prod, prod & 0xffff_ffff, prod >> 32], 3000) {
				return Ok(Some(x));
			}
		}
		eng.back(mark);
	}
	Ok(None)
}

fn column<FS>(t: &[B128], conv: impl Fn(u128) -> FS) -> Arc<dyn MultilinearPoly<P128> + Send + Sync>
where
	OptimalUnderlier128b: PackScalar<FS>,
	FS: Field,
	B128: ExtensionField<FS>,
{
	let mut data = vec![PackedType::<OptimalUnderlier128b, FS>::default(); t.len().div_ceil(PackedType::<OptimalUnderlier128b, FS>::WIDTH)];
	for (i, &x) in t.iter().enumerate() {
		set_packed_slice(&mut data, i, conv(x.val()));
	}
	MLEEmbeddingAdapter::from(MultilinearExtension::new(t.len().trailing_zeros() as usize, data).unwrap()).upcast_arc_dyn()
}
/// Proves the given columns and verifies the proof.
fn forged(ccs: &Ccs<B128>, sizes: &[usize], cols: Vec<(binius_core::oracle::OracleId, usize, Vec<B128>)>) -> Result<(), String> {
	let mut w = Wit::<OptimalUnderlier128b>::new();
	let exps: HashSet<_> = ccs.exponents.iter().map(|e| e.exp_result_id).collect();
	for (id, lv, t) in cols {
		if exps.contains(&id) {
			continue;
		}
		let m = match lv {
			0 => column::<BinaryField1b>(&t, |x| BinaryField1b::from(x as u8 & 1)),
			1 => column::<BinaryField2b>(&t, |x| BinaryField2b::new(U2::new(x as u8))),
			2 => column::<BinaryField4b>(&t, |x| BinaryField4b::new(U4::new(x as u8))),
			3 => column::<B8>(&t, |x| B8::new(x as u8)),
			4 => column::<B16>(&t, |x| B16::new(x as u16)),
			5 => column::<BinaryField32b>(&t, |x| BinaryField32b::new(x as u32)),
			6 => column::<BinaryField64b>(&t, |x| BinaryField64b::new(x as u64)),
			_ => column::<B128>(&t, B128::new),
		};
		w.update_multilin_poly([(id, m)]).unwrap();
	}
	match guarded(|| prove128::<Ch>(ccs, &[], sizes, w).and_then(|p| verify::<Ch>(ccs, &[], p))) {
		Ok(r) => r,
		Err(e) => Err(format!("panic {e}")),
	}
}

/// Gadgets that read lookup tables.
fn looked(c: &Value, full: bool) -> Result<(), String> {
	type P = PackedType<OptimalUnderlier, B128>;
	let fl: Vec<&str> = arr(&c["fl"]).iter().map(st).collect();
	let rows = arr(&c["rows"]);
	let and = st(&c["g"]) == "and";
	let er = |e: binius_m3::builder::Error| e.to_string();
	let mut cs = ConstraintSystem::<B128>::new();
	let chan = cs.add_channel("lookup");
	let perm = cs.add_channel("permutation");
	enum Gad {
		A1(BitAnd<1>),
		A4(BitAnd<4>),
		I(IncrByLookup),
	}
	let mut t = cs.add_table("gadget");
	let id: TableId = t.id();
	let (gad, ins, outs) = if and {
		macro_rules! an {
			($V:literal, $A:ident) => {{
				let ((x, wx), (y, wy)) = (ifield::<B8, $V>(&mut t, "x"), ifield::<B8, $V>(&mut t, "y"));
				let a = BitAnd::<$V>::new(&mut t, chan, x, y);
				let o = mirror(&mut t, "o", "z", a.output);
				(Gad::$A(a), vec![wx, wy], vec![o])
			}};
		}
		if fl.contains(&"4") { an!(4, A4) } else { an!(1, A1) }
	} else {
		let ((x, wx), (k, wk)) = (ifield::<B8, 1>(&mut t, "x"), ifield::<B1, 1>(&mut t, "k"));
		let a = IncrByLookup::new(&mut t, chan, x, k);
		let o = vec![mirror(&mut t, "o", "z", a.output), mirror(&mut t, "o", "f", a.carry_out)];
		if fl.contains(&"m") {
			t.pull_with_opts(chan, [a.merged], FlushOpts { multiplicity: 3, selectors: vec![] });
		}
		(Gad::I(a), vec![wx, wk], o)
	};
	enum Lk {
		A(BitAndLookup),
		I(IncrLookup),
	}
	let lk = full.then(|| {
		let mut l = cs.add_table("lookup");
		if and { Lk::A(BitAndLookup::new(&mut l, chan, perm, 12)) } else { Lk::I(IncrLookup::new(&mut l, chan, perm, 12)) }
	});
	// the statement reads the first row's entry as well
	let mut bounds = vec![];
	if fl.contains(&"m") {
		let (x, k, z, f) = (&rows[0]["in"][0], &rows[0]["in"][1], &rows[0]["out"][0], &rows[0]["out"][1]);
		let v = merge_incr_vals(bytes(x)[0], bytes(k)[0] == 1, bytes(z)[0], bytes(f)[0] == 1);
		bounds.push(Boundary { values: vec![B128::new(v as u128)], channel_id: chan, direction: FlushDirection::Pull, multiplicity: 5 });
	}
	let mut alloc = CpuComputeAllocator::<P>::new(1 << 20);
	let alloc = alloc.into_bump_allocator();
	let mut w = WitnessIndex::<P>::new(&cs, &alloc);
	{
		let tw = w.init_table(id, rows.len()).map_err(er)?;
		let mut s = tw.full_segment();
		let all: Vec<Value> = rows.iter().cycle().take(s.size()).cloned().collect();
		for (k, wd) in ins.iter().enumerate() {
			let mut d = s.get_dyn_mut(wd[0].own).map_err(er)?;
			for (r, row) in all.iter().enumerate() {
				for v in 0..wd[0].vals {
					d.set(r * wd[0].vals + v, B128::new(get(&bytes(&row["in"][k]), v * wd[0].bits, wd[0].bits))).map_err(er)?;
				}
			}
		}
		match &gad {
			Gad::A1(a) => a.populate(&mut s),
			Gad::A4(a) => a.populate(&mut s),
			Gad::I(a) => a.populate(&mut s),
		}
		.map_err(|e| format!("populate fails: {e}"))?;
		for (k, wd) in outs.iter().enumerate() {
			let p = &wd[0];
			let vals: Vec<B128> = {
				let src = s.get_dyn(p.src.unwrap()).map_err(er)?;
				(0..all.len() * p.vals).map(|i| src.get(i)).collect()
			};
			let mut d = s.get_dyn_mut(p.own).map_err(er)?;
			for (i, x) in vals.into_iter().enumerate() {
				let want = get(&bytes(&all[i / p.vals]["out"][k]), i % p.vals * p.bits, p.bits);
				if x.val() != want {
					return Err(format!("result {k} of row {} ({}) is {:x}, not {want:x}, at {}", i / p.vals, all[i / p.vals], x.val(), i % p.vals));
				}
				d.set(i, x).map_err(er)?;
			}
		}
		ROWS.fetch_add(rows.len(), SeqCst);
	}
	if let Some(lk) = &lk {
		let sort = |c: Vec<u32>| {
			let mut c: Vec<(usize, u32)> = c.into_iter().enumerate().collect();
			c.sort_by_key(|x| std::cmp::Reverse(x.1));
			c
		};
		match lk {
			Lk::A(l) => {
				let n = sort(tally(&cs, &mut w, &bounds, chan, &BitAndIndexedLookup).map_err(er)?);
				w.fill_table_sequential(l, &n).map_err(er)?;
			}
			Lk::I(l) => {
				let n = sort(tally(&cs, &mut w, &bounds, chan, &IncrIndexedLookup).map_err(er)?);
				w.fill_table_sequential(l, &n).map_err(er)?;
			}
		}
	}
	w.fill_constant_cols().map_err(er)?;
	let sizes = w.table_sizes();
	let ccs = cs.compile().map_err(|e| format!("the system does not compile: {e}"))?;
	let index = w.into_multilinear_extension_index();
	if full {
		return binius_core::constraint_system::validate::validate_witness(&ccs, &bounds, &sizes, &index).map_err(|e| format!("the witness check rejects the gadget's own witness: {e}"));
	}
	let mut eng = Eng::new(&ccs, &sizes, |id, i| index.get_multilin_poly(id).unwrap().evaluate_on_hypercube(i).unwrap());
	eng.allow(chan, table_of(and));
	eng.start(|n| n.starts_with("i_"));
	let b = eng.broken();
	if !b.is_empty() {
		return Err(format!("the gadget's own witness breaks its constraints: {:?}", &b[..b.len().min(5)]));
	}
	match eng.another(|n| n.starts_with("o_"), 20000) {
		Ok(None) => UNIQUE.fetch_add(rows.len(), SeqCst),
		Err(n) => UNSURE.fetch_add(n, SeqCst),
		Ok(Some(cells)) => {
			let diff: Vec<String> = (0..cells.len()).filter(|&v| cells[v] != eng.honest[v]).map(|v| format!("{}@{}.{}", eng.name(eng.cells[v].0), eng.cells[v].1, eng.cells[v].2)).collect();
			return Err(format!("wrong results are in the lookup table: {diff:?}"));
		}
	};
	Ok(())
}
/// the fixed column of a lookup table, as compiled
fn table_of(and: bool) -> HashSet<Vec<u128>> {
	static T: std::sync::Mutex<[Option<HashSet<Vec<u128>>>; 2]> = std::sync::Mutex::new([None, None]);
	let mut g = T.lock().unwrap_or_else(|e| e.into_inner());
	g[and as usize]
		.get_or_insert_with(|| {
			let mut cs = ConstraintSystem::<B128>::new();
			let chan = cs.add_channel("lookup");
			let perm = cs.add_channel("permutation");
			let mut l = cs.add_table("lookup");
			let log = if and {
				BitAndLookup::new(&mut l, chan, perm, 4);
				16
			} else {
				IncrLookup::new(&mut l, chan, perm, 4);
				9
			};
			let ccs = cs.compile().unwrap();
			let o = ccs.oracles.instantiate(&[1 << log]).unwrap();
			let id = o.iter().find(|(_, p)| !matches!(p.variant, MultilinearPolyVariant::Committed) && p.tower_level == 5).expect("a fixed column").0;
			let e = Eng::new(&ccs, &[1 << log], |_, _| B128::ZERO);
			(0..1usize << log).map(|i| vec![e.value(id, i)]).collect()
		})
		.clone()
}

fn main() {
	init();
	let a = args();
	let t0 = std::time::Instant::now();
	let cases = read_ndjson(&a[1]);
	let every: usize = a[2].parse().unwrap();
	each(&cases, |i, c| {
		let r = guarded(|| match st(&c["g"]) {
			"and" | "incrlk" => {
				looked(c, false)?;
				if i % every == 0 { looked(c, true) } else { Ok(()) }
			}
			_ => {
				let p = i % every == 0;
				run128(c, true, p && (i / every) % 3 == 0)?;
				if i % 2 == 0 { run256(c, false, p && (i / every) % 3 == 1)? } else { run512(c, false, p && (i / every) % 3 == 2)? }
				Ok(())
			}
		});
		match r {
			Ok(Ok(())) => {}
			Ok(Err(e)) => violation(format!("{} {}: {e}", c["g"], c["fl"]), c.clone()),
			Err(e) => violation(format!("{} {}: panic {e}", c["g"], c["fl"]), c.clone()),
		}
	});
	summary(json!({"cases": cases.len(), "rows": ROWS.load(SeqCst), "unique": UNIQUE.load(SeqCst), "unsure": UNSURE.load(SeqCst), "steps": STEPS.load(SeqCst),
		"wall": t0.elapsed().as_secs_f32(), "proved": PROVED.load(SeqCst)}));
}
