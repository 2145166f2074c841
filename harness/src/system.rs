//! Constraint systems, statements and witnesses described by System.tla.
use std::sync::Arc;

use binius_compute::ComputeHolder;
use binius_core::{
	constraint_system::{
		ConstraintSystem, Proof, TableSizeSpec,
		channel::{Boundary, Flush, FlushDirection, OracleOrConst},
		exp::Exp,
	},
	fiat_shamir::Challenger,
	oracle::*,
	transparent::{constant::Constant, powers::Powers, select_row::SelectRow, step_down::StepDown, step_up::StepUp},
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField1b, BinaryField2b, BinaryField4b, ExtensionField, Field,
	as_packed_field::{PackScalar, PackedType},
	packed::set_packed_slice,
	tower::CanonicalTowerFamily,
	underlier::UnderlierType,
	*,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel};
use binius_math::{ArithCircuit, CompositionPoly, MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly};

use crate::{sums::comp_of, *};

pub fn expr(comp: &Value) -> ArithCircuit<B128> {
	CompositionPoly::<B128>::expression(&comp_of(comp, 16, false))
}
pub fn shift_variant(v: &Value) -> ShiftVariant {
	match st(v) {
		"circ" => ShiftVariant::CircularLeft,
		"left" => ShiftVariant::LogicalLeft,
		_ => ShiftVariant::LogicalRight,
	}
}
fn dir(v: &Value) -> FlushDirection {
	if st(v) == "push" { FlushDirection::Push } else { FlushDirection::Pull }
}
/// multiplicities from 1000000 stand for those near the top of the range
fn mult(v: &Value) -> u64 {
	let m = u(v);
	if m >= 900_000 { u64::MAX - 1_000_000 + m } else { m }
}
fn col(v: &Value, ids: &[OracleId]) -> OracleOrConst<B128> {
	match v.get("id") {
		Some(i) => OracleOrConst::Oracle(ids[us(i) - 1]),
		None => {
			let base = b128(&v["c"]);
			OracleOrConst::Const { base, tower_level: base.min_tower_level() }
		}
	}
}
fn ids_of(v: &Value, ids: &[OracleId]) -> Vec<OracleId> {
	nums(v).iter().map(|&i| ids[i as usize - 1]).collect()
}

pub fn build(c: &Value) -> Result<(ConstraintSystem<B128>, Vec<OracleId>), String> {
	let sy = &c["sy"];
	let e = |e: binius_core::oracle::Error| e.to_string();
	let mut o = SymbolicMultilinearOracleSet::<B128>::new();
	let mut ids: Vec<OracleId> = vec![];
	for (i, n) in arr(&sy["nodes"]).iter().enumerate() {
		let pt: Vec<B128> = arr(&c["pts"][i]).iter().map(b128).collect();
		let b = o.add_oracle(us(&n["tab"]) - 1, us(&n["lv"]), format!("c{}", i + 1));
		let inner = n.get("id").map(|x| ids[us(x) - 1]);
		let id = match st(&n["t"]) {
			"com" => b.committed(match st(&n["kind"]) {
				"b1" => 0,
				"b8" => 3,
				_ => 4,
			}),
			"rep" => b.repeating(inner.unwrap()).map_err(e)?,
			"proj" => b.projected(inner.unwrap(), pt, us(&n["s"])).map_err(e)?,
			"projl" => b.projected_last_vars(inner.unwrap(), pt).map_err(e)?,
			"shift" => b.shifted(inner.unwrap(), us(&n["o"]), us(&n["b"]), shift_variant(&n["var"])).map_err(e)?,
			"pack" => b.packed(inner.unwrap(), us(&n["d"])).map_err(e)?,
			"lc" => b
				.linear_combination_with_offset(b128(&n["off"]), arr(&n["in"]).iter().map(|x| (ids[us(&x["id"]) - 1], b128(&x["c"]))).collect::<Vec<_>>())
				.map_err(e)?,
			"zp" => b.zero_padded(inner.unwrap(), us(&n["d"]), us(&n["nz"]), us(&n["s"])).map_err(e)?,
			"comp" => b.composite_mle(ids_of(&n["in"], &ids), expr(&n["c"])).map_err(e)?,
			"st" => b.structured(expr(&n["c"])).map_err(e)?,
			"tr" => {
				let (k, p) = (st(&n["p"]["k"]), &n["p"]);
				let (nv, v) = (us(&p["n"]), us(&p["v"]));
				match k {
					"const" => b.transparent(Constant::<B128>::new(nv, b128(&p["v"]))),
					"powers" => b.transparent(Powers::new(nv, b128(&p["v"]))),
					"stepdown" => b.transparent(StepDown::new(nv, v).unwrap()),
					"stepup" => b.transparent(StepUp::new(nv, v).unwrap()),
					_ => b.transparent(SelectRow::new(nv, v).unwrap()),
				}
				.map_err(e)?
			}
			k => panic!("node {k}"),
		};
		ids.push(id);
	}
	let cs = ConstraintSystem {
		oracles: o,
		table_constraints: arr(&sy["cons"])
			.iter()
			.map(|q| ConstraintSet {
				table_id: us(&q["tab"]) - 1,
				log_values_per_row: us(&q["lv"]),
				oracle_ids: ids_of(&q["ids"], &ids),
				constraints: arr(&q["comps"])
					.iter()
					.enumerate()
					.map(|(k, x)| Constraint { name: format!("z{k}"), composition: expr(x), predicate: ConstraintPredicate::Zero })
					.collect(),
			})
			.collect(),
		non_zero_oracle_ids: ids_of(&sy["nz"], &ids),
		flushes: arr(&sy["fl"])
			.iter()
			.map(|f| Flush {
				table_id: us(&f["tab"]) - 1,
				log_values_per_row: us(&f["lv"]),
				oracles: arr(&f["cols"]).iter().map(|x| col(x, &ids)).collect(),
				channel_id: us(&f["ch"]) - 1,
				direction: dir(&f["dir"]),
				selectors: ids_of(&f["sel"], &ids),
				multiplicity: mult(&f["mult"]),
			})
			.collect(),
		exponents: arr(&sy["exps"])
			.iter()
			.map(|x| Exp {
				bits_ids: ids_of(&x["bits"], &ids),
				base: match col(&x["base"], &ids) {
					// the level of the column the powers are committed in
					OracleOrConst::Const { base, .. } => OracleOrConst::Const { base, tower_level: us(&c["lvl"][us(&x["res"]) - 1]) },
					o => o,
				},
				exp_result_id: ids[us(&x["res"]) - 1],
			})
			.collect(),
		channel_count: us(&sy["nch"]),
		table_size_specs: arr(&sy["tabs"])
			.iter()
			.map(|t| match st(&t["k"]) {
				"arb" => TableSizeSpec::Arbitrary,
				"po2" => TableSizeSpec::PowerOfTwo,
				_ => TableSizeSpec::Fixed { log_size: us(&t["log"]) },
			})
			.collect(),
	};
	Ok((cs, ids))
}

pub fn boundaries(c: &Value) -> Vec<Boundary<B128>> {
	arr(&c["bounds"])
		.iter()
		.map(|b| Boundary {
			values: arr(&b["v"]).iter().map(b128).collect(),
			channel_id: us(&b["ch"]) - 1,
			direction: dir(&b["dir"]),
			multiplicity: mult(&b["mult"]),
		})
		.collect()
}

pub trait Und: UnderlierType + PackScalar<BinaryField1b> + PackScalar<BinaryField2b> + PackScalar<BinaryField4b> + PackScalar<B8> + PackScalar<B16> + PackScalar<B128> {}
impl<T> Und for T where T: UnderlierType + PackScalar<BinaryField1b> + PackScalar<BinaryField2b> + PackScalar<BinaryField4b> + PackScalar<B8> + PackScalar<B16> + PackScalar<B128> {}

fn column<U, FS>(t: &[u64], conv: impl Fn(u64) -> FS) -> Arc<dyn MultilinearPoly<PackedType<U, B128>> + Send + Sync>
where
	U: UnderlierType + PackScalar<FS> + PackScalar<B128>,
	FS: Field,
	B128: ExtensionField<FS>,
{
	let mut data = vec![PackedType::<U, FS>::default(); t.len().div_ceil(PackedType::<U, FS>::WIDTH)];
	for (i, &x) in t.iter().enumerate() {
		set_packed_slice(&mut data, i, conv(x));
	}
	MLEEmbeddingAdapter::from(MultilinearExtension::new(t.len().trailing_zeros() as usize, data).unwrap()).upcast_arc_dyn()
}

pub type Wit<'a, U> = MultilinearExtensionIndex<'a, PackedType<U, B128>>;
pub fn witness<U: Und>(c: &Value, ids: &[OracleId]) -> Wit<'static, U> {
	let mut w = Wit::<U>::new();
	for (i, t) in arr(&c["wit"]).iter().enumerate() {
		let t = nums(t);
		if t.is_empty() {
			continue;
		}
		let m = match us(&c["lvl"][i]) {
			0 => column::<U, BinaryField1b>(&t, |x| BinaryField1b::from(x as u8 & 1)),
			1 => column::<U, BinaryField2b>(&t, |x| BinaryField2b::new(binius_field::underlier::U2::new(x as u8))),
			2 => column::<U, BinaryField4b>(&t, |x| BinaryField4b::new(binius_field::underlier::U4::new(x as u8))),
			3 => column::<U, B8>(&t, |x| B8::new(x as u8)),
			_ => column::<U, B16>(&t, |x| B16::new(x as u16)),
		};
		w.update_multilin_poly([(ids[i], m)]).unwrap();
	}
	w
}

pub fn sizes(c: &Value) -> Vec<usize> {
	nums(&c["sizes"]).iter().map(|&x| x as usize).collect()
}

pub fn check<U: Und>(cs: &ConstraintSystem<B128>, c: &Value, ids: &[OracleId]) -> Result<(), String>
where
	PackedType<U, B128>: PackedExtension<BinaryField1b>,
{
	let w = witness::<U>(c, ids);
	binius_core::constraint_system::validate::validate_witness(cs, &boundaries(c), &sizes(c), &w).map_err(|e| e.to_string())
}

pub const RATE: usize = 1;
pub const SECURITY: usize = 20;

macro_rules! prover {
	($name:ident, $with:ident, $u:ty) => {
		pub fn $name<Ch: Challenger + Default>(cs: &ConstraintSystem<B128>, bounds: &[Boundary<B128>], sizes: &[usize], w: Wit<'_, $u>) -> Result<Vec<u8>, String> {
			$with::<Ch>(cs, RATE, SECURITY, bounds, sizes, w)
		}
		pub fn $with<Ch: Challenger + Default>(
			cs: &ConstraintSystem<B128>,
			rate: usize,
			security: usize,
			bounds: &[Boundary<B128>],
			sizes: &[usize],
			w: Wit<'_, $u>,
		) -> Result<Vec<u8>, String> {
			let mut holder = FastCpuLayerHolder::<CanonicalTowerFamily, PackedType<$u, B128>>::new(1 << 14, 1 << 18);
			let digest = cs.digest::<Groestl256>();
			binius_core::constraint_system::prove::<_, $u, CanonicalTowerFamily, Groestl256Parallel, Groestl256ByteCompression, Ch, _, _, _>(
				&mut holder.to_data(),
				cs,
				rate,
				security,
				&digest,
				bounds,
				sizes,
				w,
				&binius_hal::make_portable_backend(),
			)
			.map(|p| p.transcript)
			.map_err(|e| e.to_string())
		}
	};
}
prover!(prove128, prove128_with, binius_field::arch::OptimalUnderlier128b);
prover!(prove256, prove256_with, binius_field::arch::OptimalUnderlier256b);
prover!(prove512, prove512_with, binius_field::arch::OptimalUnderlier512b);

pub fn verify_with<Ch: Challenger + Default>(
	cs: &ConstraintSystem<B128>,
	rate: usize,
	security: usize,
	digest: &digest::Output<Groestl256>,
	bounds: &[Boundary<B128>],
	proof: Vec<u8>,
) -> Result<(), String> {
	binius_core::constraint_system::verify::<binius_field::arch::OptimalUnderlier128b, CanonicalTowerFamily, Groestl256, Groestl256ByteCompression, Ch>(
		cs,
		rate,
		security,
		digest,
		bounds,
		Proof { transcript: proof },
	)
	.map_err(|e| e.to_string())
}
pub fn verify<Ch: Challenger + Default>(cs: &ConstraintSystem<B128>, bounds: &[Boundary<B128>], proof: Vec<u8>) -> Result<(), String> {
	verify_with::<Ch>(cs, RATE, SECURITY, &cs.digest::<Groestl256>(), bounds, proof)
}

/// Runs `f` on every case, several at a time.
pub fn each(cases: &[Value], f: impl Fn(usize, &Value) + Sync) {
	let next = std::sync::atomic::AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..8 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
					if i >= cases.len() {
						break;
					}
					f(i, &cases[i]);
				}
			});
		}
	});
}
