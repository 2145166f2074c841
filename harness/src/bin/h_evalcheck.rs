//! Replays Evalcheck.tla and Transparent.tla: virtual columns, the evalcheck verifier and prover, and the whole greedy protocol.
use std::collections::HashMap;

use binius_core::{
	fiat_shamir::HasherChallenger,
	oracle::*,
	polynomial::MultivariatePoly,
	protocols::{
		evalcheck::{ConstraintSetEqIndPoint, EvalcheckHint, EvalcheckMultilinearClaim, EvalcheckProver, EvalcheckVerifier, serialize_evalcheck_proof},
		greedy_evalcheck,
		sumcheck::{immediate_switchover_heuristic, standard_switchover_heuristic},
	},
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::{
		constant::Constant, disjoint_product::DisjointProduct, eq_ind::EqIndPartialEval, multilinear_extension::MultilinearExtensionTransparent, powers::Powers,
		select_row::SelectRow, shift_ind::ShiftIndPartialEval, step_down::StepDown, step_up::StepUp, tower_basis::TowerBasis,
	},
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::{packed::get_packed_slice, *};
use binius_hal::make_portable_backend;
use binius_hash::groestl::Groestl256;
use binius_math::{ArithCircuit, CompositionPoly, IsomorphicEvaluationDomainFactory, MultilinearExtension, MultilinearPoly};
use vharness::{sums::*, *};

type Chal = HasherChallenger<Groestl256>;
fn elems(v: &Value) -> Vec<B128> {
	arr(v).iter().map(b128).collect()
}
fn shift_variant(v: &Value) -> ShiftVariant {
	match st(v) {
		"circ" => ShiftVariant::CircularLeft,
		"left" => ShiftVariant::LogicalLeft,
		_ => ShiftVariant::LogicalRight,
	}
}
fn expr(comp: &Value) -> ArithCircuit<B128> {
	CompositionPoly::<B128>::expression(&comp_of(comp, 16, false))
}

// ------------------------------------------------------------------------------------------------
fn transparent(it: &Value, arg: &[B128]) -> Result<Box<dyn MultivariatePoly<B128>>, String> {
	let n = || us(&it["n"]);
	let v = || us(&it["v"]);
	let e = |e: binius_core::polynomial::Error| e.to_string();
	Ok(match st(&it["k"]) {
		"const" => Box::new(Constant::<B128>::new(n(), b128(&it["v"]))),
		"powers" => Box::new(Powers::new(n(), b128(&it["v"]))),
		"stepdown" => Box::new(StepDown::new(n(), v()).map_err(e)?),
		"stepup" => Box::new(StepUp::new(n(), v()).map_err(e)?),
		"select" => Box::new(SelectRow::new(n(), v()).map_err(e)?),
		"eq" => Box::new(EqIndPartialEval::new(arg.to_vec())),
		"tower" => Box::new(TowerBasis::<B128>::new(n(), v()).map_err(e)?),
		"shift" => Box::new(ShiftIndPartialEval::new(n(), v(), shift_variant(&it["var"]), arg.to_vec()).map_err(e)?),
		_ => panic!("transparent {it}"),
	})
}
fn unpack<P: PackedField, D: std::ops::Deref<Target = [P]>>(m: &MultilinearExtension<P, D>, n: usize) -> Vec<P::Scalar> {
	(0..1usize << n).map(|i| get_packed_slice(m.evals(), i)).collect()
}
fn lift<F: Into<B128> + Copy>(v: Vec<F>) -> Vec<B128> {
	v.into_iter().map(|x| x.into()).collect()
}

fn tr_case(c: &Value) {
	let it = &c["item"];
	let (n, table, point, arg) = (us(&c["n"]), elems(&c["table"]), elems(&c["point"]), elems(&c["arg"]));
	let kind = st(&it["k"]).to_string();
	let poly: Result<Box<dyn MultivariatePoly<B128>>, String> = guarded(|| match &kind[..] {
		"dprod" => {
			// the combinations the check lists: powers or step x select
			let b = SelectRow::new(us(&it["b"]["n"]), us(&it["b"]["v"])).unwrap();
			let a = &it["a"];
			Ok(match st(&a["k"]) {
				"powers" => Box::new(DisjointProduct(Powers::new(us(&a["n"]), b128(&a["v"])), b)) as Box<dyn MultivariatePoly<B128>>,
				_ => Box::new(DisjointProduct(StepDown::new(us(&a["n"]), us(&a["v"])).unwrap(), b)),
			})
		}
		"mle" => Ok(match st(&it["kind"]) {
			"b1" => Box::new(
				MultilinearExtensionTransparent::<PackedBinaryField128x1b, PackedBinaryField1x128b>::from_values_and_mu(
					pack_table(&table.iter().map(|x| B1::from(x.val() as u8)).collect::<Vec<_>>()),
					n,
				)
				.unwrap(),
			) as Box<dyn MultivariatePoly<B128>>,
			"b8" => Box::new(
				MultilinearExtensionTransparent::<PackedBinaryField16x8b, PackedBinaryField1x128b>::from_values_and_mu(
					pack_table(&table.iter().map(|x| B8::new(x.val() as u8)).collect::<Vec<_>>()),
					n,
				)
				.unwrap(),
			),
			_ => Box::new(
				MultilinearExtensionTransparent::<PackedBinaryField2x128b, PackedBinaryField2x128b>::from_values_and_mu(pack_table(&table), n).unwrap(),
			),
		}),
		_ => transparent(it, &arg),
	})
	.and_then(|x| x);
	let poly = match poly {
		Ok(p) => p,
		Err(e) => return violation(format!("transparent column {it} cannot be built: {e}"), c.clone()),
	};
	if poly.n_vars() != n {
		violation(format!("transparent column {it} has {} variables", poly.n_vars()), c.clone());
	}
	match guarded(|| poly.evaluate(&point)) {
		Ok(Ok(v)) if v == b128(&c["eval"]) => {}
		r => violation(format!("transparent column {it} evaluates to {r:?}, its definition to {}", c["eval"]), c.clone()),
	}
	for x in 0..1usize << n {
		let p: Vec<B128> = (0..n).map(|i| if x >> i & 1 == 1 { B128::ONE } else { B128::ZERO }).collect();
		match guarded(|| poly.evaluate(&p)) {
			Ok(Ok(v)) if v == table[x] => {}
			r => return violation(format!("transparent column {it} on row {x} is {r:?}, its definition says {:?}", table[x]), c.clone()),
		}
	}
	for bad in [n + 1, n.wrapping_sub(1)] {
		if bad < 20 && kind != "mle" && let Ok(Ok(v)) = guarded(|| poly.evaluate(&vec![B128::ONE; bad])) {
			violation(format!("transparent column {it} accepts a point of {bad} coordinates: {v:?}"), c.clone());
		}
	}
	ext::<PackedBinaryField1x128b>(c, it, &table, &arg, n);
	ext::<PackedBinaryField2x128b>(c, it, &table, &arg, n);
	ext::<PackedBinaryField4x128b>(c, it, &table, &arg, n);
}

/// the table constructors
fn ext<P: Pk>(c: &Value, it: &Value, table: &[B128], arg: &[B128], n: usize) {
	let v = || us(&it["v"]);
	let s = |e: binius_core::polynomial::Error| e.to_string();
	let got = guarded(|| {
		Ok::<_, String>(Some(match st(&it["k"]) {
			"powers" => unpack(&Powers::new(n, b128(&it["v"])).multilinear_extension::<P>().map_err(s)?, n),
			"stepdown" => {
				let x = StepDown::new(n, v()).map_err(s)?;
				let bits = lift(unpack(&x.multilinear_extension::<PackedBinaryField16x1b>().map_err(s)?, n));
				let wide = unpack(&x.multilinear_extension::<P>().map_err(s)?, n);
				if bits != wide {
					return Err("packings differ".into());
				}
				wide
			}
			"stepup" => {
				let x = StepUp::new(n, v()).map_err(s)?;
				let bits = lift(unpack(&x.multilinear_extension::<PackedBinaryField16x1b>().map_err(s)?, n));
				let wide = unpack(&x.multilinear_extension::<P>().map_err(s)?, n);
				if bits != wide {
					return Err("packings differ".into());
				}
				wide
			}
			"select" if n >= 3 => lift(unpack(&SelectRow::new(n, v()).map_err(s)?.multilinear_extension::<PackedBinaryField8x1b>().map_err(s)?, n)),
			"eq" => unpack(&EqIndPartialEval::new(arg.to_vec()).multilinear_extension::<P, _>(&make_portable_backend()).map_err(s)?, n),
			"tower" => unpack(&TowerBasis::<B128>::new(n, v()).map_err(s)?.multilinear_extension::<P>().map_err(s)?, n),
			"shift" => unpack(&ShiftIndPartialEval::new(n, v(), shift_variant(&it["var"]), arg.to_vec()).map_err(s)?.multilinear_extension::<P>().map_err(s)?, n),
			_ => return Ok(None),
		}))
	});
	match got {
		Ok(Ok(None)) => {}
		Ok(Ok(Some(t))) if t == table => {}
		r => violation(format!("table of the transparent column {it} (width {}) differs from its definition: {:?}", P::WIDTH, r.map(|x| x.map(|_| ()))), c.clone()),
	}
}

/// Large power tables cross the boundary between the blocks computed separately.
fn big_powers() {
	fn one<P: Pk>(n: usize) {
		let base = B128::new(0x1234_5678_9abc_def0_1122);
		let r = guarded(|| unpack(&Powers::new(n, base).multilinear_extension::<P>().unwrap(), n));
		let mut x = B128::ONE;
		match r {
			Ok(t) => {
				for (i, v) in t.iter().enumerate() {
					if *v != x {
						return violation(format!("table of powers ({n} variables, width {}): row {i} is not the {i}-th power", P::WIDTH), json!({}));
					}
					x *= base;
				}
			}
			Err(e) => violation(format!("table of powers ({n} variables, width {}) fails: {e}", P::WIDTH), json!({})),
		}
	}
	for n in [10, 11, 12, 13] {
		one::<PackedBinaryField1x128b>(n);
		one::<PackedBinaryField2x128b>(n);
		one::<PackedBinaryField4x128b>(n);
	}
}

// ------------------------------------------------------------------------------------------------
fn build(c: &Value) -> Result<(MultilinearOracleSet<B128>, Vec<OracleId>), String> {
	let mut o = MultilinearOracleSet::<B128>::new();
	let mut ids: Vec<OracleId> = vec![];
	let e = |e: binius_core::oracle::Error| e.to_string();
	for (i, nd) in arr(&c["nodes"]).iter().enumerate() {
		let d = || us(&nd["d"]);
		let inner = || ids[us(&nd["id"]) - 1];
		let id = match st(&nd["t"]) {
			"com" => o.add_committed(us(&nd["n"]), match st(&nd["kind"]) { "b1" => 0, "b8" => 3, _ => 4 }),
			"tr" => match st(&nd["p"]["k"]) {
				"const" => o.add_transparent(Constant::<B128>::new(us(&nd["p"]["n"]), b128(&nd["p"]["v"]))).map_err(e)?,
				"powers" => o.add_transparent(Powers::new(us(&nd["p"]["n"]), b128(&nd["p"]["v"]))).map_err(e)?,
				"stepdown" => o.add_transparent(StepDown::new(us(&nd["p"]["n"]), us(&nd["p"]["v"])).unwrap()).map_err(e)?,
				"stepup" => o.add_transparent(StepUp::new(us(&nd["p"]["n"]), us(&nd["p"]["v"])).unwrap()).map_err(e)?,
				"select" => o.add_transparent(SelectRow::new(us(&nd["p"]["n"]), us(&nd["p"]["v"])).unwrap()).map_err(e)?,
				"eq" => o.add_transparent(EqIndPartialEval::new(elems(&c["eqpt"][i]))).map_err(e)?,
				_ => panic!("{nd}"),
			},
			"st" => o.add().structured(us(&nd["n"]), expr(&nd["c"])).map_err(e)?,
			"rep" => o.add_repeating(inner(), d()).map_err(e)?,
			"proj" => {
				let (vals, s) = (elems(&c["proj"][i]), us(&nd["s"]));
				if s + vals.len() == o.n_vars(inner()) && i % 2 == 0 { o.add_projected_last_vars(inner(), vals) } else { o.add_projected(inner(), vals, s) }.map_err(e)?
			}
			"shift" => o.add_shifted(inner(), us(&nd["o"]), us(&nd["b"]), shift_variant(&nd["var"])).map_err(e)?,
			"pack" => o.add_packed(inner(), d()).map_err(e)?,
			"lc" => {
				let l: Vec<_> = arr(&nd["in"]).iter().map(|x| (ids[us(&x["id"]) - 1], b128(&x["c"]))).collect();
				let off = b128(&nd["off"]);
				if off == B128::ZERO { o.add_linear_combination(us(&nd["n"]), l) } else { o.add_linear_combination_with_offset(us(&nd["n"]), off, l) }.map_err(e)?
			}
			"zp" => o.add_zero_padded(inner(), d(), us(&nd["nz"]), us(&nd["s"])).map_err(e)?,
			"comp" => o.add_composite_mle(us(&nd["n"]), arr(&nd["in"]).iter().map(|x| ids[us(x) - 1]), expr(&nd["c"])).map_err(e)?,
			_ => panic!("{nd}"),
		};
		let n = arr(&c["tables"][i]).len().trailing_zeros() as usize;
		if o.n_vars(id) != n {
			violation(format!("column {nd} has {} variables, its definition {n}", o.n_vars(id)), c.clone());
		}
		ids.push(id);
	}
	Ok((o, ids))
}
type Claim = EvalcheckMultilinearClaim<B128>;
fn top(c: &Value, ids: &[OracleId]) -> Vec<Claim> {
	arr(&c["claims"])
		.iter()
		.map(|x| Claim { id: ids[us(&x["id"]) - 1], eval_point: elems(&x["pt"]).into(), eval: b128(&x["ev"]) })
		.collect()
}
fn show(c: &Claim) -> String {
	format!("{:?} {:?} {:?}", c.id, c.eval_point.to_vec(), c.eval)
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
	v.sort();
	v
}
fn known(c: &Value, ids: &[OracleId]) -> HashMap<OracleId, Vec<B128>> {
	ids.iter().copied().zip(arr(&c["tables"]).iter().map(elems)).collect()
}
fn eq_weights(pt: &[B128]) -> Vec<B128> {
	let mut w = vec![B128::ONE];
	for &r in pt {
		let n = w.len();
		for i in 0..n {
			let hi = w[i] * r;
			w.push(hi);
			w[i] -= hi;
		}
	}
	w
}
fn naive(t: &[B128], pt: &[B128]) -> B128 {
	t.iter().zip(eq_weights(pt)).map(|(&a, b)| a * b).sum()
}
/// Table of a column by definition: the specification's for its own columns, and for those the protocol adds, theirs.
fn table(o: &MultilinearOracleSet<B128>, id: OracleId, known: &HashMap<OracleId, Vec<B128>>) -> Vec<B128> {
	if let Some(t) = known.get(&id) {
		return t.clone();
	}
	match &o[id].variant {
		MultilinearPolyVariant::Projected(p) => {
			let t = table(o, p.id(), known);
			let (s, d) = (p.start_index(), p.values().len());
			let w = eq_weights(p.values());
			(0..t.len() >> d)
				.map(|x| (0..1usize << d).map(|v| w[v] * t[(x & ((1 << s) - 1)) | v << s | (x >> s) << (s + d)]).sum())
				.collect()
		}
		MultilinearPolyVariant::Transparent(t) => {
			let n = o.n_vars(id);
			(0..1usize << n)
				.map(|x| t.poly().evaluate(&(0..n).map(|i| if x >> i & 1 == 1 { B128::ONE } else { B128::ZERO }).collect::<Vec<_>>()).unwrap())
				.collect()
		}
		v => panic!("unexpected new column {v:?}"),
	}
}
/// (n_vars, claimed sum, actual sum) of the constraints of a set
fn constraint_sums(o: &MultilinearOracleSet<B128>, s: &SizedConstraintSet<B128>, known: &HashMap<OracleId, Vec<B128>>, eq: Option<&[B128]>) -> Vec<String> {
	let tabs: Vec<Vec<B128>> = s.oracle_ids.iter().map(|&i| table(o, i, known)).collect();
	let w = eq.map(eq_weights);
	s.constraints
		.iter()
		.map(|k| {
			let poly = ArithCircuitPoly::with_n_vars(s.oracle_ids.len(), k.composition.clone()).unwrap();
			let actual: B128 = (0..1usize << s.n_vars)
				.map(|x| poly.evaluate(&tabs.iter().map(|t| t[x]).collect::<Vec<B128>>()).unwrap() * w.as_ref().map_or(B128::ONE, |w| w[x]))
				.sum();
			let ConstraintPredicate::Sum(claimed) = k.predicate else { panic!("zero predicate") };
			format!("{} {claimed:?} {actual:?}", s.n_vars)
		})
		.collect()
}
struct Reduced {
	com: Vec<String>,
	sums: Vec<String>,
	mles: Vec<String>,
}
fn expected(c: &Value, ids: &[OracleId]) -> Reduced {
	let com = arr(&c["com"])
		.iter()
		.map(|x| show(&Claim { id: ids[us(&x["id"]) - 1], eval_point: elems(&x["pt"]).into(), eval: b128(&x["ev"]) }))
		.collect();
	let sums = arr(&c["sums"]).iter().map(|x| format!("{} {:?} {:?}", us(&x["n"]), b128(&x["ev"]), b128(&x["actual"]))).collect();
	let mles = arr(&c["mles"])
		.iter()
		.map(|m| {
			let pt = elems(&m["pt"]);
			let items = sorted(arr(&m["items"]).iter().map(|x| format!("{} {:?} {:?}", pt.len(), b128(&x["ev"]), b128(&x["actual"]))).collect());
			format!("{pt:?} {items:?}")
		})
		.collect();
	Reduced { com: sorted(com), sums: sorted(sums), mles: sorted(mles) }
}
fn run_verifier(c: &Value, o: &mut MultilinearOracleSet<B128>, ids: &[OracleId], proof: Vec<u8>) -> Result<Result<Reduced, String>, String> {
	guarded(|| {
		let mut t = VerifierTranscript::<Chal>::new(proof);
		let mut v = EvalcheckVerifier::new(o);
		v.verify(top(c, ids), &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())?;
		let com = v.committed_eval_claims().iter().map(show).collect();
		let sets = v.take_new_sumcheck_constraints().map_err(|e| e.to_string())?;
		let m = v.take_new_mlechecks_constraints().map_err(|e| e.to_string())?;
		drop(v);
		let k = known(c, ids);
		let sums = sets.iter().flat_map(|s| constraint_sums(o, s, &k, None)).collect();
		let mles = m
			.eq_ind_challenges
			.iter()
			.zip(&m.constraint_sets)
			.map(|(p, s)| format!("{p:?} {:?}", sorted(constraint_sums(o, s, &k, Some(p)))))
			.collect();
		Ok(Reduced { com: sorted(com), sums: sorted(sums), mles: sorted(mles) })
	})
}

fn replay(c: &Value) {
	let (o, ids) = match guarded(|| build(c)) {
		Ok(Ok(x)) => x,
		r => return violation(format!("columns cannot be declared: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
	};
	let mut w = ProverTranscript::<Chal>::new();
	for m in arr(&c["msgs"]) {
		let v = u(&m["v"]) as u32;
		match st(&m["m"]) {
			"new" => serialize_evalcheck_proof(&mut w.message(), &EvalcheckHint::NewClaim),
			"dup" => serialize_evalcheck_proof(&mut w.message(), &EvalcheckHint::DuplicateClaim(v)),
			"eval" => w.message().write_scalar(b128(&m["v"])),
			_ => w.message().write(&v),
		}
	}
	let mut proof = w.finalize();
	let dev = st(&c["dev"]["k"]);
	if dev == "trunc" {
		proof.pop();
	}
	let want = expected(c, &ids);
	let acc = st(&c["verdict"]) == "accept";
	match run_verifier(c, &mut o.clone(), &ids, proof) {
		Ok(Ok(r)) if acc => {
			if r.com != want.com {
				violation("evalcheck verifier's claims on committed columns are not those of the specification", json!({"case": c, "got": r.com, "want": want.com}));
			}
			if r.sums != want.sums {
				violation("evalcheck verifier's sum claims are not those of the specification (n, claimed, actual)", json!({"case": c, "got": r.sums, "want": want.sums}));
			}
			if r.mles != want.mles {
				violation("evalcheck verifier's composition claims are not those of the specification", json!({"case": c, "got": r.mles, "want": want.mles}));
			}
		}
		Ok(Err(_)) | Err(_) if !acc => {}
		r => violation(
			format!("evalcheck verifier gives {:?}, specification says {} (deviation {})", r.map(|x| x.map(|_| "accept")), c["verdict"], c["dev"]),
			c.clone(),
		),
	}
	if dev == "none" || dev == "top" {
		prove::<PackedBinaryField1x128b>(c, &o, &ids, &want);
		prove::<PackedBinaryField2x128b>(c, &o, &ids, &want);
		prove::<PackedBinaryField4x128b>(c, &o, &ids, &want);
	}
}

fn witness<P: Pk>(c: &Value, ids: &[OracleId]) -> MultilinearExtensionIndex<'static, P> {
	let mut w = MultilinearExtensionIndex::<P>::new();
	for ((nd, t), &id) in arr(&c["nodes"]).iter().zip(arr(&c["tables"])).zip(ids) {
		let kind = if st(&nd["t"]) == "com" { st(&nd["kind"]) } else { "x" };
		w.update_multilin_poly([(id, mle::<P>(kind, &elems(t)))]).unwrap();
	}
	w
}

fn prove<P: Pk>(c: &Value, o: &MultilinearOracleSet<B128>, ids: &[OracleId], want: &Reduced) {
	let who = format!("evalcheck prover (width {})", P::WIDTH);
	let honest = st(&c["dev"]["k"]) == "none";
	let k = known(c, ids);
	if honest {
		let r = guarded(|| {
			let mut o = o.clone();
			let mut w = witness::<P>(c, ids);
			let mut t = ProverTranscript::<Chal>::new();
			let (com, sets, m) = {
				let mut p = EvalcheckProver::<B128, P>::new(&mut o, &mut w);
				p.prove(top(c, ids), &mut t).map_err(|e| e.to_string())?;
				let com: Vec<String> = p.committed_eval_claims().iter().map(show).collect();
				(com, p.take_new_bivariate_sumchecks_constraints().map_err(|e| e.to_string())?, p.take_new_mlechecks_constraints().map_err(|e| e.to_string())?)
			};
			for s in sets.iter().chain(m.iter().map(|x| &x.constraint_set)) {
				for &id in &s.oracle_ids {
					let p = w.get_multilin_poly(id).map_err(|e| e.to_string())?;
					let got: Vec<B128> = (0..1usize << p.n_vars()).map(|i| p.evaluate_on_hypercube(i).unwrap()).collect();
					if got != table(&o, id, &k) {
						violation(format!("{who}: the witness it makes for a derived column is not that column"), c.clone());
					}
				}
			}
			let sums = sets.iter().flat_map(|s| constraint_sums(&o, s, &k, None)).collect();
			let mles = m
				.iter()
				.map(|ConstraintSetEqIndPoint { eq_ind_challenges: p, constraint_set: s }| {
					format!("{:?} {:?}", p.to_vec(), sorted(constraint_sums(&o, s, &k, Some(p))))
				})
				.collect();
			Ok::<_, String>((Reduced { com: sorted(com), sums: sorted(sums), mles: sorted(mles) }, t.finalize()))
		});
		match r {
			Ok(Ok((r, bytes))) => {
				if r.com != want.com || r.sums != want.sums || r.mles != want.mles {
					violation(
						format!("{who}: reduced claims are not those of the specification"),
						json!({"case": c, "got": [r.com, r.sums, r.mles], "want": [&want.com, &want.sums, &want.mles]}),
					);
				}
				if !matches!(run_verifier(c, &mut o.clone(), ids, bytes), Ok(Ok(_))) {
					violation(format!("{who}: the verifier rejects its proof of true claims"), c.clone());
				}
			}
			r => violation(format!("{who} fails on true claims: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
		}
	}
	// the whole protocol, down to committed columns
	for immediate in [true, false] {
		let who = format!("greedy evalcheck (width {}, immediate switchover {immediate})", P::WIDTH);
		let r = guarded(|| {
			let mut po = o.clone();
			let mut w = witness::<P>(c, ids);
			let mut t = ProverTranscript::<Chal>::new();
			let f = move |n: usize| if immediate { immediate_switchover_heuristic(n) } else { standard_switchover_heuristic(-2)(n) };
			let out = greedy_evalcheck::prove::<B128, P, B8, _, _>(
				&mut po,
				&mut w,
				top(c, ids),
				f,
				&mut t,
				IsomorphicEvaluationDomainFactory::<B8>::default(),
				&make_portable_backend(),
			)
			.map_err(|e| e.to_string())?;
			Ok::<_, String>((out.eval_claims.iter().map(show).collect::<Vec<_>>(), t.finalize()))
		});
		let (pc, bytes) = match r {
			Ok(Ok(x)) => x,
			r => {
				if honest {
					violation(format!("{who}: the prover fails on true claims: {:?}", r.map(|x| x.map(|_| ()))), c.clone());
				}
				continue;
			}
		};
		let v = guarded(|| {
			let mut t = VerifierTranscript::<Chal>::new(bytes);
			let r = greedy_evalcheck::verify(&mut o.clone(), top(c, ids), &mut t).map_err(|e| e.to_string())?;
			t.finalize().map_err(|e| e.to_string())?;
			Ok::<_, String>(r)
		});
		match v {
			Ok(Ok(cl)) => {
				let all_true = cl.iter().all(|x| k.get(&x.id).is_some_and(|t| naive(t, &x.eval_point) == x.eval));
				if honest && (!all_true || sorted(pc) != sorted(cl.iter().map(show).collect())) {
					violation(format!("{who}: true claims end in claims on committed columns that are false, or differ between prover and verifier"), c.clone());
				}
				if !honest && all_true {
					violation(format!("{who}: a false claim is accepted and every emitted claim is true"), c.clone());
				}
			}
			r => {
				if honest {
					violation(format!("{who}: the verifier rejects true claims: {:?}", r.map(|x| x.map(|_| ()))), c.clone());
				}
			}
		}
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	if a[0] == "transparent" {
		big_powers();
	}
	for c in &cases {
		match &a[0][..] {
			"transparent" => tr_case(c),
			_ => replay(c),
		}
	}
	summary(json!({"cases": cases.len()}));
}
