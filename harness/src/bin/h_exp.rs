//! Replays Exp.tla in the real exponentiation argument: verifier, provers, witnesses, claim plumbing.
use binius_core::{
	oracle::MultilinearOracleSet,
	protocols::gkr_exp::{self, BaseExpReductionOutput, BaseExpWitness, ExpClaim},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory, MultilinearPoly};
use vharness::{sums::*, *};

fn order(c: &Value) -> EvaluationOrder {
	if st(&c["order"]) == "low" { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
}
fn elems(v: &Value) -> Vec<B128> {
	arr(v).iter().map(b128).collect()
}
fn exp_claims(c: &Value) -> Vec<ExpClaim<B128>> {
	arr(&c["claims"])
		.iter()
		.map(|k| ExpClaim {
			eval_point: elems(&k["point"]),
			eval: b128(&k["eval"]),
			exponent_bit_width: us(&k["w"]),
			n_vars: us(&k["n"]),
			static_base: (k["dyn"] == json!(false)).then(|| b128(&k["g"])),
		})
		.collect()
}
type Outs = Vec<Vec<(Vec<B128>, B128)>>;
fn outs(o: &BaseExpReductionOutput<B128>) -> Outs {
	o.layers_claims.iter().map(|l| l.iter().map(|x| (x.eval_point.clone(), x.eval)).collect()).collect()
}
fn want(c: &Value) -> Outs {
	arr(&c["outs"]).iter().map(|l| arr(l).iter().map(|o| (elems(&o["point"]), b128(&o["eval"]))).collect()).collect()
}

fn replay(c: &Value) {
	let mut proof = script_of(&nums(&c["msgs"]), 16);
	let dev = st(&c["dev"]["k"]);
	if dev == "trunc" {
		proof.pop();
	}
	set_script(script_of(&nums(&c["samples"]), 16));
	let acc = st(&c["verdict"]) == "accept";
	let got = guarded(|| {
		let mut t = VerifierTranscript::<Scripted>::new(proof);
		let o = gkr_exp::batch_verify(order(c), &exp_claims(c), &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())?;
		Ok::<_, String>(o)
	});
	match got {
		Ok(Ok(o)) if acc => {
			if outs(&o) != want(c) {
				violation("exponentiation verifier's reduced claims differ from the specification's", json!({"case": c, "got": format!("{:?}", outs(&o))}));
			} else {
				plumbing(c, o);
			}
		}
		Ok(Err(_)) | Err(_) if !acc => {}
		r => violation(
			format!("exponentiation verifier gives {:?}, specification says {} (deviation {})", r.map(|x| x.map(|_| "accept")), c["verdict"], c["dev"]),
			c.clone(),
		),
	}
	if dev == "none" || dev == "claim" {
		// the exponent may not be wider than the elements of the base
		if arr(&c["claims"]).iter().all(|k| arr(&k["bits"]).len() <= 16) {
			prove::<PackedBinaryField1x128b, PackedBinaryField8x16b>(c, "b16");
			prove::<PackedBinaryField2x128b, PackedBinaryField16x16b>(c, "b16");
			prove::<PackedBinaryField4x128b, PackedBinaryField32x16b>(c, "b16");
		} else {
			prove::<PackedBinaryField1x128b, PackedBinaryField1x128b>(c, "b128");
			prove::<PackedBinaryField2x128b, PackedBinaryField2x128b>(c, "b128");
			prove::<PackedBinaryField4x128b, PackedBinaryField4x128b>(c, "b128");
			if dev == "none" {
				lifted::<PackedBinaryField1x128b>(c, 0);
				lifted::<PackedBinaryField4x128b>(c, 0);
			}
		}
	}
}

/// From reduced claims to claims on named oracles, and from oracle names to exponentiation claims.
fn plumbing(c: &Value, o: BaseExpReductionOutput<B128>) {
	let r = guarded(|| {
		let mut oracles = MultilinearOracleSet::<B128>::new();
		let claims = exp_claims(c);
		let (mut metas, mut dynamic) = (vec![], vec![]);
		for k in arr(&c["claims"]) {
			let n = us(&k["n"]);
			metas.push((0..us(&k["w"])).map(|_| oracles.add_committed(n, 0)).collect::<Vec<_>>());
			dynamic.push((k["dyn"] == json!(true)).then(|| oracles.add_committed(n, 4)));
		}
		let longest = claims.iter().max_by_key(|x| x.n_vars).map(|x| x.eval_point.clone()).unwrap_or_default();
		if claims.iter().all(|x| x.eval_point[..] == longest[..x.n_vars]) {
			let evals: Vec<_> = claims.iter().map(|x| x.eval).collect();
			let made = gkr_exp::construct_gkr_exp_claims(&metas, &evals, claims.iter().map(|x| x.static_base).collect(), &oracles, &longest).map_err(|e| e.to_string())?;
			let f = |x: &ExpClaim<B128>| (x.eval_point.clone(), x.eval, x.exponent_bit_width, x.n_vars, x.static_base);
			if made.iter().map(f).collect::<Vec<_>>() != claims.iter().map(f).collect::<Vec<_>>() {
				violation("construct_gkr_exp_claims does not build the claims it was asked for", c.clone());
			}
		}
		let mut want: Vec<String> = vec![];
		for l in arr(&c["outs"]) {
			for x in arr(l) {
				let (ci, m) = (us(&x["c"]) - 1, us(&x["m"]));
				let id = if m == 0 { dynamic[ci].unwrap() } else { metas[ci][m - 1] };
				want.push(format!("{id:?} {:?} {:?}", elems(&x["point"]), b128(&x["eval"])));
			}
		}
		let mut got: Vec<String> = gkr_exp::make_eval_claims(metas, o, dynamic)
			.map_err(|e| e.to_string())?
			.into_iter()
			.map(|x| format!("{:?} {:?} {:?}", x.id, x.eval_point.to_vec(), x.eval))
			.collect();
		want.sort();
		got.sort();
		if want != got {
			violation("make_eval_claims attaches evaluations to the wrong columns", json!({"case": c, "want": want, "got": got}));
		}
		Ok::<_, String>(())
	});
	if !matches!(r, Ok(Ok(()))) {
		violation(format!("claim plumbing of a true exponentiation fails: {r:?}"), c.clone());
	}
}

fn prove<P, PB>(c: &Value, kind: &str)
where
	P: Pk + RepackedExtension<PB>,
	PB: PackedField,
	PB::Scalar: BinaryField + From<B16>,
	B128: ExtensionField<PB::Scalar>,
{
	set_script(script_of(&nums(&c["samples"]), 16));
	let backend = make_portable_backend();
	let who = format!("exponentiation prover (width {})", P::WIDTH);
	let r = guarded(|| {
		let mut witnesses = vec![];
		for k in arr(&c["claims"]) {
			let bits: Vec<Mle<P>> = arr(&k["bits"]).iter().map(|t| mle::<P>("b1", &elems(t))).collect();
			let w = if k["dyn"] == json!(true) {
				BaseExpWitness::<P>::new_with_dynamic_base::<PB>(bits, mle::<P>(kind, &elems(&k["base"])))
			} else {
				BaseExpWitness::<P>::new_with_static_base::<PB>(bits, b16(&k["g"]).into())
			}
			.map_err(|e| e.to_string())?;
			let res = w.exponentiation_result_witness();
			let got: Vec<B128> = (0..1 << us(&k["n"])).map(|i| res.evaluate_on_hypercube(i).unwrap()).collect();
			if got != elems(&k["result"]) {
				violation(format!("{who}: witness column is not base^exponent: {got:?}"), k.clone());
			}
			witnesses.push(w);
		}
		let claims = exp_claims(c);
		if claims.windows(2).all(|w| w[0].eval_point.starts_with(&w[1].eval_point)) && !claims.is_empty() {
			let e = gkr_exp::get_evals_in_point_from_witnesses(&witnesses, &claims[0].eval_point).map_err(|e| e.to_string())?;
			if st(&c["dev"]["k"]) == "none" && e != claims.iter().map(|x| x.eval).collect::<Vec<_>>() {
				violation(format!("{who}: evaluations of the result columns are wrong"), c.clone());
			}
		}
		let mut t = ProverTranscript::<Scripted>::new();
		let o = gkr_exp::batch_prove::<B128, P, B8, _, _>(order(c), witnesses, &claims, IsomorphicEvaluationDomainFactory::<B8>::default(), &mut t, &backend)
			.map_err(|e| e.to_string())?;
		Ok::<_, String>((outs(&o), t.finalize()))
	});
	if st(&c["verdict"]) == "refuse" {
		if let Ok(Ok(_)) = r {
			violation(format!("{who} accepts claims out of order"), c.clone());
		}
		return;
	}
	match r {
		_ if st(&c["dev"]["k"]) != "none" => {}
		Ok(Ok((f, bytes))) => {
			if bytes != script_of(&nums(&c["msgs"]), 16) {
				violation(format!("{who}: messages are not those of the specification"), c.clone());
			} else if f != want(c) {
				violation(format!("{who}: reduced claims are not those of the specification"), c.clone());
			}
		}
		r => violation(format!("{who} fails on a true claim: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
	}
}

/// The same behaviour with every base moved out of the 16-bit subfield: there an exponent wider than
/// 64 bits is not congruent to one that is 64 bits shorter.
fn lifted<P: Pk>(c: &Value, extra: usize) {
	let mut r = Rng(seed() * 91 + 2 * extra as u64 + 1);
	let mut fresh = |m: u64| B128::new(r.next() as u128 % m as u128);
	let long: Vec<B128> = (0..64).map(|_| fresh(65536)).collect();
	let shift = BinaryField128b::new(0x9e3779b97f4a7c15f39cc0605cedc835);
	let challenges = script_of(&nums(&c["samples"]), 16);
	let r = guarded(|| {
		let (mut claims, mut witnesses, mut cols) = (vec![], vec![], vec![]);
		for k in arr(&c["claims"]) {
			let n = us(&k["n"]) + extra;
			let mut point = elems(&k["point"]);
			let mut bits: Vec<Vec<B128>> = arr(&k["bits"]).iter().map(elems).collect();
			let mut base: Vec<B128> = if k["dyn"] == json!(true) { elems(&k["base"]).iter().map(|x| *x + shift).collect() } else { vec![b128(&k["g"]) + shift; 1 << n] };
			if extra > 0 {
				// claims that shared a point go on sharing it
				let own = point.first().copied().unwrap_or(long[63]);
				point = (0..n).map(|i| own * long[i]).collect();
				bits = bits.iter().map(|_| (0..1 << n).map(|_| fresh(2)).collect()).collect();
				if k["dyn"] == json!(true) {
					base = (0..1 << n).map(|_| fresh(65536) + shift).collect();
				}
			}
			let result: Vec<B128> = (0..base.len())
				.map(|i| {
					let (mut acc, mut p) = (B128::ONE, base[i]);
					for b in &bits {
						if b[i] == B128::ONE {
							acc *= p;
						}
						p *= p;
					}
					acc
				})
				.collect();
			let mles = bits.iter().map(|t| mle::<P>("b1", t)).collect();
			let dynamic = k["dyn"] == json!(true);
			let w = if dynamic { BaseExpWitness::<P>::new_with_dynamic_base::<P>(mles, mle::<P>("b128", &base)) } else { BaseExpWitness::<P>::new_with_static_base::<P>(mles, base[0]) }.map_err(|e| e.to_string())?;
			let res = w.exponentiation_result_witness();
			if (0..result.len()).any(|i| res.evaluate_on_hypercube(i).unwrap() != result[i]) {
				return Err("the witness column is not base^exponent".to_string());
			}
			witnesses.push(w);
			claims.push(ExpClaim { eval: eval_at(&result, &point), eval_point: point, exponent_bit_width: bits.len(), n_vars: n, static_base: (!dynamic).then(|| base[0]) });
			cols.push((base, bits));
		}
		set_script(challenges.clone());
		let mut t = ProverTranscript::<Scripted>::new();
		let o = gkr_exp::batch_prove::<B128, P, B8, _, _>(order(c), witnesses, &claims, IsomorphicEvaluationDomainFactory::<B8>::default(), &mut t, &make_portable_backend()).map_err(|e| format!("prover: {e}"))?;
		set_script(challenges);
		let mut v = VerifierTranscript::<Scripted>::new(t.finalize());
		let vo = gkr_exp::batch_verify(order(c), &claims, &mut v).map_err(|e| format!("verifier: {e}"))?;
		v.finalize().map_err(|e| e.to_string())?;
		if outs(&o) != outs(&vo) {
			return Err("prover and verifier disagree on the reduced claims".to_string());
		}
		for (l, wl) in outs(&vo).iter().zip(arr(&c["outs"])) {
			for ((point, value), x) in l.iter().zip(arr(wl)) {
				let (base, bits) = &cols[us(&x["c"]) - 1];
				let m = us(&x["m"]);
				if *value != eval_at(if m == 0 { base } else { &bits[m - 1] }, point) {
					return Err(format!("a reduced claim is false: claim {} column {m}", x["c"]));
				}
			}
		}
		Ok(())
	});
	if !matches!(r, Ok(Ok(()))) {
		violation(format!("true exponentiation with a base outside the 16-bit subfield (width {}, {extra} more variables): {r:?}", P::WIDTH), c.clone());
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	for c in &cases {
		if a[0] == "scale" {
			lifted::<PackedBinaryField1x128b>(c, us(&c["extra"]));
			lifted::<PackedBinaryField4x128b>(c, us(&c["extra"]));
			continue;
		}
		replay(c);
	}
	summary(json!({"cases": cases.len()}));
}
