//! Replays Sumcheck.tla and SumcheckCalls.tla in the real sumcheck verifiers and provers.
use std::sync::Arc;

use binius_compute::{ComputeData, ComputeHolder, ComputeMemory, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder, layer::ComputeLayer, ops::eq_ind_partial_eval};
use binius_core::{
	composition::{BivariateProduct, IndexComposition},
	protocols::sumcheck::{
		self, BatchSumcheckOutput, CompositeSumClaim, EqIndSumcheckClaim, SumcheckClaim,
		eq_ind::{ClaimsSortingOrder, reduce_to_regular_sumchecks, verify_sumcheck_outputs},
		front_loaded::BatchVerifier,
		prove::{RegularSumcheckProver, SumcheckProver, eq_ind::EqIndSumcheckProverBuilder, front_loaded::BatchProver},
		v3::{bivariate_mlecheck::BivariateMLEcheckProver, bivariate_product::BivariateSumcheckProver},
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::{arith_circuit::ArithCircuitPoly, layer::FastCpuLayerHolder};
use binius_field::{tower::CanonicalTowerFamily, *};
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory, MultilinearPoly};
use vharness::{sums::*, *};

fn order(c: &Value) -> EvaluationOrder {
	if st(&c["order"]) == "low" { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
}
fn msgs_bytes(c: &Value) -> Vec<u8> {
	script_of(&nums(&c["msgs"]), 16)
}
fn samples(c: &Value) -> Vec<u8> {
	script_of(&nums(&c["samples"]), 16)
}

type Out = BatchSumcheckOutput<B128>;

fn verify<C: binius_math::CompositionPoly<B128> + Clone>(c: &Value, claims: &[SumcheckClaim<B128, C>], proof: Vec<u8>) -> Result<Result<Out, String>, String> {
	set_script(samples(c));
	let mut t = VerifierTranscript::<Scripted>::new(proof);
	guarded(|| {
		let o = if st(&c["proto"]) == "back" {
			sumcheck::batch_verify(order(c), claims, &mut t).map_err(|e| e.to_string())?
		} else {
			BatchVerifier::new(claims, &mut t).and_then(|v| v.run(&mut t)).map_err(|e| e.to_string())?
		};
		t.finalize().map_err(|e| format!("finalize: {e}"))?;
		Ok(o)
	})
}

fn replay(c: &Value) {
	let cl = arr(&c["claims"]);
	let eq: Vec<B128> = arr(&c["eq"]).iter().map(b128).collect();
	let is_eq = !cl.is_empty() && cl.iter().all(|k| arr(&k["kinds"]).last().is_some_and(|x| st(x) == "eq"));
	let mut proof = msgs_bytes(c);
	if st(&c["dev"]["k"]) == "trunc" {
		proof.pop();
	}
	let regular: Vec<SumcheckClaim<B128, ArithCircuitPoly<B128>>> = cl
		.iter()
		.map(|k| SumcheckClaim::new(us(&k["n"]), arr(&k["kinds"]).len(), composite_claims(k, false)).unwrap())
		.collect();
	let got = verify(c, &regular, proof.clone());
	judge(c, &got, "regular");
	if is_eq {
		let eqc: Vec<EqIndSumcheckClaim<B128, ArithCircuitPoly<B128>>> = cl
			.iter()
			.map(|k| EqIndSumcheckClaim::new(us(&k["n"]), arr(&k["kinds"]).len() - 1, composite_claims(k, true)).unwrap())
			.collect();
		let reg = reduce_to_regular_sumchecks(&eqc).unwrap();
		let got = verify(c, &reg, proof);
		judge(c, &got, "equality indicator reduction");
		// the equality indicator's value lines up with a suffix of the challenges
		let (pr, or) = (st(&c["proto"]), st(&c["order"]));
		let same = cl.iter().all(|k| k["n"] == cl[0]["n"]);
		if let (Ok(Ok(mut o)), true) = (got, (pr == "back" && or == "low") || (pr == "front" && or == "high") || same) {
			if pr == "front" && or == "high" {
				o.challenges.reverse();
			}
			let ord = if pr == "back" { ClaimsSortingOrder::DescendingVars } else { ClaimsSortingOrder::AscendingVars };
			let point = o.challenges.clone();
			let evals = o.multilinear_evals.clone();
			let r = guarded(|| verify_sumcheck_outputs(ord, &eqc, &eq, o).map_err(|e| e.to_string()));
			let ok = matches!(r, Ok(Ok(_)));
			if ok != c["eqok"].as_bool().unwrap() {
				violation(format!("equality indicator check: got {r:?}, specification accepts = {}", c["eqok"]), c.clone());
			}
			if let Ok(Ok(o)) = r {
				let want: Vec<Vec<B128>> = evals.into_iter().map(|mut e| { e.pop(); e }).collect();
				if o.multilinear_evals != want || o.challenges != point {
					violation("equality indicator check alters the reduced claims", c.clone());
				}
			}
		}
	}
	if st(&c["dev"]["k"]) == "none" && st(&c["verdict"]) == "accept" {
		honest(c, is_eq, &eq);
	}
}

fn judge(c: &Value, got: &Result<Result<Out, String>, String>, what: &str) {
	let want = st(&c["verdict"]);
	let acc = matches!(got, Ok(Ok(_)));
	if acc != (want == "accept") {
		violation(format!("{what}: verifier gives {got:?}, specification says {want} (deviation {})", c["dev"]), c.clone());
		return;
	}
	if want == "refuse" && got.is_err() {
		violation(format!("{what}: claims out of order crash instead of being refused: {got:?}"), c.clone());
	}
	if let Ok(Ok(o)) = got {
		let point: Vec<B128> = arr(&c["point"]).iter().map(b128).collect();
		let evals: Vec<Vec<B128>> = arr(&c["evals"]).iter().map(|e| arr(e).iter().map(b128).collect()).collect();
		if o.challenges != point || o.multilinear_evals != evals {
			violation(format!("{what}: reduced claims differ from the specification's"), json!({"case": c, "got": format!("{o:?}")}));
		}
	}
}

fn check_prover(c: &Value, who: &str, f: impl FnOnce(&mut ProverTranscript<Scripted>) -> Result<Out, String>) {
	set_script(samples(c));
	let r = guarded(|| {
		let mut t = ProverTranscript::<Scripted>::new();
		let o = f(&mut t)?;
		Ok::<_, String>((o, t.finalize()))
	});
	match r {
		Ok(Ok((o, bytes))) if c["msgs"].is_null() => {
			let claims: Vec<SumcheckClaim<B128, ArithCircuitPoly<B128>>> = arr(&c["claims"])
				.iter()
				.map(|k| SumcheckClaim::new(us(&k["n"]), arr(&k["kinds"]).len(), composite_claims(k, false)).unwrap())
				.collect();
			match verify(c, &claims, bytes) {
				Ok(Ok(v)) => {
					let mut chals = v.challenges.clone();
					if st(&c["proto"]) == "back" && st(&c["order"]) == "high" {
						chals.reverse();
					}
					for (k, evals) in arr(&c["claims"]).iter().zip(&v.multilinear_evals) {
						let n = us(&k["n"]);
						let mut at = if st(&c["proto"]) == "back" { chals[chals.len() - n..].to_vec() } else { chals[..n].to_vec() };
						if st(&c["order"]) == "high" {
							at.reverse();
						}
						if tables(k, false).iter().map(|t| eval_at(t, &at)).collect::<Vec<_>>() != *evals {
							violation(format!("honest {who} prover, long columns: a reduced claim is false"), brief(c));
						}
					}
					if o.challenges != v.challenges || o.multilinear_evals != v.multilinear_evals {
						violation(format!("honest {who} prover, long columns: reduced claims are not the verifier's"), brief(c));
					}
				}
				r => violation(format!("honest {who} prover, long columns: rejected: {r:?}"), brief(c)),
			}
		}
		Ok(Ok((o, bytes))) => {
			let point: Vec<B128> = arr(&c["point"]).iter().map(b128).collect();
			let evals: Vec<Vec<B128>> = arr(&c["evals"]).iter().map(|e| arr(e).iter().map(b128).collect()).collect();
			if bytes != msgs_bytes(c) {
				violation(format!("honest {who} prover's messages are not those of the specification"), c.clone());
			} else if o.challenges != point || o.multilinear_evals != evals {
				violation(format!("honest {who} prover's reduced claims are not those of the specification"), c.clone());
			}
		}
		Ok(Err(e)) | Err(e) => violation(format!("honest {who} prover fails: {e}"), c.clone()),
	}
}

fn drive<P: SumcheckProver<B128>>(c: &Value, provers: Vec<P>, t: &mut ProverTranscript<Scripted>) -> Result<Out, String> {
	if st(&c["proto"]) == "back" {
		sumcheck::batch_prove(provers, t).map_err(|e| e.to_string())
	} else {
		BatchProver::new(provers, t).and_then(|b| b.run(t)).map_err(|e| e.to_string())
	}
}

fn honest(c: &Value, is_eq: bool, eq: &[B128]) {
	let all_bivariate = arr(&c["claims"]).iter().all(|k| bivariate(k, is_eq).is_some());
	for sw in [0usize, 1, 2] {
		honest_regular::<PackedBinaryField1x128b>(c, sw);
		honest_regular::<PackedBinaryField2x128b>(c, sw);
		honest_regular::<PackedBinaryField4x128b>(c, sw);
		if is_eq {
			honest_eq::<PackedBinaryField1x128b>(c, eq, sw);
			honest_eq::<PackedBinaryField2x128b>(c, eq, sw);
			honest_eq::<PackedBinaryField4x128b>(c, eq, sw);
		}
	}
	if all_bivariate && order(c) == EvaluationOrder::HighToLow {
		let mut h = CpuLayerHolder::<B128>::new(1 << 13, 1 << 16);
		honest_v3(c, is_eq, eq, &mut h, "CpuLayer");
		let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 13, 1 << 16);
		honest_v3(c, is_eq, eq, &mut h, "FastCpuLayer");
	}
}

fn honest_regular<P: Pk>(c: &Value, sw: usize) {
	let backend = make_portable_backend();
	check_prover(c, &format!("regular (width {}, switchover {sw})", P::WIDTH), |t| {
		let provers = arr(&c["claims"])
			.iter()
			.map(|k| {
				RegularSumcheckProver::<B8, P, _, _, _>::new(
					order(c),
					multilinears::<P>(k, false),
					composite_claims(k, false),
					IsomorphicEvaluationDomainFactory::<B8>::default(),
					move |_| sw,
					&backend,
				)
				.map_err(|e| e.to_string())
			})
			.collect::<Result<Vec<_>, _>>()?;
		drive(c, provers, t)
	});
}

fn honest_eq<P: Pk>(c: &Value, eq: &[B128], sw: usize) {
	let backend = make_portable_backend();
	for suffixes in [false, true] {
		check_prover(c, &format!("equality indicator (width {}, switchover {sw}, suffixes {suffixes})", P::WIDTH), |t| {
			let provers = arr(&c["claims"])
				.iter()
				.map(|k| {
					let n = us(&k["n"]);
					let mls = multilinears::<P>(k, true);
					let mut b = EqIndSumcheckProverBuilder::with_switchover(mls, move |_| sw, &backend).map_err(|e| e.to_string())?;
					if suffixes {
						b = b.with_const_suffixes(&const_suffixes(k)).map_err(|e| e.to_string())?;
					}
					b.build::<B8, _>(order(c), &eq[eq.len() - n..], composite_claims(k, true), IsomorphicEvaluationDomainFactory::<B8>::default())
						.map_err(|e| e.to_string())
				})
				.collect::<Result<Vec<_>, _>>()?;
			drive(c, provers, t)
		});
	}
	if sw == 0 {
		check_prover(c, &format!("equality indicator without switchover (width {})", P::WIDTH), |t| {
			let provers = arr(&c["claims"])
				.iter()
				.map(|k| {
					let n = us(&k["n"]);
					let mls: Vec<Vec<P>> = tables(k, true).into_iter().map(|t| pack_table::<P>(&t)).collect();
					EqIndSumcheckProverBuilder::without_switchover(n, mls, &backend)
						.build::<B8, _>(order(c), &eq[eq.len() - n..], composite_claims(k, true), IsomorphicEvaluationDomainFactory::<B8>::default())
						.map_err(|e| e.to_string())
				})
				.collect::<Result<Vec<_>, _>>()?;
			drive(c, provers, t)
		});
	}
}

/// The claim's compositions as products of two distinct multilinears, if they are all of that form.
fn bivariate(k: &Value, is_eq: bool) -> Option<Vec<[usize; 2]>> {
	arr(&k["comps"])
		.iter()
		.map(|comp| {
			let m = arr(comp);
			if m.len() != 1 || u(&m[0]["c"]) != 1 {
				return None;
			}
			let mut e = nums(&m[0]["e"]);
			if is_eq {
				e.pop();
			}
			(e.len() == 2).then(|| [e[0] as usize - 1, e[1] as usize - 1])
		})
		.collect()
}

fn honest_v3<Hal: ComputeLayer<B128>, H: ComputeHolder<B128, Hal>>(c: &Value, is_eq: bool, eq: &[B128], holder: &mut H, who: &str) {
	let ComputeData { hal, dev_alloc, host_alloc, .. } = holder.to_data();
	let (dev_alloc, host_alloc) = (&dev_alloc, &host_alloc);
	check_prover(c, &format!("bivariate v3 (eq {is_eq}, {who})"), |t| {
		let up = |tab: &Vec<B128>| {
			let mut d = dev_alloc.alloc(tab.len()).unwrap();
			hal.copy_h2d(tab, &mut d).unwrap();
			Hal::DevMem::to_const(d)
		};
		let e = |x: sumcheck::Error| x.to_string();
		if is_eq {
			let mut provers = vec![];
			for k in arr(&c["claims"]) {
				let n = us(&k["n"]);
				let nm = arr(&k["kinds"]).len() - 1;
				let sums = arr(&k["sums"]).iter().map(b128);
				let comps = bivariate(k, true).unwrap().into_iter().zip(sums)
					.map(|(ix, sum)| CompositeSumClaim { composition: IndexComposition::new(nm, ix, BivariateProduct::default()).unwrap(), sum })
					.collect();
				let claim = EqIndSumcheckClaim::new(n, nm, comps).map_err(e)?;
				let mls = tables(k, true).iter().map(up).collect();
				let ch = eq[eq.len() - n..].to_vec();
				let pe = eq_ind_partial_eval(hal, dev_alloc, &ch[..n.saturating_sub(1)]).unwrap();
				provers.push(BivariateMLEcheckProver::new(hal, dev_alloc, host_alloc, &claim, mls, Hal::DevMem::to_const(pe), ch).map_err(e)?);
			}
			drive(c, provers, t)
		} else {
			let mut provers = vec![];
			for k in arr(&c["claims"]) {
				let n = us(&k["n"]);
				let nm = arr(&k["kinds"]).len();
				let sums = arr(&k["sums"]).iter().map(b128);
				let comps = bivariate(k, false).unwrap().into_iter().zip(sums)
					.map(|(ix, sum)| CompositeSumClaim { composition: IndexComposition::new(nm, ix, BivariateProduct::default()).unwrap(), sum })
					.collect();
				let claim = SumcheckClaim::new(n, nm, comps).map_err(e)?;
				let mls = tables(k, false).iter().map(up).collect();
				provers.push(BivariateSumcheckProver::new(hal, dev_alloc, host_alloc, &claim, mls).map_err(e)?);
			}
			drive(c, provers, t)
		}
	});
}

/// Call sequences on the round-by-round verifier; all values are zero, so that only order matters.
fn calls(c: &Value) {
	let claims: Vec<SumcheckClaim<B128, ArithCircuitPoly<B128>>> = nums(&c["shape"])
		.into_iter()
		.map(|n| {
			let comp = ArithCircuitPoly::with_n_vars(2, binius_math::ArithCircuit::var(0) * binius_math::ArithCircuit::var(1)).unwrap();
			SumcheckClaim::new(n as usize, 2, vec![CompositeSumClaim { composition: comp, sum: B128::ZERO }]).unwrap()
		})
		.collect();
	set_script(vec![]);
	let mut t = VerifierTranscript::<Scripted>::new(vec![0; 16 * 64]);
	let r = guarded(|| {
		let mut v = Some(BatchVerifier::new(&claims, &mut t).unwrap());
		let mut out = vec![];
		for call in arr(&c["calls"]) {
			let res = match st(call) {
				"try" => match v.as_mut().unwrap().try_finish_claim(&mut t.message()) {
					Ok(Some(_)) => "some",
					Ok(None) => "none",
					Err(_) => "err",
				},
				"receive" => if v.as_mut().unwrap().receive_round_proof(&mut t.message()).is_ok() { "ok" } else { "err" },
				"round" => if v.as_mut().unwrap().finish_round(B128::new(7)).is_ok() { "ok" } else { "err" },
				"finish" => if v.take().unwrap().finish().is_ok() { "ok" } else { "err" },
				x => panic!("{x}"),
			};
			out.push(res);
		}
		out
	});
	let want: Vec<&str> = arr(&c["results"]).iter().map(st).collect();
	match r {
		Ok(o) if o == want => {}
		r => violation(format!("sumcheck verifier call sequence: got {r:?}, specification {want:?}"), c.clone()),
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	for c in &cases {
		match a[0].as_str() {
			"replay" => replay(c),
			"calls" => calls(c),
			"scale" => {
				let g = grow(c, us(&c["extra"]), seed() + u(&c["extra"]));
				let eq: Vec<B128> = arr(&g["eq"]).iter().map(b128).collect();
				let is_eq = arr(&c["claims"]).iter().all(|k| arr(&k["kinds"]).last().is_some_and(|x| st(x) == "eq"));
				honest(&g, is_eq, &eq);
			}
			x => panic!("{x}"),
		}
	}
	summary(json!({"cases": cases.len()}));
	let _: Option<Arc<dyn MultilinearPoly<PackedBinaryField1x128b> + Send + Sync>> = None;
}
