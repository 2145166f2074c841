//! Replays Zerocheck.tla in the real zerocheck verifier and provers.
use std::sync::Arc;

use binius_core::{
	protocols::sumcheck::{
		BatchZerocheckOutput, ZerocheckClaim, batch_prove_zerocheck, batch_verify_zerocheck,
		prove::{ZerocheckProverImpl, zerocheck::validate_witness},
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::*;
use binius_hal::make_portable_backend;
use binius_math::{CompositionPoly, IsomorphicEvaluationDomainFactory};
use vharness::{sums::*, *};

fn outs(o: BatchZerocheckOutput<B128>) -> [Vec<B128>; 3] {
	[o.skipped_challenges, o.unskipped_challenges, o.concat_multilinear_evals]
}
fn want(c: &Value) -> [Vec<B128>; 3] {
	["skipped", "unskipped", "evals"].map(|k| arr(&c[k]).iter().map(b128).collect())
}
fn claims(c: &Value) -> Vec<ZerocheckClaim<B128, ArithCircuitPoly<B128>>> {
	arr(&c["claims"])
		.iter()
		.map(|k| {
			let nm = arr(&k["kinds"]).len();
			ZerocheckClaim::new(us(&k["n"]), nm, arr(&k["comps"]).iter().map(|x| comp_of(x, nm, false)).collect()).unwrap()
		})
		.collect()
}
fn verify(c: &Value, proof: Vec<u8>) -> Result<Result<[Vec<B128>; 3], String>, String> {
	set_script(script_of(&nums(&c["samples"]), 16));
	let mut t = VerifierTranscript::<Scripted>::new(proof);
	guarded(|| {
		let o = batch_verify_zerocheck(&claims(c), us(&c["skip"]), &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| format!("finalize: {e}"))?;
		Ok(outs(o))
	})
}

fn replay(c: &Value) {
	let mut proof = script_of(&nums(&c["msgs"]), 16);
	if st(&c["dev"]["k"]) == "trunc" {
		proof.pop();
	}
	let v = st(&c["verdict"]);
	let got = verify(c, proof);
	match &got {
		Ok(Ok(o)) if v == "accept" => {
			if *o != want(c) {
				violation("zerocheck verifier's reduced claims differ from the specification's", c.clone());
			}
		}
		Ok(Err(_)) | Err(_) if v == "reject" => {}
		Ok(Err(_)) if v == "refuse" => {}
		_ => violation(format!("zerocheck verifier gives {got:?}, specification says {v}"), c.clone()),
	}
	for k in arr(&c["claims"]) {
		let ok = validates(k);
		let dev = st(&c["dev"]["k"]);
		if dev == "none" && c["vanishes"].as_bool().unwrap() && !ok {
			violation("witness validation rejects vanishing constraints", c.clone());
		}
	}
	if !c["vanishes"].as_bool().unwrap() && arr(&c["claims"]).iter().all(validates) {
		violation("witness validation accepts a constraint that does not vanish", c.clone());
	}
	let dev = st(&c["dev"]["k"]);
	if v != "refuse" && (dev == "none" || dev == "witness") {
		prover::<PackedBinaryField1x128b>(c);
		prover::<PackedBinaryField2x128b>(c);
		prover::<PackedBinaryField4x128b>(c);
	}
}

fn validates(k: &Value) -> bool {
	let nm = arr(&k["kinds"]).len();
	let mls = multilinears::<PackedBinaryField1x128b>(k, false);
	let comps: Vec<_> = arr(&k["comps"]).iter().map(|x| (String::new(), comp_of(x, nm, false))).collect();
	validate_witness(&mls, &comps).is_ok()
}

fn prover<P: Pk>(c: &Value)
where
	P: PackedExtension<B1>,
{
	let cl = arr(&c["claims"]);
	let small = |k: &str| cl.iter().all(|x| arr(&x["kinds"]).iter().all(|y| st(y) != k));
	if small("x") {
		run::<P, B16>(c, |x, n| comp_in(x, n, false, |v| B16::new(u(v) as u16)));
	}
	run::<P, B128>(c, |x, n| comp_in(x, n, false, b128));
}

fn run<P: Pk + PackedExtension<FB>, FB: TowerField + ExtensionField<B8>>(c: &Value, base: impl Fn(&Value, usize) -> ArithCircuitPoly<FB>)
where
	B128: ExtensionField<FB>,
	ArithCircuitPoly<FB>: CompositionPoly<<P as PackedExtension<FB>>::PackedSubfield>,
{
	let z: Vec<B128> = arr(&c["z"]).iter().map(b128).collect();
	let skip = us(&c["skip"]);
	set_script(script_of(&nums(&c["samples"])[z.len()..], 16));
	let backend = make_portable_backend();
	let r = guarded(|| {
		let mut t = ProverTranscript::<Scripted>::new();
		let provers = arr(&c["claims"])
			.iter()
			.map(|k| {
				let nm = arr(&k["kinds"]).len();
				let n = us(&k["n"]).saturating_sub(skip);
				let comps: Vec<_> = arr(&k["comps"])
					.iter()
					.enumerate()
					.map(|(i, x)| (format!("{i}"), Arc::new(base(x, nm)), Arc::new(comp_of(x, nm, false))))
					.collect();
				ZerocheckProverImpl::<B8, FB, P, _, _, _, _, _>::new(
					multilinears::<P>(k, false),
					comps,
					&z[z.len() - n..],
					IsomorphicEvaluationDomainFactory::<B8>::default(),
					&backend,
				)
				.map_err(|e| e.to_string())
			})
			.collect::<Result<Vec<_>, _>>()?;
		let o = batch_prove_zerocheck::<B128, B8, P, _, _>(provers, skip, &mut t).map_err(|e| e.to_string())?;
		Ok::<_, String>((outs(o), t.finalize()))
	});
	let who = format!("zerocheck prover (base field of {} bits, width {})", FB::N_BITS, P::WIDTH);
	if c["msgs"].is_null() {
		let o = match r {
			Ok(Ok((o, bytes))) => match verify(c, bytes) {
				Ok(Ok(v)) if v == o => v,
				r => return violation(format!("honest {who}, long columns: not accepted with the same claims: {r:?}"), brief(c)),
			},
			r => return violation(format!("honest {who}, long columns: fails: {:?}", r.map(|x| x.map(|_| ()))), brief(c)),
		};
		let mut evals = o[2].iter();
		for k in arr(&c["claims"]) {
			let n = us(&k["n"]);
			let at = [&o[0][..n.min(skip)], &o[1][o[1].len() - n.saturating_sub(skip)..]].concat();
			if tables(k, false).iter().any(|t| evals.next() != Some(&eval_at(t, &at))) {
				return violation(format!("honest {who}, long columns: a reduced claim is false"), brief(c));
			}
		}
	} else if c["vanishes"].as_bool().unwrap() {
		match r {
			Ok(Ok((o, bytes))) => {
				if bytes != script_of(&nums(&c["msgs"]), 16) {
					violation(format!("honest {who}: messages are not those of the specification"), c.clone());
				} else if o != want(c) {
					violation(format!("honest {who}: reduced claims are not those of the specification"), c.clone());
				}
			}
			Err(_) if arr(&c["claims"]).iter().any(|k| arr(&k["comps"]).iter().any(|x| arr(x).iter().all(|m| arr(&m["e"]).is_empty()))) => {
				violation("the zerocheck prover panics on a composition that is a constant", c.clone())
			}
			r => violation(format!("honest {who} fails: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
		}
	} else if u(&c["cs"]) > 0 {
		if let Ok(Ok((_, bytes))) = r {
			if let Ok(Ok(_)) = verify(c, bytes) {
				violation(format!("{who}: the proof of a constraint that does not vanish is accepted"), c.clone());
			}
		}
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	for c in &cases {
		if a[0] == "scale" {
			let mut g = grow(c, us(&c["extra"]), seed() + u(&c["extra"]));
			let top = arr(&g["claims"]).iter().map(|k| us(&k["n"])).max().unwrap_or(0);
			g["z"] = json!(nums(&g["samples"])[..top.saturating_sub(us(&g["skip"]))]);
			if arr(&g["claims"]).iter().any(|k| !validates(k)) {
				violation("witness validation rejects vanishing constraints, long columns", brief(&g));
			}
			prover::<PackedBinaryField1x128b>(&g);
			prover::<PackedBinaryField4x128b>(&g);
			continue;
		}
		replay(c);
	}
	summary(json!({"cases": cases.len()}));
}
