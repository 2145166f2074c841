//! Replays Gpa.tla in the real grand product verifier, provers and product circuits.
use binius_compute::{ComputeData, ComputeHolder, ComputeMemory, alloc::{BumpAllocator, ComputeAllocator, HostBumpAllocator}, cpu::layer::CpuLayerHolder, layer::ComputeLayer};
use binius_core::{
	protocols::{
		gkr_gpa::{self, GrandProductClaim, GrandProductWitness},
		prodcheck::ProductCircuitLayers,
	},
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{tower::CanonicalTowerFamily, *};
use binius_hal::make_portable_backend;
use binius_math::{EvaluationOrder, IsomorphicEvaluationDomainFactory};
use vharness::{sums::*, *};

fn order(c: &Value) -> EvaluationOrder {
	if st(&c["order"]) == "low" { EvaluationOrder::LowToHigh } else { EvaluationOrder::HighToLow }
}
fn gp_claims(c: &Value) -> Vec<GrandProductClaim<B128>> {
	arr(&c["claims"]).iter().map(|k| GrandProductClaim { n_vars: us(&k["n"]), product: b128(&k["product"]) }).collect()
}
type Finals = Vec<(Vec<B128>, B128)>;
fn want(c: &Value) -> Finals {
	arr(&c["finals"]).iter().map(|f| (arr(&f["point"]).iter().map(b128).collect(), b128(&f["eval"]))).collect()
}
fn table(k: &Value) -> Vec<B128> {
	arr(&k["table"]).iter().map(b128).collect()
}

fn replay(c: &Value) {
	let mut proof = script_of(&nums(&c["msgs"]), 16);
	let dev = st(&c["dev"]["k"]);
	if dev == "trunc" {
		proof.pop();
	}
	set_script(script_of(&nums(&c["samples"]), 16));
	let got = guarded(|| {
		let mut t = VerifierTranscript::<Scripted>::new(proof);
		let o = gkr_gpa::batch_verify(order(c), gp_claims(c), &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())?;
		Ok::<Finals, String>(o.into_iter().map(|l| (l.eval_point, l.eval)).collect())
	});
	let acc = st(&c["verdict"]) == "accept";
	match &got {
		Ok(Ok(f)) if acc => {
			if *f != want(c) {
				violation("grand product verifier's final claims differ from the specification's", json!({"case": c, "got": format!("{f:?}")}));
			}
		}
		Ok(Err(_)) | Err(_) if !acc => {}
		_ => violation(format!("grand product verifier gives {got:?}, specification says {} (deviation {})", c["verdict"], c["dev"]), c.clone()),
	}
	if dev == "none" || dev == "product" {
		prove::<PackedBinaryField1x128b>(c);
		prove::<PackedBinaryField2x128b>(c);
		prove::<PackedBinaryField4x128b>(c);
	}
	if dev == "none" {
		let mut h = CpuLayerHolder::<B128>::new(1 << 10, 1 << 12);
		let ComputeData { hal, dev_alloc, host_alloc, .. } = h.to_data();
		circuits(c, hal, &host_alloc, &dev_alloc, "CpuLayer");
		let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField1x128b>::new(1 << 10, 1 << 12);
		let ComputeData { hal, dev_alloc, host_alloc, .. } = h.to_data();
		circuits(c, hal, &host_alloc, &dev_alloc, "FastCpuLayer");
	}
}

fn prove<P: Pk>(c: &Value) {
	for truncate in [true, false] {
		set_script(script_of(&nums(&c["samples"]), 16));
		let backend = make_portable_backend();
		let who = format!("grand product prover (width {}, truncated witness {truncate})", P::WIDTH);
		let r = guarded(|| {
			let mut witnesses = vec![];
			for k in arr(&c["claims"]) {
				let mut t = table(k);
				let prod: B128 = t.iter().copied().product();
				if truncate {
					t.truncate(us(&k["len"]).div_ceil(P::WIDTH) * P::WIDTH);
				}
				let w = GrandProductWitness::<P>::new(us(&k["n"]), pack_table(&t)).map_err(|e| e.to_string())?;
				if w.grand_product_evaluation() != prod {
					violation(format!("{who}: product of the witness is wrong"), c.clone());
				}
				witnesses.push(w);
			}
			let mut t = ProverTranscript::<Scripted>::new();
			let o = gkr_gpa::batch_prove::<B128, P, B8, _, _>(order(c), witnesses, &gp_claims(c), IsomorphicEvaluationDomainFactory::<B8>::default(), &mut t, &backend)
				.map_err(|e| e.to_string())?;
			Ok::<_, String>((o.final_layer_claims.into_iter().map(|l| (l.eval_point, l.eval)).collect::<Finals>(), t.finalize()))
		});
		if st(&c["dev"]["k"]) == "product" {
			if let Ok(Ok(_)) = r {
				violation(format!("{who} proves a false product"), c.clone());
			}
			continue;
		}
		match r {
			Ok(Ok((f, bytes))) if c["msgs"].is_null() => {
				set_script(script_of(&nums(&c["samples"]), 16));
				let v = guarded(|| {
					let mut t = VerifierTranscript::<Scripted>::new(bytes);
					let o = gkr_gpa::batch_verify(order(c), gp_claims(c), &mut t).map_err(|e| e.to_string())?;
					t.finalize().map_err(|e| e.to_string())?;
					Ok::<Finals, String>(o.into_iter().map(|l| (l.eval_point, l.eval)).collect())
				});
				if v != Ok(Ok(f.clone())) {
					violation(format!("{who}, long columns: not accepted with the same claims: {v:?}"), brief(c));
				} else if f.iter().zip(arr(&c["claims"])).any(|((p, e), k)| eval_at(&table(k), p) != *e) {
					violation(format!("{who}, long columns: a final claim is false"), brief(c));
				}
			}
			Ok(Ok((f, bytes))) => {
				if bytes != script_of(&nums(&c["msgs"]), 16) {
					violation(format!("{who}: messages are not those of the specification"), c.clone());
				} else if f != want(c) {
					violation(format!("{who}: final claims are not those of the specification"), c.clone());
				}
			}
			r => violation(format!("{who} fails on a true claim: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
		}
	}
}

fn circuits<'a, Hal: ComputeLayer<B128>>(
	c: &Value,
	hal: &Hal,
	host_alloc: &HostBumpAllocator<'a, B128>,
	dev_alloc: &BumpAllocator<'a, B128, Hal::DevMem>,
	who: &str,
) {
	for k in arr(&c["claims"]) {
		let t = table(k);
		let r = guarded(|| {
			let mut d = dev_alloc.alloc(t.len()).map_err(|e| e.to_string())?;
			hal.copy_h2d(&t, &mut d).map_err(|e| e.to_string())?;
			let l = ProductCircuitLayers::<B128, Hal::DevMem>::compute(Hal::DevMem::to_const(d), hal, dev_alloc, host_alloc).map_err(|e| e.to_string())?;
			let mut layers = vec![vec![l.product()]];
			for x in l.layers() {
				let mut h = vec![B128::ZERO; binius_compute::SizedSlice::len(x)];
				hal.copy_d2h(*x, &mut h).map_err(|e| e.to_string())?;
				layers.push(h);
			}
			Ok::<_, String>(layers)
		});
		let want: Vec<Vec<B128>> = arr(&k["layers"]).iter().map(|l| arr(l).iter().map(b128).collect()).collect();
		match r {
			Ok(Ok(l)) if l == want => {}
			r => violation(format!("product circuit on {who} differs from the specification: {r:?}"), k.clone()),
		}
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	for c in &cases {
		if a[0] == "scale" {
			let (extra, mut g) = (us(&c["extra"]), c.clone());
			let mut r = Rng(seed() * 77 + 2 * extra as u64 + 1);
			for k in g["claims"].as_array_mut().unwrap() {
				let (n, whole) = (us(&k["n"]) + extra, us(&k["len"]) == 1 << us(&k["n"]));
				let len = if whole { 1 << n } else { ((us(&k["len"]) << extra) - r.next() as usize % (1 << extra)).max(1) };
				let t: Vec<B128> = (0..1 << n).map(|x| if x < len { B128::new(r.next() as u128 % 65535 + 1) } else { B128::ONE }).collect();
				k["n"] = json!(n);
				k["len"] = json!(len);
				k["product"] = val(t.iter().copied().product());
				k["table"] = json!(t.iter().map(|&x| val(x)).collect::<Vec<_>>());
			}
			g["samples"] = json!((0..400).map(|_| r.next() % 65536).collect::<Vec<_>>());
			g["msgs"] = Value::Null;
			prove::<PackedBinaryField1x128b>(&g);
			prove::<PackedBinaryField4x128b>(&g);
			continue;
		}
		replay(c);
	}
	summary(json!({"cases": cases.len()}));
}
