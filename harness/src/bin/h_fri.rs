//! Replays Fri.tla: the specification's prover (honest or deviating) is played against the real
//! FRI verifier, and the real FRI prover is compared with the specification's honest one.
use binius_compute::{ComputeData, ComputeHolder, cpu::layer::CpuLayerHolder, layer::ComputeLayer};
use binius_core::{
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	protocols::fri::{self, CommitOutput, FRIFolder, FRIParams, FRIVerifier, FoldRoundOutput},
	reed_solomon::reed_solomon::ReedSolomonCode,
	transcript::{ProverTranscript, VerifierTranscript},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField, Field, PackedBinaryField1x128b, PackedBinaryField2x128b, PackedBinaryField4x128b, PackedExtension,
	PackedField, tower::CanonicalTowerFamily,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel};
use binius_ntt::SingleThreadedNTT;
use digest::{Digest, Output};
use vharness::*;

type D = Output<Groestl256>;
type MProver = BinaryMerkleTreeProver<B128, Groestl256Parallel, Groestl256ByteCompression>;
type Params = FRIParams<B128, B16>;

struct Case<'a> {
	c: &'a Value,
	dim: usize,
	rate: usize,
	batch: usize,
	arities: Vec<usize>,
	chal: Vec<B128>,
	queries: Vec<usize>,
	oracles: Vec<Vec<B128>>,
}

fn params(k: &Case) -> Params {
	let code = ReedSolomonCode::<B16>::new(k.dim, k.rate).unwrap();
	FRIParams::new(code, k.batch, k.arities.clone(), k.queries.len()).unwrap()
}

fn query_script(k: &Case) -> Vec<u8> {
	// high bits are noise: sample_bits must ignore them
	k.queries
		.iter()
		.flat_map(|&q| {
			let p = params(k);
			let bits = p.index_bits() as u32;
			let noise = if bits >= 32 { 0 } else { 0xa5a5_5a5au32 & !((1u32 << bits) - 1) };
			((q as u32) | noise).to_le_bytes()
		})
		.collect()
}

fn replay(k: &Case) {
	let p = params(k);
	let mp = MProver::new(Groestl256ByteCompression);
	let scheme = mp.scheme();
	let dev = st(&k.c["dev"]["k"]);
	let dev_o = us(&k.c["dev"]["o"]);
	let n_arities = k.arities.len();
	let n_final = p.n_final_challenges();
	let coms: Vec<_> = (0..=n_arities)
		.map(|i| {
			let log = if i < n_arities { k.arities[i] } else { n_final };
			mp.commit(&k.oracles[i], 1 << log).unwrap()
		})
		.collect();
	let root = coms[0].0.root;
	let rounds: Vec<D> = coms[1..].iter().map(|c| c.0.root).collect();

	let mut t = ProverTranscript::<Scripted>::new();
	{
		let mut adv = t.decommitment();
		let term: Vec<B128> = arr(&k.c["terminal"]).iter().map(b128).collect();
		adv.write_scalar_slice(&term);
		let mut log_cosets = p.log_len();
		let mut depths = vec![];
		for i in 0..n_arities {
			log_cosets -= k.arities[i];
			let d = scheme.optimal_verify_layer(k.queries.len(), log_cosets);
			depths.push(d);
			let mut layer = mp.layer(&coms[i].1, d).unwrap().to_vec();
			if dev == "layer" && dev_o == i {
				let x = layer.len() - 1;
				layer[x] = Groestl256::digest(b"other");
			}
			adv.write_slice(&layer);
		}
		for a in arr(&k.c["answers"]) {
			for (i, op) in arr(a).iter().enumerate() {
				let vals: Vec<B128> = arr(&op["vals"]).iter().map(b128).collect();
				adv.write_scalar_slice(&vals);
				mp.prove_opening(&coms[i].1, depths[i], us(&op["idx"]), &mut adv).unwrap();
			}
		}
	}
	let mut proof = t.finalize();
	if dev == "truncate" {
		proof.pop();
	}
	set_script(query_script(k));
	let mut v = VerifierTranscript::<Scripted>::new(proof);
	let got = guarded(|| {
		FRIVerifier::new(&p, scheme, &root, &rounds, &k.chal)
			.map_err(|e| e.to_string())?
			.verify(&mut v)
			.map_err(|e| e.to_string())
	});
	let accepted = matches!(got, Ok(Ok(_)));
	let want = st(&k.c["verdict"]) == "accept";
	if accepted != want {
		violation(
			format!("FRI verifier {} but the specification {}s (deviation {dev})",
				match &got { Ok(Ok(_)) => "accepts".into(), Ok(Err(e)) => format!("rejects ({e})"), Err(e) => e.clone() },
				st(&k.c["verdict"])),
			k.c.clone(),
		);
	} else if let Ok(Ok(x)) = got {
		if x != b128(&k.c["final"]) {
			violation("FRI final value is not the specification's", json!({"case": k.c, "got": val(x)}));
		}
		if let Err(e) = v.finalize() {
			violation(format!("FRI verifier left bytes unread: {e}"), k.c.clone());
		}
	}
	if dev == "none" {
		honest(k, &p, &mp, root, &rounds);
	}
}

fn honest(k: &Case, p: &Params, mp: &MProver, root: D, rounds: &[D]) {
	let dev_mem = 1 << (p.log_len() + 2);
	{
		let mut h = CpuLayerHolder::<B128>::new(1 << 8, dev_mem);
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		honest_p::<PackedBinaryField1x128b, _, _>(k, p, mp, root, rounds, hal, &dev_alloc, "CpuLayer width 1");
	}
	if k.dim + k.batch >= 1 {
		let mut h = FastCpuLayerHolder::<CanonicalTowerFamily, PackedBinaryField2x128b>::new(1 << 8, dev_mem.max(64));
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		honest_p::<PackedBinaryField2x128b, _, _>(k, p, mp, root, rounds, hal, &dev_alloc, "FastCpuLayer width 2");
	}
	if k.dim + k.batch >= 2 {
		let mut h = CpuLayerHolder::<B128>::new(1 << 8, dev_mem);
		let ComputeData { hal, dev_alloc, .. } = h.to_data();
		honest_p::<PackedBinaryField4x128b, _, _>(k, p, mp, root, rounds, hal, &dev_alloc, "CpuLayer width 4");
	}
}

fn honest_p<P, Hal, A>(k: &Case, p: &Params, mp: &MProver, root: D, rounds: &[D], hal: &Hal, alloc: &A, who: &str)
where
	P: PackedField<Scalar = B128> + PackedExtension<B16>,
	Hal: ComputeLayer<B128>,
	A: binius_compute::alloc::ComputeAllocator<B128, Hal::DevMem>,
{
	let fail = |what: &str| violation(format!("honest FRI prover ({who}): {what}"), k.c.clone());
	let r = guarded(|| -> Result<(), String> {
		let e = |x: fri::Error| x.to_string();
		let ntt = SingleThreadedNTT::<B16>::new(p.rs_code().log_len()).map_err(|e| e.to_string())?;
		let code = ReedSolomonCode::<B16>::new(k.dim, k.rate).map_err(|e| e.to_string())?;
		let msg: Vec<B128> = arr(&k.c["msg"]).iter().map(b128).collect();
		let packed: Vec<P> = msg.chunks(P::WIDTH).map(|c| P::from_scalars(c.iter().copied())).collect();
		let CommitOutput { commitment, committed, codeword } =
			fri::commit_interleaved(&code, p, &ntt, mp, &packed).map_err(e)?;
		let cw: Vec<B128> = PackedField::iter_slice(&codeword).collect();
		if cw != k.oracles[0] {
			fail("codeword is not the specification's encoding of the message");
			return Ok(());
		}
		if commitment != root {
			fail("commitment is not the root over the cosets");
			return Ok(());
		}
		let mut folder = FRIFolder::new(hal, p, &ntt, mp, &codeword, &committed).map_err(e)?;
		let mut got = vec![];
		for &c in &k.chal {
			match folder.execute_fold_round(alloc, c).map_err(e)? {
				FoldRoundOutput::NoCommitment => {}
				FoldRoundOutput::Commitment(d) => got.push(d),
			}
		}
		if got != rounds {
			fail("round commitments are not those of the specification's oracles");
		}
		set_script(query_script(k));
		let mut t = ProverTranscript::<Scripted>::new();
		folder.finish_proof(&mut t).map_err(e)?;
		let mut v = t.into_verifier();
		let x = FRIVerifier::new(p, mp.scheme(), &commitment, &got, &k.chal).map_err(e)?.verify(&mut v).map_err(e)?;
		if x != b128(&k.c["final"]) {
			fail("final value is not the multilinear evaluation of the message");
		}
		if v.finalize().is_err() {
			fail("proof has unread bytes");
		}
		Ok(())
	});
	match r {
		Err(e) => fail(&e),
		Ok(Err(e)) => fail(&e),
		_ => {}
	}
}

/// Parameter selection: every choice satisfies the stated security level and the shape rules.
fn choose() -> usize {
	let mut n = 0;
	for rate in 1..=4usize {
		for msg in 1..=20usize {
			for arity in 1..=5usize {
				for sec in [10usize, 32, 64, 96] {
					let ntt = SingleThreadedNTT::<BinaryField32>::new(28.min(msg + rate)).unwrap();
					let r = guarded(|| {
						FRIParams::<B128, BinaryField32>::choose_with_constant_fold_arity(&ntt, msg, sec, rate, arity)
					});
					n += 1;
					let case = json!({"rate": rate, "msg": msg, "arity": arity, "sec": sec});
					match r {
						Ok(Ok(p)) => {
							let per = 0.5 * (1.0 + 2f64.powi(-(rate as i32)));
							let err = per.powi(p.n_test_queries() as i32);
							let other = (2.0 * p.rs_code().log_dim() as f64 + p.rs_code().len() as f64) / 2f64.powi(128);
							if err + other > 2f64.powi(-(sec as i32)) * (1.0 + 1e-9) {
								violation(format!("{} queries do not reach {sec} bits", p.n_test_queries()), case.clone());
							}
							let sum: usize = p.fold_arities().iter().sum();
							if p.rs_code().log_dim() + p.log_batch_size() != msg
								|| p.rs_code().log_inv_rate() != rate
								|| sum >= msg || p.fold_arities().iter().any(|&a| a != arity)
								|| (!p.fold_arities().is_empty() && p.fold_arities()[0] < p.log_batch_size())
							{
								violation("chosen FRI parameters do not fit the message", case);
							}
						}
						Ok(Err(_)) => {}
						Err(e) => violation(format!("parameter choice panics: {e}"), case),
					}
				}
			}
		}
	}
	n
}
type BinaryField32 = B32;

fn main() {
	init();
	let a = args();
	match a[0].as_str() {
		"replay" => {
			let cases = read_ndjson(&a[1]);
			let mut accepted = 0;
			for c in &cases {
				let par = &c["par"];
				let k = Case {
					c,
					dim: us(&par["dim"]),
					rate: us(&par["rate"]),
					batch: us(&par["batch"]),
					arities: nums(&par["arities"]).into_iter().map(|x| x as usize).collect(),
					chal: arr(&c["chal"]).iter().map(b128).collect(),
					queries: nums(&c["queries"]).into_iter().map(|x| x as usize).collect(),
					oracles: arr(&c["oracles"]).iter().map(|o| arr(o).iter().map(b128).collect()).collect(),
				};
				if st(&c["verdict"]) == "accept" {
					accepted += 1;
				}
				replay(&k);
			}
			summary(json!({"cases": cases.len(), "accepted": accepted}));
		}
		"choose" => {
			let n = choose();
			summary(json!({"parameter_choices": n}));
		}
		x => panic!("{x}"),
	}
	let _ = (B128::ONE, B128::N_BITS);
}
