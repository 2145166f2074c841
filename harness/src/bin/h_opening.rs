//! Replays Opening.tla (openings of committed columns, honest and deviating, against the real
//! ring-switching and sum-of-products verifiers) and RingSwitch.tla (the tensor algebra).
use std::sync::Arc;

use binius_compute::{ComputeHolder, ComputeLayer, ComputeMemory, alloc::ComputeAllocator, cpu::layer::CpuLayerHolder};
use binius_core::{
	fiat_shamir::{Challenger, HasherChallenger},
	merkle_tree::{BinaryMerkleTreeProver},
	oracle::{MultilinearOracleSet, OracleId},
	piop::{self, CommitMeta, PIOPSumcheckClaim},
	polynomial::MultivariatePoly,
	protocols::evalcheck::{EvalcheckMultilinearClaim, subclaims::MemoizedData},
	protocols::fri::CommitOutput,
	ring_switch::{self, EvalClaimSystem},
	tensor_algebra::TensorAlgebra,
	transcript::{ProverTranscript, VerifierTranscript},
	transparent::MultilinearExtensionTransparent,
	witness::MultilinearExtensionIndex,
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	BinaryField1b, ExtensionField, Field, PackedExtension, PackedField, PackedFieldIndexable,
	arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b},
	as_packed_field::{PackScalar, PackedType},
	packed::set_packed_slice,
	tower::CanonicalTowerFamily,
	underlier::UnderlierType,
};
use binius_hash::groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel};
use binius_math::{MLEDirectAdapter, MLEEmbeddingAdapter, MultilinearExtension, MultilinearPoly, MultilinearQuery, PackedTop, TowerUnderlier};
use binius_ntt::SingleThreadedNTT;
use vharness::*;

type MProver = BinaryMerkleTreeProver<B128, Groestl256Parallel, Groestl256ByteCompression>;
type Hashing = HasherChallenger<Groestl256>;
const SECURITY: usize = 24;

/// limbs of 16 bits
fn wide(v: &Value) -> u128 {
	arr(v).iter().enumerate().map(|(j, x)| (u(x) as u128) << (16 * j)).sum()
}

fn witness<U, FS>(n: usize, t: &[u128], conv: impl Fn(u128) -> FS) -> Arc<dyn MultilinearPoly<PackedType<U, B128>> + Send + Sync>
where
	U: UnderlierType + PackScalar<FS> + PackScalar<B128>,
	FS: Field,
	B128: ExtensionField<FS>,
{
	let mut data = vec![PackedType::<U, FS>::default(); t.len().div_ceil(PackedType::<U, FS>::WIDTH)];
	for (i, &x) in t.iter().enumerate() {
		set_packed_slice(&mut data, i, conv(x));
	}
	MLEEmbeddingAdapter::from(MultilinearExtension::new(n, data).unwrap()).upcast_arc_dyn()
}

type Wit<'a, U> = MultilinearExtensionIndex<'a, PackedType<U, B128>>;
fn witnesses<U: TowerUnderlier + PackScalar<B128>>(c: &Value, ids: &[OracleId], alter: Option<usize>) -> Wit<'static, U> {
	let mut w = Wit::<U>::new();
	for (i, (col, t)) in arr(&c["cols"]).iter().zip(arr(&c["tables"])).enumerate() {
		let mut t: Vec<u128> = arr(t).iter().map(wide).collect();
		if alter == Some(i) {
			let x = t.len() / 2;
			t[x] ^= 1;
		}
		let n = us(&col["n"]);
		let m = match us(&col["l"]) {
			0 => witness::<U, BinaryField1b>(n, &t, |x| BinaryField1b::from(x as u8 & 1)),
			3 => witness::<U, B8>(n, &t, |x| B8::new(x as u8)),
			4 => witness::<U, B16>(n, &t, |x| B16::new(x as u16)),
			5 => witness::<U, B32>(n, &t, |x| B32::new(x as u32)),
			6 => witness::<U, B64>(n, &t, |x| B64::new(x as u64)),
			_ => witness::<U, B128>(n, &t, B128::new),
		};
		w.update_multilin_poly([(ids[i], m)]).unwrap();
	}
	w
}

fn eval_claims(c: &Value, ids: &[OracleId], f: impl Fn(usize, &mut EvalcheckMultilinearClaim<B128>)) -> Vec<EvalcheckMultilinearClaim<B128>> {
	arr(&c["claims"])
		.iter()
		.enumerate()
		.map(|(k, q)| {
			let pt: Vec<B128> = arr(&q["pt"]).iter().map(b128).collect();
			let mut cl = EvalcheckMultilinearClaim { id: ids[us(&q["c"]) - 1], eval_point: pt.into(), eval: B128::new(wide(&q["ev"])) };
			f(k + 1, &mut cl);
			cl
		})
		.collect()
}

fn tamper(c: &Value, mut proof: Vec<u8>) -> Vec<u8> {
	match st(&c["dev"]["k"]) {
		"flip" => {
			let i = proof.len() * us(&c["dev"]["a"]) / 7;
			proof[i] ^= 1;
		}
		"trunc" => {
			proof.pop();
		}
		_ => {}
	}
	proof
}

/// The opening protocol: the proof is made for true claims on what the prover works with, and judged for the claims of the case.
fn open<U, Ch, Hal, H>(c: &Value, mut holder: H, who: &str)
where
	U: TowerUnderlier + PackScalar<B128>,
	PackedType<U, B128>: PackedFieldIndexable + PackedTop + PackedExtension<B128, PackedSubfield = PackedType<U, B128>>,
	Ch: Challenger + Default + Clone,
	Hal: ComputeLayer<B128>,
	H: ComputeHolder<B128, Hal>,
{
	let dev = st(&c["dev"]["k"]);
	let (a, b) = (us(&c["dev"]["a"]), us(&c["dev"]["b"]));
	let data = holder.to_data();
	let mut oracles = MultilinearOracleSet::<B128>::new();
	let ids: Vec<OracleId> = arr(&c["cols"]).iter().map(|q| oracles.add_committed(us(&q["n"]), us(&q["l"]))).collect();
	if piop::make_oracle_commit_meta(&oracles).unwrap().0.total_vars() < PackedType::<U, B128>::LOG_WIDTH {
		return; // fewer elements than one packed element: not implemented by the prover
	}
	let mp = MProver::new(Groestl256ByteCompression);
	let delta = B128::new(29);
	let want = st(&c["verdict"]) == "accept";
	let r = guarded(|| {
		let (meta, index) = piop::make_oracle_commit_meta(&oracles).map_err(|e| e.to_string())?;
		let params = piop::make_commit_params_with_optimal_arity::<_, B32, _>(&meta, mp.scheme(), SECURITY, us(&c["rate"])).map_err(|e| e.to_string())?;
		let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).unwrap();
		let w_com = witnesses::<U>(c, &ids, matches!(dev, "data" | "switch").then(|| a - 1));
		let w = witnesses::<U>(c, &ids, (dev == "data").then(|| a - 1));
		let m_com = piop::collect_committed_witnesses::<U, _>(&meta, &index, &oracles, &w_com).map_err(|e| e.to_string())?;
		let m = piop::collect_committed_witnesses::<U, _>(&meta, &index, &oracles, &w).map_err(|e| e.to_string())?;
		let CommitOutput { commitment, committed, codeword } = piop::commit(&params, &ntt, &mp, &m_com).map_err(|e| e.to_string())?;
		let honest = eval_claims(c, &ids, |_, _| {});
		let system = EvalClaimSystem::new(&oracles, &meta, &index, &honest).map_err(|e| e.to_string())?;
		let mut t = ProverTranscript::<Ch>::new();
		t.message().write(&commitment);
		let red = ring_switch::prove(&system, &m, &mut t, MemoizedData::new(), data.hal, &data.dev_alloc, &data.host_alloc).map_err(|e| e.to_string())?;
		piop::prove(&data, &params, &ntt, &mp, &meta, committed, &codeword, &m, red.transparents, &red.sumcheck_claims, &mut t).map_err(|e| e.to_string())?;
		let mut proof = tamper(c, t.finalize());
		// the claims the verifier is asked about
		let claims = eval_claims(c, &ids, |k, cl| {
			let hit = k == a || (dev == "pair" && k == b);
			match dev {
				"eval" | "tensor" | "row" | "pair" if hit => cl.eval += delta,
				"point" if hit => {
					let mut p = cl.eval_point.to_vec();
					let i = p.len() - 1;
					p[i] += B128::new(77);
					cl.eval_point = p.into();
				}
				"swap" if k == a => cl.eval = honest[b - 1].eval,
				"swap" if k == b => cl.eval = honest[a - 1].eval,
				_ => {}
			}
		});
		let system = EvalClaimSystem::new(&oracles, &meta, &index, &claims).map_err(|e| e.to_string())?;
		if matches!(dev, "tensor" | "row") {
			adapt(&system, &claims[a - 1], dev == "row", delta, &mut proof);
		}
		Ok::<_, String>((params, claims, proof, meta, index))
	});
	let (params, claims, proof, meta, index) = match r {
		Ok(Ok(x)) => x,
		r => {
			if want {
				violation(format!("{who}: the prover fails on true claims: {:?}", r.map(|x| x.map(|_| ()))), c.clone());
			}
			return;
		}
	};
	let v = guarded(|| {
		let system = EvalClaimSystem::new(&oracles, &meta, &index, &claims).map_err(|e| e.to_string())?;
		let mut t = VerifierTranscript::<Ch>::new(proof);
		let commitment = t.message().read().map_err(|e| e.to_string())?;
		let red = ring_switch::verify(&system, &mut t).map_err(|e| e.to_string())?;
		piop::verify(&meta, mp.scheme(), &params, &commitment, &red.transparents, &red.sumcheck_claims, &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())
	});
	judge(who, c, want, v);
}

fn judge(who: &str, c: &Value, want: bool, v: Result<Result<(), String>, String>) {
	if matches!(v, Ok(Ok(()))) != want {
		violation(format!("{who}: deviation {}: verifier says {v:?}, the specification {}", c["dev"], c["verdict"]), c.clone());
	}
}

/// Changes the prover's partial evaluations (and, with `rows`, its row-batched sums) so that they agree with a false claim.
fn adapt(system: &EvalClaimSystem<B128>, claim: &EvalcheckMultilinearClaim<B128>, rows: bool, delta: B128, proof: &mut [u8]) {
	let k = system.sumcheck_claim_descs.iter().position(|d| d.eval_claim == claim).unwrap();
	let n = system.sumcheck_claim_descs.len();
	let log = n.next_power_of_two().trailing_zeros() as usize;
	let script = SCRIPT_ELEMS.with(|s| s.borrow().clone());
	let mix = MultilinearQuery::<B128>::expand(&script[..log]).into_expansion();
	let row = MultilinearQuery::<B128>::expand(&script[log..log + system.max_claim_kappa()]).into_expansion();
	let p = system.eval_claim_to_prefix_desc_index[k];
	let mut off = 32 + 16 * system.prefix_descs[..p].iter().map(|d| 1usize << d.kappa()).sum::<usize>();
	let kappa = system.prefix_descs[p].kappa();
	let eq = MultilinearQuery::<B128>::expand(&system.prefix_descs[p].prefix).into_expansion();
	let i = eq.iter().position(|x| !x.is_zero()).unwrap();
	let d = mix[k] * delta * eq[i].invert().unwrap();
	let add = |proof: &mut [u8], at: usize, d: B128| {
		let mut x = u128::from_le_bytes(proof[at..at + 16].try_into().unwrap());
		x ^= d.val();
		proof[at..at + 16].copy_from_slice(&x.to_le_bytes());
	};
	add(proof, off + 16 * i, d);
	if rows {
		let mut e = vec![B128::ZERO; 1 << kappa];
		e[i] = d;
		let change = match kappa {
			7 => TensorAlgebra::<BinaryField1b, B128>::new(e).fold_vertical(&row),
			4 => TensorAlgebra::<B8, B128>::new(e).fold_vertical(&row),
			3 => TensorAlgebra::<B16, B128>::new(e).fold_vertical(&row),
			2 => TensorAlgebra::<B32, B128>::new(e).fold_vertical(&row),
			1 => TensorAlgebra::<B64, B128>::new(e).fold_vertical(&row),
			_ => TensorAlgebra::<B128, B128>::new(e).fold_vertical(&row),
		};
		off = 32 + 16 * system.prefix_descs.iter().map(|d| 1usize << d.kappa()).sum::<usize>();
		add(proof, off + 16 * k, change);
	}
}

thread_local! { static SCRIPT_ELEMS: std::cell::RefCell<Vec<B128>> = const { std::cell::RefCell::new(vec![]) } }
fn script() {
	let mut x = 0x9e3779b97f4a7c15f39cc0605cedc835u128;
	let e: Vec<u128> = (0..400)
		.map(|_| {
			x = x.wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645).wrapping_add(0x5851F42D4C957F2D14057B7EF767814F);
			x ^ (x >> 57)
		})
		.collect();
	SCRIPT_ELEMS.with(|s| *s.borrow_mut() = e.iter().map(|&v| B128::new(v)).collect());
	set_script(e.iter().flat_map(|v| v.to_le_bytes()).collect());
}

/// Sums of products of committed and transparent polynomials.
fn sums<P, Hal, H>(c: &Value, mut holder: H, who: &str)
where
	P: PackedFieldIndexable<Scalar = B128> + PackedExtension<B32> + PackedExtension<B128, PackedSubfield = P> + 'static,
	Hal: ComputeLayer<B128>,
	H: ComputeHolder<B128, Hal>,
{
	let dev = st(&c["dev"]["k"]);
	let a = us(&c["dev"]["a"]);
	let data = holder.to_data();
	let mp = MProver::new(Groestl256ByteCompression);
	let tab = |t: &Value, alter: bool| -> Vec<B128> {
		let mut t: Vec<B128> = arr(t).iter().map(b128).collect();
		if alter {
			let x = t.len() / 2;
			t[x] += B128::new(5);
		}
		t
	};
	let meta = CommitMeta::with_vars(arr(&c["cols"]).iter().map(|q| us(&q["n"])));
	if meta.total_vars() < P::LOG_WIDTH {
		return;
	}
	let cols = |alter: Option<usize>| -> Vec<Vec<B128>> { arr(&c["tables"]).iter().enumerate().map(|(i, t)| tab(t, alter == Some(i))).collect() };
	let trans = |alter: Option<usize>| -> Vec<Vec<B128>> { arr(&c["trans"]).iter().enumerate().map(|(i, t)| tab(t, alter == Some(i))).collect() };
	let mles = |t: &[Vec<B128>]| -> Vec<MLEDirectAdapter<P>> {
		t.iter().map(|t| MLEDirectAdapter::from(MultilinearExtension::new(t.len().trailing_zeros() as usize, vharness::sums::pack_table::<P>(t)).unwrap())).collect()
	};
	let claims = |ct: Option<(&[Vec<B128>], &[Vec<B128>])>| -> Vec<PIOPSumcheckClaim<B128>> {
		arr(&c["claims"])
			.iter()
			.map(|q| {
				let (ci, ti) = (us(&q["c"]) - 1, us(&q["t"]) - 1);
				let sum = match ct {
					Some((cs, ts)) => cs[ci].iter().zip(&ts[ti]).map(|(&x, &y)| x * y).sum(),
					None => b128(&q["sum"]),
				};
				PIOPSumcheckClaim { n_vars: us(&arr(&c["cols"])[ci]["n"]), committed: ci, transparent: ti, sum }
			})
			.collect()
	};
	let want = st(&c["verdict"]) == "accept";
	let of = |k: &str| (dev == k).then(|| a - 1);
	let params = match guarded(|| piop::make_commit_params_with_optimal_arity::<_, B32, _>(&meta, mp.scheme(), SECURITY, us(&c["rate"]))) {
		Ok(Ok(p)) => p,
		r => return violation(format!("{who}: no commit parameters: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
	};
	let r = guarded(|| {
		let ntt = SingleThreadedNTT::with_subspace(params.rs_code().subspace()).unwrap();
		let com = cols(if dev == "data" { of("data") } else { of("switch") });
		let used = cols(of("data"));
		// "trans": the prover proves the sums of another transparent polynomial; "ptrans": it only uses another one
		let tr = trans(if dev == "trans" { of("trans") } else { of("ptrans") });
		let CommitOutput { commitment, committed, codeword } = piop::commit(&params, &ntt, &mp, &mles(&com)).map_err(|e| e.to_string())?;
		let devs: Vec<_> = tr
			.iter()
			.map(|t| {
				let mut buf = data.dev_alloc.alloc(t.len()).unwrap();
				data.hal.copy_h2d(t, &mut buf).unwrap();
				Hal::DevMem::to_const(buf)
			})
			.collect();
		let mut t = ProverTranscript::<Hashing>::new();
		t.message().write(&commitment);
		let cl = claims((dev == "data" || dev == "trans").then_some((&used, &tr)));
		piop::prove(&data, &params, &ntt, &mp, &meta, committed, &codeword, &mles(&used), devs, &cl, &mut t).map_err(|e| e.to_string())?;
		Ok::<_, String>(tamper(c, t.finalize()))
	});
	let proof = match r {
		Ok(Ok(p)) => p,
		r => {
			if want {
				violation(format!("{who}: the prover fails on true sums: {:?}", r.map(|x| x.map(|_| ()))), c.clone());
			}
			return;
		}
	};
	let v = guarded(|| {
		let polys: Vec<_> = trans(None)
			.iter()
			.map(|t| MultilinearExtensionTransparent::<P, P>::from_values_and_mu(vharness::sums::pack_table::<P>(t), t.len().trailing_zeros() as usize).unwrap())
			.collect();
		let polys: Vec<_> = polys.iter().map(|p| p as &dyn MultivariatePoly<B128>).collect();
		let mut cl = claims(None);
		if dev == "sum" {
			cl[a - 1].sum += B128::new(29);
		}
		if dev == "trans" {
			// the sums of the transparent the prover used, claimed of the verifier's
			cl = claims(Some((&cols(None), &trans(of("trans")))));
		}
		let mut t = VerifierTranscript::<Hashing>::new(proof);
		let commitment = t.message().read().map_err(|e| e.to_string())?;
		piop::verify(&meta, mp.scheme(), &params, &commitment, &polys, &cl, &mut t).map_err(|e| e.to_string())?;
		t.finalize().map_err(|e| e.to_string())
	});
	judge(who, c, want, v);
}

fn tensor<F>(c: &Value)
where
	F: Field,
	B16: ExtensionField<F> + PackedExtension<F>,
{
	let t = |k: &str| TensorAlgebra::<F, B16>::new(arr(&c[k]).iter().map(b16).collect());
	let got = |t: TensorAlgebra<F, B16>| Value::from(t.vertical_elems().iter().map(|x| x.val() as u64).collect::<Vec<_>>());
	let (s, m) = (b16(&c["s"]), b16(&c["m"]));
	let coeffs: Vec<B16> = arr(&c["coeffs"]).iter().map(b16).collect();
	let eq = |what: &str, got: Value, want: &Value| {
		if &got != want {
			violation(format!("tensor algebra over level {}: {what} gives {got}, not {want}", c["l"]), c.clone());
		}
	};
	eq("transpose", got(t("a").transpose()), &c["transpose"]);
	eq("fold_vertical", Value::from(t("a").fold_vertical(&coeffs).val() as u64), &c["fold"]);
	eq("add", got(t("a") + &t("b")), &c["add"]);
	eq("scale_vertical", got(t("a").scale_vertical(s)), &c["scale"]);
	eq("scale_horizontal", got(t("a").scale_horizontal(s)), &c["hscale"]);
	eq("tensor", got(TensorAlgebra::<F, B16>::tensor(m, s)), &c["tensor"]);
	eq("from_vertical", Value::from(TensorAlgebra::<F, B16>::from_vertical(m).try_extract_vertical().map(|x| x.val() as u64)), &c["m"]);
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	let (h, d) = (1 << 14, 1 << 18);
	for c in &cases {
		if a[0] == "tensor" {
			match us(&c["l"]) {
				0 => tensor::<BinaryField1b>(c),
				3 => tensor::<B8>(c),
				_ => tensor::<B16>(c),
			}
			continue;
		}
		let dev = st(&c["dev"]["k"]);
		type U1 = OptimalUnderlier128b;
		type U2 = OptimalUnderlier256b;
		type U4 = OptimalUnderlier512b;
		type P1 = PackedType<U1, B128>;
		type P2 = PackedType<U2, B128>;
		type P4 = PackedType<U4, B128>;
		if st(&c["mode"]) == "open" {
			script();
			if matches!(dev, "tensor" | "row") {
				open::<U1, Scripted, _, _>(c, CpuLayerHolder::<B128>::new(h, d), "opening (cpu, fixed challenges)");
				continue;
			}
			open::<U1, Hashing, _, _>(c, CpuLayerHolder::<B128>::new(h, d), "opening (cpu)");
			open::<U1, Scripted, _, _>(c, CpuLayerHolder::<B128>::new(h, d), "opening (cpu, fixed challenges)");
			if dev == "none" || dev == "eval" {
				open::<U2, Hashing, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P2>::new(h, d), "opening (fast cpu, width 2)");
				open::<U4, Hashing, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P4>::new(h, d), "opening (fast cpu, width 4)");
				open::<U1, Hashing, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P1>::new(h, d), "opening (fast cpu, width 1)");
			}
		} else {
			sums::<P1, _, _>(c, CpuLayerHolder::<B128>::new(h, d), "sums of products (cpu)");
			if dev == "none" || dev == "sum" {
				sums::<P2, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P2>::new(h, d), "sums of products (fast cpu, width 2)");
				sums::<P4, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P4>::new(h, d), "sums of products (fast cpu, width 4)");
				sums::<P1, _, _>(c, FastCpuLayerHolder::<CanonicalTowerFamily, P1>::new(h, d), "sums of products (fast cpu, width 1)");
			}
		}
	}
	summary(json!({"cases": cases.len()}));
}
