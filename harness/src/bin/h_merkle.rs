//! Replays Merkle.tla in the real Merkle tree prover and scheme.
use binius_core::{
	merkle_tree::{BinaryMerkleTreeProver, MerkleTreeProver, MerkleTreeScheme},
	transcript::{ProverTranscript, VerifierTranscript},
	fiat_shamir::HasherChallenger,
};
use binius_field::{Field, TowerField};
use binius_hash::{PseudoCompressionFunction, groestl::{Groestl256, Groestl256ByteCompression, Groestl256Parallel}};
use binius_maybe_rayon::prelude::*;
use digest::{Digest, Output};
use vharness::*;

type D = Output<Groestl256>;
type Ch = HasherChallenger<Groestl256>;
type MProver<F> = BinaryMerkleTreeProver<F, Groestl256Parallel, Groestl256ByteCompression>;

trait Elem: TowerField {
	fn of(v: u64) -> Self;
	fn bytes(self) -> Vec<u8>;
}
macro_rules! elem { ($t:ty, $u:ty) => { impl Elem for $t {
	fn of(v: u64) -> Self { <$t>::new((v as $u).wrapping_mul(0x11).wrapping_add(1)) }
	fn bytes(self) -> Vec<u8> { self.val().to_le_bytes().to_vec() }
} } }
elem!(B8, u8);
elem!(B16, u16);
elem!(B32, u32);
elem!(B128, u128);

fn compress(l: D, r: D) -> D {
	Groestl256ByteCompression.compress([l, r])
}
/// The real digest of a symbolic term.
fn term<F: Elem>(t: &Value) -> D {
	match st(&t[0]) {
		"L" => leaf::<F>(&nums(&t[1])),
		"N" => compress(term::<F>(&t[1]), term::<F>(&t[2])),
		"J" => Groestl256::digest(format!("junk{}", u(&t[1]))),
		x => panic!("term {x}"),
	}
}
fn leaf<F: Elem>(v: &[u64]) -> D {
	let mut b = vec![];
	for &x in v {
		b.extend(F::of(x).bytes());
	}
	Groestl256::digest(&b)
}

fn run<F: Elem>(c: &Value) {
	let data: Vec<F> = nums(&c["data"]).into_iter().map(F::of).collect();
	let batch = us(&c["batch"]);
	let n = us(&c["n"]);
	let prover = MProver::<F>::new(Groestl256ByteCompression);
	let (com, tree) = prover.commit(&data, batch).unwrap();
	let (com2, _) = prover
		.commit_iterated(data.par_chunks(batch).map(|c| c.to_vec()), n)
		.unwrap();
	if com != com2 {
		violation("in-memory and streamed commitments differ", c.clone());
	}
	let scheme = prover.scheme();
	for (k, digests) in nums(&c["sizes"]).into_iter().enumerate() {
		let got = guarded(|| scheme.proof_size(1 << n, k + 1, us(&c["q"]["ld"])));
		if !matches!(got, Ok(Ok(x)) if x as u64 == 32 * digests) {
			violation(format!("proof size for {} openings is {got:?}, not {} bytes", k + 1, 32 * digests), c.clone());
		}
	}
	if matches!(guarded(|| scheme.proof_size(1 << n, 1, n + 1)), Ok(Ok(_))) || matches!(guarded(|| scheme.proof_size(3 << n, 1, 0)), Ok(Ok(_))) {
		violation("a proof size for a layer below the leaves, or a length that is no power of two", c.clone());
	}
	let q = &c["q"];
	let root_leaves: Vec<D> = nums(&c["data"]).chunks(batch).map(leaf::<F>).collect();
	let mut layers = vec![root_leaves];
	while layers.last().unwrap().len() > 1 {
		let l = layers.last().unwrap().chunks(2).map(|p| compress(p[0], p[1])).collect();
		layers.push(l);
	}
	if com.root != layers.last().unwrap()[0] || com.depth != n {
		violation("commitment is not the hash tree over the leaves", c.clone());
		return;
	}
	let honest = arr(&c["tampers"]).is_empty();
	let got = match st(&c["what"]) {
		"opening" => {
			let layer: Vec<D> = arr(&q["layer"]).iter().map(term::<F>).collect();
			let branch: Vec<D> = arr(&q["branch"]).iter().map(term::<F>).collect();
			let values: Vec<F> = nums(&q["values"]).into_iter().map(F::of).collect();
			let (index, ld, td) = (us(&q["index"]), us(&q["ld"]), us(&q["td"]));
			let mut t = ProverTranscript::<Ch>::new();
			t.decommitment().write_slice(&branch);
			let bytes = t.finalize();
			if honest {
				// the real prover's opening is the specification's
				let mut t = ProverTranscript::<Ch>::new();
				match prover.prove_opening(&tree, ld, index, &mut t.decommitment()) {
					Ok(()) => {
						if t.finalize() != bytes {
							violation("prover's opening differs from the specification", c.clone());
						}
					}
					Err(e) => violation(format!("prover cannot open: {e}"), c.clone()),
				}
				match prover.layer(&tree, ld) {
					Ok(l) if l == layer => {}
					_ => violation("prover's layer differs from the specification", c.clone()),
				}
			}
			let mut v = VerifierTranscript::<Ch>::new(bytes);
			scheme.verify_opening(index, &values, ld, td, &layer, &mut v.decommitment()).is_ok()
		}
		"layer" => {
			let layer: Vec<D> = arr(&q["layer"]).iter().map(term::<F>).collect();
			scheme.verify_layer(&term::<F>(&q["root"]), us(&q["ld"]), &layer).is_ok()
		}
		_ => {
			let values: Vec<F> = nums(&q["data"]).into_iter().map(F::of).collect();
			scheme.verify_vector(&term::<F>(&q["root"]), &values, us(&q["batch"])).is_ok()
		}
	};
	if got != (st(&c["verdict"]) == "accept") {
		violation(
			format!("merkle {} {}: code {}, specification {}", st(&c["what"]), c["tampers"], if got { "accepts" } else { "rejects" }, st(&c["verdict"])),
			c.clone(),
		);
	}
}

fn sweep<F: Elem + Field>(max: usize) -> usize {
	let mut cnt = 0;
	for n in 0..=max {
		for batch in [1usize, 2, 3, 4, 7, 16] {
			let data: Vec<F> = (0..(batch << n) as u64).map(|i| F::of(i * 2654435761 % 65521)).collect();
			let prover = MProver::<F>::new(Groestl256ByteCompression);
			let (com, tree) = prover.commit(&data, batch).unwrap();
			let (com2, _) = prover.commit_iterated(data.par_chunks(batch).map(|c| c.to_vec()), n).unwrap();
			let mut l: Vec<D> = data
				.chunks(batch)
				.map(|c| Groestl256::digest(c.iter().flat_map(|x| x.bytes()).collect::<Vec<u8>>()))
				.collect();
			while l.len() > 1 {
				l = l.chunks(2).map(|p| compress(p[0], p[1])).collect();
			}
			if com.root != l[0] || com2.root != l[0] {
				violation("commitment is not the hash tree over the leaves", json!({"n": n, "batch": batch}));
			}
			let scheme = prover.scheme();
			if scheme.verify_vector(&com.root, &data, batch).is_err() {
				violation("honest vector rejected", json!({"n": n, "batch": batch}));
			}
			for ld in 0..=n {
				let layer = prover.layer(&tree, ld).unwrap();
				if scheme.verify_layer(&com.root, ld, layer).is_err() {
					violation("honest layer rejected", json!({"n": n, "batch": batch, "ld": ld}));
				}
				let step = ((1usize << n) / 16).max(1);
				for i in (0..1usize << n).step_by(step).chain([(1usize << n) - 1]) {
					let mut t = ProverTranscript::<Ch>::new();
					prover.prove_opening(&tree, ld, i, &mut t.decommitment()).unwrap();
					let bytes = t.finalize();
					for j in [i, i ^ 1, (i + (1 << n) / 2) % (1 << n)] {
						let mut v = VerifierTranscript::<Ch>::new(bytes.clone());
						let ok = scheme
							.verify_opening(j, &data[i * batch..(i + 1) * batch], ld, n, layer, &mut v.decommitment())
							.is_ok();
						cnt += 1;
						// data is injective except for the small wrap of the 8-bit field
						let same = j == i || (n == 0 && j != i && false);
						if same && !ok {
							violation("honest opening rejected", json!({"n": n, "batch": batch, "ld": ld, "i": i}));
						}
						if j < (1 << n) && data[j * batch..(j + 1) * batch] != data[i * batch..(i + 1) * batch] && ok {
							violation("opening accepted at another index", json!({"n": n, "batch": batch, "ld": ld, "i": i, "j": j}));
						}
						if j >= (1 << n) && ok {
							violation("opening accepted out of range", json!({"n": n, "batch": batch, "ld": ld, "i": i, "j": j}));
						}
					}
				}
			}
		}
	}
	cnt
}

fn main() {
	init();
	let a = args();
	match a[0].as_str() {
		"replay" => {
			let cases = read_ndjson(&a[1]);
			cases.par_iter().enumerate().for_each(|(i, c)| {
				let r = guarded(|| match i % 3 {
					0 => run::<B8>(c),
					1 => run::<B32>(c),
					_ => run::<B128>(c),
				});
				if let Err(p) = r {
					// a panic is not an acceptance, but the commitment API must not panic on these
					if st(&c["verdict"]) == "accept" {
						violation(format!("merkle panicked: {p}"), c.clone());
					}
				}
			});
			summary(json!({"cases": cases.len(), "rejections": cases.iter().filter(|c| st(&c["verdict"]) == "reject").count()}));
		}
		_ => {
			let max = a[1].parse().unwrap();
			let n = sweep::<B16>(max) + sweep::<B128>(max.min(6));
			summary(json!({"openings": n}));
		}
	}
}
