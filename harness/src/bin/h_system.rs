//! Replays System.tla: the witness check, the prover and the verifier of whole constraint systems.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

use binius_core::{constraint_system::{ConstraintSystem, channel::Boundary}, fiat_shamir::HasherChallenger, oracle::OracleId};
use binius_field::arch::{OptimalUnderlier128b, OptimalUnderlier256b, OptimalUnderlier512b};
use binius_hash::groestl::Groestl256;
use vharness::{system::*, *};

type Ch = HasherChallenger<Groestl256>;
static ACC: AtomicUsize = AtomicUsize::new(0);
static REJ: AtomicUsize = AtomicUsize::new(0);

fn case(i: usize, c: &Value, prove: bool) {
	let (cs, ids) = match guarded(|| build(c)) {
		Ok(Ok(x)) => x,
		r => return violation(format!("the system cannot be built: {:?}", r.map(|x| x.map(|_| ()))), c.clone()),
	};
	let checks = [
		guarded(|| check::<OptimalUnderlier128b>(&cs, c, &ids)),
		guarded(|| check::<OptimalUnderlier256b>(&cs, c, &ids)),
	];
	for (k, r) in checks.iter().enumerate() {
		let acc = matches!(r, Ok(Ok(())));
		match st(&c["check"]) {
			"acc" if !acc => violation(format!("the witness check ({k}) rejects a valid witness: {r:?} (deviation {})", c["dev"]), c.clone()),
			"rej" if acc => violation(format!("the witness check ({k}) accepts an invalid witness (deviation {})", c["dev"]), c.clone()),
			_ => {}
		}
	}
	if !prove {
		return;
	}
	let b = boundaries(c);
	let z = sizes(c);
	// an honest witness is proved in every packing
	for i in if st(&c["dev"]["k"]) == "none" { 0..3 } else { i % 3..i % 3 + 1 } {
		proof(i, c, &cs, &ids, &b, &z);
	}
}

fn proof(i: usize, c: &Value, cs: &ConstraintSystem<B128>, ids: &[OracleId], b: &[Boundary<B128>], z: &[usize]) {
	let p = guarded(|| match i % 3 {
		0 => prove256::<Ch>(cs, b, z, witness::<OptimalUnderlier256b>(c, ids)),
		1 => prove512::<Ch>(cs, b, z, witness::<OptimalUnderlier512b>(c, ids)),
		_ => prove128::<Ch>(cs, b, z, witness::<OptimalUnderlier128b>(c, ids)),
	});
	let want = st(&c["proof"]);
	let v = match p {
		Ok(Ok(p)) => match guarded(|| verify::<Ch>(cs, b, p)) {
			Ok(Ok(())) => Ok(()),
			r => Err(format!("verifier: {r:?}")),
		},
		r => Err(format!("prover: {:?}", r.map(|x| x.map(|_| ())))),
	};
	if v.is_ok() { &ACC } else { &REJ }.fetch_add(1, SeqCst);
	match (want, v) {
		("acc", Err(e)) => violation(format!("no accepted proof from a valid witness: {e} (deviation {})", c["dev"]), c.clone()),
		("rej", Ok(())) => violation(format!("a proof made from an invalid witness verifies (deviation {})", c["dev"]), c.clone()),
		_ => {}
	}
}

/// Histories of one channel: the emulated channel and the witness check; those without width conflicts also in both directions of time.
fn channel(c: &Value) {
	use binius_core::constraint_system::channel;
	let b = boundaries(c);
	let (bal, mixed) = (c["balanced"].as_bool().unwrap(), c["mixed"].as_bool().unwrap());
	if arr(&c["bounds"]).iter().all(|x| u(&x["mult"]) < 900_000) {
		let mut e = binius_m3::emulate::Channel::<Vec<u64>>::default();
		for x in arr(&c["bounds"]) {
			for _ in 0..u(&x["mult"]) {
				if st(&x["dir"]) == "push" { e.push(nums(&x["v"])) } else { e.pull(nums(&x["v"])) }
			}
		}
		if e.is_balanced() != bal {
			violation(format!("the emulated channel says balanced = {}", e.is_balanced()), c.clone());
		}
		if guarded(|| e.assert_balanced()).is_ok() != bal {
			violation("the assertion of the emulated channel is wrong", c.clone());
		}
	}
	let w = Wit::<OptimalUnderlier128b>::new();
	for rev in [false, true] {
		let mut b = b.clone();
		if rev {
			b.reverse();
		}
		let r = guarded(|| channel::validate_witness(&w, &[], &b, &[], 1));
		if matches!(r, Ok(Ok(()))) != (bal && !mixed) {
			violation(format!("the witness check of a channel says {r:?}"), c.clone());
		}
	}
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	each(&cases, |i, c| if a[0] == "channel" { channel(c) } else { case(i, c, a[0] == "prove") });
	summary(json!({"cases": cases.len(), "accepted": ACC.load(SeqCst), "rejected": REJ.load(SeqCst)}));
}
