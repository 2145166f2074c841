//! P12: records the conversations of the real prover and verifier for Binding.tla, and replays the
//! alterations of proofs and statements it generates.
use std::{
	collections::HashMap,
	sync::{
		Mutex,
		atomic::{AtomicUsize, Ordering::SeqCst},
	},
};

use binius_core::{
	constraint_system::{
		ConstraintSystem,
		channel::{Boundary, FlushDirection},
	},
	fiat_shamir::HasherChallenger,
	transcript::ProverTranscript,
};
use binius_field::{Field, arch::OptimalUnderlier128b};
use binius_hash::groestl::Groestl256;
use digest::Digest;
use vharness::{system::*, *};

type Plain = HasherChallenger<Groestl256>;
fn hash(b: &[u8]) -> String {
	Groestl256::digest(b)[..6].iter().map(|x| format!("{x:02x}")).collect()
}
fn evs(e: &[Event]) -> Vec<Value> {
	e.iter()
		.map(|e| match e {
			Event::Observe(b) => json!({"k": "o", "n": b.len(), "h": hash(b)}),
			Event::Sample(b) => json!({"k": "s", "n": b.len(), "h": hash(b)}),
		})
		.collect()
}
struct Run {
	cs: ConstraintSystem<B128>,
	bounds: Vec<Boundary<B128>>,
	proof: Vec<u8>,
	events: Vec<Event>,
	rate: usize,
	security: usize,
}
fn statement(cs: &ConstraintSystem<B128>, b: &[Boundary<B128>]) -> Vec<u8> {
	clear_events();
	let mut t = ProverTranscript::<Recording>::default();
	t.observe().write_slice(cs.digest::<Groestl256>().as_ref());
	t.observe().write_slice(b);
	take_events().into_iter().flat_map(|e| if let Event::Observe(b) = e { b } else { vec![] }).collect()
}
fn run_case(c: &Value) -> Result<(Run, Vec<Event>, Vec<u8>), String> {
	let (cs, ids) = build(c)?;
	let bounds = boundaries(c);
	let (rate, security) = (us(&c["rate"]), us(&c["security"]));
	let st = statement(&cs, &bounds);
	clear_events();
	let proof = prove128_with::<Recording>(&cs, rate, security, &bounds, &sizes(c), witness::<OptimalUnderlier128b>(c, &ids))?;
	let p = take_events();
	clear_events();
	verify_with::<Recording>(&cs, rate, security, &cs.digest::<Groestl256>(), &bounds, proof.clone())?;
	let events = take_events();
	// the recording challenger is the real one with a log
	verify_with::<Plain>(&cs, rate, security, &cs.digest::<Groestl256>(), &bounds, proof.clone())?;
	Ok((Run { cs, bounds, proof, events, rate, security }, p, st))
}

fn record(c: &Value) -> Option<Value> {
	let r = guarded(|| run_case(c));
	let Ok(Ok((r, p, st))) = r else {
		violation(format!("an honest proof does not verify: {:?}", r.map(|x| x.map(|_| ()))), c.clone());
		return None;
	};
	// cut the statement and the proof where the verifier absorbed them
	let all = [st.clone(), r.proof.clone()].concat();
	let (mut pos, mut slices) = (0, vec![]);
	for e in &r.events {
		if let Event::Observe(b) = e {
			let end = (pos + b.len()).min(all.len());
			slices.push(hash(&all[pos..end]));
			pos = end;
		}
	}
	slices.push(String::new());
	let z = sizes(c);
	let sy = &c["sy"];
	let live = |t: &Value| z[us(t) - 1] > 0;
	let vars = |t: &Value, lv: usize| lv + z[us(t) - 1].next_power_of_two().trailing_zeros() as usize;
	let node = |id: &Value| &sy["nodes"][us(id) - 1];
	let exps: Vec<_> = arr(&sy["exps"]).iter().filter(|e| live(&node(&e["res"])["tab"])).collect();
	let expvars = exps.iter().map(|e| vars(&node(&e["res"])["tab"], us(&node(&e["res"])["lv"]))).max().unwrap_or(0);
	Some(json!({
		"case": c["case"], "p": evs(&p), "v": evs(&r.events), "slices": slices, "stmt": st.len(), "shash": hash(&st), "len": r.proof.len(),
		"advice": all.len() - pos, "tables": z.len(), "elems": u(&c["elems"]), "sysid": c["sysid"], "nch": c["sy"]["nch"], "widths": r.bounds.iter().map(|b| b.values.len()).collect::<Vec<_>>(),
		"fl": arr(&sy["fl"]).iter().filter(|f| live(&f["tab"])).count(), "exps": exps.len(), "expvars": expvars,
		"nz": arr(&sy["nz"]).iter().filter(|i| live(&node(i)["tab"])).count(), "rate": r.rate, "security": r.security,
	}))
}

/// the event of a run on altered data that first differs from the honest run (1-based)
fn divergence(honest: &[Event], got: &[Event]) -> usize {
	for (k, g) in got.iter().enumerate() {
		// a run that ends early may end inside an event
		let cut = match (honest.get(k), g) {
			(Some(Event::Observe(y)), Event::Observe(x)) | (Some(Event::Sample(y)), Event::Sample(x)) => k + 1 == got.len() && y.starts_with(x),
			_ => false,
		};
		if honest.get(k) != Some(g) && !cut {
			return k + 1;
		}
	}
	0
}

static REJ: AtomicUsize = AtomicUsize::new(0);
static PANICS: AtomicUsize = AtomicUsize::new(0);
fn alter(runs: &HashMap<u64, Run>, c: &Value) {
	let r = &runs[&u(&c["t"])];
	let a = &c["alt"];
	let mut proof = r.proof.clone();
	let mut digest = r.cs.digest::<Groestl256>();
	let mut b = r.bounds.clone();
	let (mut rate, mut security, mut cs) = (r.rate, r.security, &r.cs);
	let bi = a.get("b").map(|x| us(x) - 1).unwrap_or(0);
	let bd = |ch: usize, d, m| Boundary { values: vec![B128::new(77); b.iter().find(|x| x.channel_id == ch).map(|x| x.values.len()).unwrap_or_else(|| r.cs.flushes.iter().find(|f| f.channel_id == ch).map(|f| f.oracles.len()).unwrap_or(1))], channel_id: ch, direction: d, multiplicity: m };
	match st(&a["k"]) {
		"byte" => proof[us(&a["p"])] ^= u(&a["m"]) as u8,
		"cut" => proof.truncate(us(&a["p"])),
		"extend" => proof.extend(vec![0; us(&a["n"])]),
		"digest" => digest[us(&a["p"])] ^= u(&a["m"]) as u8,
		"addpair" => {
			let x = [bd(us(&a["ch"]), FlushDirection::Push, u(&a["m"])), bd(us(&a["ch"]), FlushDirection::Pull, u(&a["m"]))];
			b.extend(x);
		}
		"addnone" => {
			let x = bd(us(&a["ch"]), FlushDirection::Push, 0);
			b.push(x);
		}
		"value" => b[bi].values[us(&a["w"])] += B128::ONE,
		"mult" => b[bi].multiplicity += 1,
		"dir" => b[bi].direction = if b[bi].direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push },
		"drop" => drop(b.remove(bi)),
		"split" => {
			// the same multiset of tuples, in two boundaries
			let mut x = b[bi].clone();
			b[bi].multiplicity += 3;
			x.direction = if x.direction == FlushDirection::Push { FlushDirection::Pull } else { FlushDirection::Push };
			x.multiplicity = 3;
			b.push(x);
		}
		"chan" => b[bi].channel_id = (b[bi].channel_id + 1) % r.cs.channel_count.max(1),
		"rate" => rate = us(&a["v"]),
		"security" => security = us(&a["v"]),
		"system" => {
			cs = &runs[&u(&c["other"])].cs;
			digest = cs.digest::<Groestl256>();
		}
		k => panic!("alteration {k}"),
	}
	if st(&a["k"]) == "chan" && r.cs.channel_count < 2 {
		return;
	}
	clear_events();
	let v = guarded(|| verify_with::<Recording>(cs, rate, security, &digest, &b, proof));
	let got = take_events();
	REJ.fetch_add(1, SeqCst);
	if v.is_err() {
		PANICS.fetch_add(1, SeqCst);
	}
	if matches!(v, Ok(Ok(()))) {
		return violation(format!("an altered proof or statement is accepted: {a}"), c.clone());
	}
	let want = us(&c["div"]);
	let at = divergence(&r.events, &got);
	if want > 0 {
		// the altered data are absorbed where the honest ones were, and the next challenge is another one
		let next = got.get(want).zip(r.events.get(want));
		if at != 0 && at < want || got.len() >= want && at != want {
			violation(format!("the alteration shows up in event {at} instead of {want}: {a}"), c.clone());
		} else if let Some((Event::Sample(x), Event::Sample(y))) = next {
			if x.len() >= 8 && x == y {
				violation(format!("a challenge does not depend on what precedes it: {a}"), c.clone());
			}
		}
	} else if matches!(st(&a["k"]), "byte" | "cut" | "extend") && at != 0 {
		// advice never changes a challenge
			violation(format!("advice changes the conversation at event {at}: {a}"), c.clone());
	}
}

/// Different constraint systems have different digests; equal ones have equal digests.
fn digests(cases: &[Value]) -> usize {
	let m = Mutex::new(HashMap::<Vec<u8>, (String, Value)>::new());
	let n = AtomicUsize::new(0);
	each(cases, |_, c| {
		let Ok(Ok((cs, _))) = guarded(|| build(c)) else { return };
		n.fetch_add(1, SeqCst);
		let d = cs.digest::<Groestl256>().to_vec();
		if d != cs.clone().digest::<Groestl256>().to_vec() {
			violation("a copy of a constraint system has another digest", c.clone());
		}
		let key = format!("{}{}", c["sy"], c["pts"]);
		let mut m = m.lock().unwrap();
		if let Some((k, o)) = m.get(&d) {
			if *k != key {
				violation("two constraint systems have the same digest", json!([c, o]));
			}
		}
		m.insert(d, (key, c.clone()));
	});
	n.into_inner()
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	match a[0].as_str() {
		"record" => {
			let out = Mutex::new(vec![]);
			each(&cases, |_, c| {
				if let Some(t) = record(c) {
					out.lock().unwrap().push(t);
				}
			});
			let mut out = out.into_inner().unwrap();
			out.sort_by_key(|t| u(&t["case"]));
			std::fs::write(&a[2], out.iter().map(|t| t.to_string() + "\n").collect::<String>()).unwrap();
			summary(json!({"traces": out.len(), "bytes": out.iter().map(|t| u(&t["len"])).sum::<u64>()}));
		}
		"queries" => {
			use binius_core::{protocols::fri::calculate_n_test_queries, reed_solomon::reed_solomon::ReedSolomonCode};
			for c in &cases {
				for log_dim in [0, 3, 10, 20] {
					let code = ReedSolomonCode::<B32>::new(log_dim, us(&c["rate"])).unwrap();
					let n = guarded(|| calculate_n_test_queries::<B128, B32>(us(&c["security"]), &code));
					// the error of the other parts of the argument may cost another query
					match n {
						Ok(Ok(n)) if n == us(&c["n"]) || n == us(&c["n"]) + 1 => {}
						r => violation(format!("the number of queries is {r:?}"), c.clone()),
					}
				}
			}
			summary(json!({"cases": 4 * cases.len()}));
		}
		"digests" => summary(json!({"cases": digests(&cases)})),
		_ => {
			let alts = read_ndjson(&a[2]);
			let runs = Mutex::new(HashMap::new());
			each(&cases, |_, c| {
				if let Ok(Ok((r, ..))) = guarded(|| run_case(c)) {
					runs.lock().unwrap().insert(u(&c["case"]), r);
				}
			});
			let runs = runs.into_inner().unwrap();
			each(&alts, |_, c| alter(&runs, c));
			summary(json!({"cases": REJ.load(SeqCst), "panics": PANICS.load(SeqCst)}));
		}
	}
}
