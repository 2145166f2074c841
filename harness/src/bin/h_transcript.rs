//! Replays the behaviours of Transcript.tla in the real prover and verifier transcripts.
use std::collections::HashMap;

use binius_core::{
	fiat_shamir::{CanSample, CanSampleBits, HasherChallenger},
	transcript::{ProverTranscript, TranscriptReader, TranscriptWriter, VerifierTranscript},
};
use binius_hash::groestl::Groestl256;
use bytes::{Buf, BufMut};
use vharness::*;

type Ch = HasherChallenger<Groestl256>;

fn write<B: BufMut>(w: &mut TranscriptWriter<B>, mode: &str, data: &[u8]) {
	match mode {
		"bytes" => w.write_bytes(data),
		"b8" => data.iter().for_each(|&b| w.write_scalar(B8::new(b))),
		"split" => {
			let (a, b) = data.split_at(data.len() / 2);
			w.write_bytes(a);
			w.write_bytes(b)
		}
		"b16x" => {
			let (pairs, rest) = data.split_at(data.len() / 2 * 2);
			let elems: Vec<B16> = pairs.chunks(2).map(|c| B16::new(u16::from_le_bytes([c[0], c[1]]))).collect();
			w.write_scalar_slice(&elems);
			for &b in rest {
				w.write(&b);
			}
		}
		"vec" => w.write_slice(data),
		m => panic!("mode {m}"),
	}
}

fn read<B: Buf>(r: &mut TranscriptReader<B>, mode: &str, n: usize) -> Result<Vec<u8>, String> {
	let e = |e: binius_core::transcript::Error| e.to_string();
	Ok(match mode {
		"bytes" => {
			let mut b = vec![0; n];
			r.read_bytes(&mut b).map_err(e)?;
			b
		}
		"b8" => {
			let v: Vec<B8> = r.read_scalar_slice(n).map_err(e)?;
			v.into_iter().map(|x| x.val()).collect()
		}
		"split" => {
			let mut b = vec![0; n];
			let (x, y) = b.split_at_mut(n / 2);
			r.read_bytes(x).map_err(e)?;
			r.read_bytes(y).map_err(e)?;
			b
		}
		"b16x" => {
			let v: Vec<B16> = r.read_scalar_slice(n / 2).map_err(e)?;
			let mut b: Vec<u8> = v.into_iter().flat_map(|x| x.val().to_le_bytes()).collect();
			if n % 2 == 1 {
				b.push(r.read::<u8>().map_err(e)?);
			}
			b
		}
		"vec" => r.read_vec::<u8>(n).map_err(e)?,
		m => panic!("mode {m}"),
	})
}

macro_rules! sample_impl {
	($t:expr, $kind:expr) => {{
		match $kind {
			"B8" => CanSample::<B8>::sample($t).val().to_le_bytes().to_vec(),
			"B16" => CanSample::<B16>::sample($t).val().to_le_bytes().to_vec(),
			"B32" => CanSample::<B32>::sample($t).val().to_le_bytes().to_vec(),
			"B64" => CanSample::<B64>::sample($t).val().to_le_bytes().to_vec(),
			"B128" => CanSample::<B128>::sample($t).val().to_le_bytes().to_vec(),
			k => {
				let bits: usize = k.strip_prefix("bits").expect("kind").parse().unwrap();
				let v: u32 = $t.sample_bits(bits);
				if bits < 32 && (v as u64) >= (1u64 << bits) {
					violation(format!("sample_bits({bits}) out of range: {v}"), json!({"bits": bits, "v": v}));
				}
				v.to_le_bytes().to_vec()
			}
		}
	}};
}

fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	// challenge names (16-byte probes only) -> value, and back: the naming is a bijection
	let mut by_name: HashMap<String, Vec<u8>> = HashMap::new();
	let mut by_val: HashMap<Vec<u8>, String> = HashMap::new();
	let (mut samples, mut faults) = (0usize, 0usize);
	for c in &cases {
		let r = guarded(|| run_case(c, &mut by_name, &mut by_val, &mut samples));
		if let Err(p) = r {
			violation(format!("transcript panicked: {p}"), c.clone());
		}
		if st(&c["fault"]["k"]) != "none" {
			faults += 1;
		}
	}
	summary(json!({"cases": cases.len(), "faulted": faults, "challenges": samples, "distinct_names": by_name.len()}));
}

fn run_case(c: &Value, by_name: &mut HashMap<String, Vec<u8>>, by_val: &mut HashMap<Vec<u8>, String>, samples: &mut usize) {
	let script = arr(&c["script"]);
	let (fk, fi) = (st(&c["fault"]["k"]), us(&c["fault"]["i"]));
	let mut p = ProverTranscript::<Ch>::new();
	p.set_debug(false);
	let mut pch: Vec<Vec<u8>> = vec![];
	let mut tape_pos: Vec<(usize, usize)> = vec![]; // (offset, len) of tape entries
	let mut off = 0;
	for o in script {
		match st(&o["op"]) {
			"smp" => pch.push(sample_impl!(&mut p, st(&o["kind"][0]))),
			op => {
				let data = vec![u(&o["val"]) as u8; us(&o["len"])];
				match op {
					"msg" => write(&mut p.message(), st(&o["wm"]), &data),
					"obs" => write(&mut p.observe(), st(&o["wm"]), &data),
					_ => write(&mut p.decommitment(), st(&o["wm"]), &data),
				}
				if op != "obs" {
					tape_pos.push((off, data.len()));
					off += data.len();
				}
			}
		}
	}
	let honest = p.finalize();
	if honest.len() != off {
		violation(format!("proof has {} bytes, {} were written", honest.len(), off), c.clone());
		return;
	}
	let mut bytes = honest.clone();
	match fk {
		"flipfirst" => bytes[tape_pos[fi - 1].0] ^= 128,
		"fliplast" => bytes[tape_pos[fi - 1].0 + tape_pos[fi - 1].1 - 1] ^= 128,
		"trunc" => {
			bytes.pop();
		}
		"extra" => bytes.push(0),
		_ => {}
	}
	let mut v = VerifierTranscript::<Ch>::new(bytes.clone());
	v.set_debug(false);
	let mut vch: Vec<Vec<u8>> = vec![];
	let mut verdict = "open".to_string();
	let mut idx = 0;
	for (i, o) in script.iter().enumerate() {
		match st(&o["op"]) {
			"smp" => vch.push(sample_impl!(&mut v, st(&o["kind"][0]))),
			"obs" => {
				let mut data = vec![u(&o["val"]) as u8; us(&o["len"])];
				if fk == "obsflip" && fi == i + 1 {
					data[0] ^= 128;
				}
				write(&mut v.observe(), st(&o["rm"]), &data)
			}
			op => {
				if fk == "skip" && fi == i + 1 {
					verdict = "desync".into();
					break;
				}
				let n = us(&o["len"]);
				let got = if op == "msg" { read(&mut v.message(), st(&o["rm"]), n) } else { read(&mut v.decommitment(), st(&o["rm"]), n) };
				match got {
					Err(_) => {
						verdict = "short".into();
						break;
					}
					Ok(d) => {
						let want = &bytes[tape_pos[idx].0..tape_pos[idx].0 + n];
						if d != want {
							violation("verifier read different bytes than are on the tape", json!({"case": c, "got": d}));
						}
					}
				}
				idx += 1;
			}
		}
	}
	let fin = v.finalize();
	if verdict == "open" {
		verdict = if fin.is_ok() { "ok".into() } else { "leftover".into() };
	} else if verdict == "desync" && fin.is_ok() {
		violation("a transcript that was not fully read was finalized", c.clone());
	}
	if verdict != st(&c["verdict"]) {
		violation(format!("transcript verdict {verdict}, specification says {}", st(&c["verdict"])), c.clone());
	}
	// challenges against their names
	let names: Vec<&str> = arr(&c["chal"]).iter().map(st).collect();
	let vnames: Vec<&str> = arr(&c["vchal"]).iter().map(st).collect();
	if names.len() != pch.len() || (vnames.len() != vch.len()) {
		violation("number of challenges differs from the specification", c.clone());
		return;
	}
	for (name, valb) in names.iter().zip(&pch).chain(vnames.iter().zip(&vch)) {
		*samples += 1;
		// bit samples are masked, so qualify the name by the value length only when unmasked
		let masked = valb.len() == 4;
		if masked {
			continue;
		}
		let key = format!("{name}");
		match by_name.get(&key) {
			Some(x) if x != valb => violation(
				format!("equal histories gave different challenges: {name}"),
				c.clone(),
			),
			Some(_) => {}
			None => {
				by_name.insert(key.clone(), valb.clone());
			}
		}
		if valb.len() == 16 {
			match by_val.get(valb) {
				Some(x) if *x != key => violation(
					format!("different histories gave the same challenge: {key} / {x}"),
					c.clone(),
				),
				Some(_) => {}
				None => {
					by_val.insert(valb.clone(), key);
				}
			}
		}
	}
	// masked samples: prover and verifier agree where the names agree
	for (i, (n, b)) in vnames.iter().zip(&vch).enumerate() {
		if names[i] == *n && pch[i] != *b {
			violation("prover and verifier sampled different challenges from equal histories", c.clone());
		}
	}
}
