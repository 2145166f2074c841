//! Replays Hashes.tla: histories of hashers, batches, compressions and permutations.
use std::{mem::MaybeUninit, sync::atomic::{AtomicUsize, Ordering::SeqCst}};

use binius_field::*;
use binius_hash::{
	groestl::*,
	multi_digest::{MultiDigest, ParallelDigest, Serializable},
	permutation::Permutation,
	sha2::Sha256Compression,
	*,
};
use binius_maybe_rayon::prelude::*;
use bytes::BufMut;
use ::digest::{Digest, FixedOutputReset, Output, Reset, core_api::BlockSizeUser};
use ::sha2::Sha256;
use vharness::*;

static CHECKED: AtomicUsize = AtomicUsize::new(0);

fn bytes(v: &Value) -> Vec<u8> {
	nums(v).into_iter().map(|x| x as u8).collect()
}
fn check(what: &str, got: Result<Vec<u8>, String>, want: &[u8], c: &Value) {
	CHECKED.fetch_add(1, SeqCst);
	match got {
		Ok(g) if g == want => {}
		Ok(g) => violation(format!("{what}: {g:02x?}, not {want:02x?}"), c.clone()),
		Err(e) => violation(format!("{what}: {e}"), c.clone()),
	}
}
fn tag(c: &Value) -> Value {
	let mut c = c.clone();
	if us(c.get("len").unwrap_or(&json!(0))) > 600 {
		c["msg"] = json!("long");
	}
	c
}

type Outs = Result<Vec<Vec<u8>>, String>;
fn compare(what: &str, got: Outs, c: &Value, f: &str) {
	let want: Vec<Vec<u8>> = arr(&c["outs"]).iter().map(|o| bytes(&o[f])).collect();
	let t = tag(c);
	match got {
		Err(e) => check(what, Err(e), &[], &t),
		Ok(g) => {
			if g.len() != want.len() {
				violation(format!("{what}: {} digests instead of {}", g.len(), want.len()), t);
				return;
			}
			for (i, (g, w)) in g.into_iter().zip(&want).enumerate() {
				check(&format!("{what}, digest {i}"), Ok(g), w, &t);
			}
		}
	}
}

/// the history with plain updates
fn plain<D: Digest + FixedOutputReset + Reset + Clone + Default>(c: &Value) -> Outs {
	guarded(|| {
		let msg = bytes(&c["msg"]);
		let (mut a, mut b, mut at, mut outs) = (D::default(), D::default(), 0, vec![]);
		for (i, o) in arr(&c["ops"]).iter().enumerate() {
			match st(&o["o"]) {
				"up" => {
					Digest::update(&mut a, &msg[at..at + us(&o["n"])]);
					at += us(&o["n"]);
				}
				"clone" => b = a.clone(),
				"swap" => std::mem::swap(&mut a, &mut b),
				"reset" => Digest::reset(&mut a),
				// the three ways to a digest leave a fresh hasher
				_ => match i % 3 {
					0 => outs.push(a.finalize_reset().to_vec()),
					1 => {
						let mut o = Output::<D>::default();
						Digest::finalize_into_reset(&mut a, &mut o);
						outs.push(o.to_vec());
					}
					_ => outs.push(std::mem::take(&mut a).finalize().to_vec()),
				},
			}
		}
		outs
	})
}
/// the history with the bytes written through buffers
fn buffered<D: Digest + FixedOutputReset + Reset + BlockSizeUser + Clone + Default>(c: &Value, way: usize) -> Outs {
	guarded(|| {
		let msg = bytes(&c["msg"]);
		let (mut a, mut b, mut at, mut outs) = (D::default(), D::default(), 0, vec![]);
		let ops = arr(&c["ops"]);
		let mut i = 0;
		while i < ops.len() {
			if st(&ops[i]["o"]) == "up" {
				// consecutive updates go through one buffer
				let mut buf = HashBuffer::new(&mut a);
				while i < ops.len() && st(&ops[i]["o"]) == "up" {
					let piece = &msg[at..at + us(&ops[i]["n"])];
					at += piece.len();
					match way {
						0 => buf.put_slice(piece),
						1 => piece.iter().for_each(|x| buf.put_u8(*x)),
						_ => {
							let mut rest = piece;
							while !rest.is_empty() {
								let k = {
									let chunk = buf.chunk_mut();
									let k = chunk.len().min(rest.len()).min(1 + (at + rest.len()) % 7);
									chunk[..k].copy_from_slice(&rest[..k]);
									k
								};
								unsafe { buf.advance_mut(k) };
								rest = &rest[k..];
							}
						}
					}
					i += 1;
				}
				continue;
			}
			match st(&ops[i]["o"]) {
				"clone" => b = a.clone(),
				"swap" => std::mem::swap(&mut a, &mut b),
				"reset" => Digest::reset(&mut a),
				_ => outs.push(a.finalize_reset().to_vec()),
			}
			i += 1;
		}
		outs
	})
}
const N: usize = 32;
type Sliced = VisionHasherDigestByteSliced;
type SlicedOut = [MaybeUninit<Output<VisionHasherDigest>>; N];
/// the history in every lane, lane l on the bytes xor l (the lane 0 result is the specification's, the others are the single hasher's)
fn sliced(c: &Value) -> Outs {
	guarded(|| {
		let msg = bytes(&c["msg"]);
		let lanes: Vec<Vec<u8>> = (0..N).map(|l| msg.iter().map(|x| x ^ (l as u8 * 7)).collect()).collect();
		let mut singles: Vec<(VisionHasherDigest, VisionHasherDigest)> = vec![Default::default(); N];
		let (mut a, mut b, mut at, mut outs) = (<Sliced as MultiDigest<N>>::new(), <Sliced as MultiDigest<N>>::new(), 0, vec![]);
		for (i, o) in arr(&c["ops"]).iter().enumerate() {
			match st(&o["o"]) {
				"up" => {
					let n = us(&o["n"]);
					let rows: [&[u8]; N] = std::array::from_fn(|l| &lanes[l][at..at + n]);
					if i % 2 == 0 {
						MultiDigest::update(&mut a, rows);
					} else {
						a = a.chain_update(rows);
					}
					singles.iter_mut().zip(rows).for_each(|(s, r)| Digest::update(&mut s.0, r));
					at += n;
				}
				"clone" => {
					b = a.clone();
					singles.iter_mut().for_each(|s| s.1 = s.0.clone());
				}
				"swap" => {
					std::mem::swap(&mut a, &mut b);
					singles.iter_mut().for_each(|s| std::mem::swap(&mut s.0, &mut s.1));
				}
				"reset" => {
					MultiDigest::reset(&mut a);
					singles.iter_mut().for_each(|s| Digest::reset(&mut s.0));
				}
				_ => {
					let mut o: SlicedOut = [MaybeUninit::uninit(); N];
					if i % 2 == 0 {
						MultiDigest::finalize_into_reset(&mut a, &mut o);
					} else {
						MultiDigest::finalize_into(a.clone(), &mut o);
						a = <Sliced as MultiDigest<N>>::new();
					}
					let o = o.map(|x| unsafe { x.assume_init() });
					for l in 1..N {
						let w = singles[l].0.finalize_reset();
						CHECKED.fetch_add(1, SeqCst);
						if o[l] != w {
							panic!("lane {l} of the sliced Vision hasher differs from the hasher of one message");
						}
					}
					Digest::reset(&mut singles[0].0);
					outs.push(o[0].to_vec());
				}
			}
		}
		outs
	})
}

/// messages written at once
struct Whole<'a>(&'a [u8]);
impl Serializable for Whole<'_> {
	fn serialize(self, mut b: impl BufMut) {
		b.put_slice(self.0)
	}
}
fn elems8(m: &[u8]) -> Vec<BinaryField8b> {
	m.iter().map(|x| BinaryField8b::new(*x)).collect()
}
fn elems16(m: &[u8]) -> Vec<BinaryField16b> {
	m.chunks(2).map(|x| BinaryField16b::new(u16::from_le_bytes(x.try_into().unwrap()))).collect()
}
fn elems32(m: &[u8]) -> Vec<BinaryField32b> {
	m.chunks(4).map(|x| BinaryField32b::new(u32::from_le_bytes(x.try_into().unwrap()))).collect()
}
fn elems128(m: &[u8]) -> Vec<BinaryField128b> {
	m.chunks(16).map(|x| BinaryField128b::new(u128::from_le_bytes(x.try_into().unwrap()))).collect()
}
fn batch<D: ParallelDigest>(what: &str, f: &str, c: &Value) {
	let pre = bytes(&c["prefix"]);
	let msgs: Vec<Vec<u8>> = arr(&c["msgs"]).iter().map(bytes).collect();
	let want: Vec<Vec<u8>> = arr(&c["outs"]).iter().map(|o| bytes(&o[f])).collect();
	let lanes: Vec<usize> = arr(&c["lanes"]).iter().map(us).collect();
	let d = if pre.is_empty() { D::new() } else { <D as ParallelDigest>::new_with_prefix(&pre) };
	let n = msgs[0].len();
	// more places than messages must leave the others alone, and the source may not be splittable evenly
	macro_rules! go {
		($name:expr, $mk:expr) => {{
			let r = guarded(|| {
				let mut out: Vec<MaybeUninit<Output<D::Digest>>> = (0..lanes.len()).map(|_| MaybeUninit::new(Output::<D::Digest>::default())).collect();
				d.digest(lanes.par_iter().map(|i| $mk(&msgs[*i][..])), &mut out);
				out.into_iter().map(|o| unsafe { o.assume_init() }.to_vec()).collect::<Vec<_>>()
			});
			CHECKED.fetch_add(lanes.len().max(1), SeqCst);
			match r {
				Err(e) => violation(format!("{what}, {} messages of {n} bytes as {}: {e}", lanes.len(), $name), tag(c)),
				Ok(g) => {
					if let Some((i, _)) = g.iter().enumerate().find(|(i, g)| **g != want[lanes[*i]]) {
						violation(format!("{what}, {} messages of {n} bytes as {}: message {i} has another digest", lanes.len(), $name), tag(c));
					}
				}
			}
		}};
	}
	go!("bytes", |m| Whole(m));
	go!("8-bit elements", elems8);
	if n % 2 == 0 {
		go!("AES 16-bit elements", |m| elems16(m).into_iter().map(AESTowerField16b::from).collect::<Vec<_>>());
	}
	if n % 4 == 0 {
		go!("32-bit elements", elems32);
	}
	if n % 16 == 0 {
		go!("128-bit elements", elems128);
		go!("Polyval elements", |m| elems128(m).into_iter().map(BinaryField128bPolyval::from).collect::<Vec<_>>());
	}
}
fn items<D: Digest + BlockSizeUser>(what: &str, f: &str, c: &Value) {
	if us(&c["pre"]) != 0 {
		return;
	}
	for (m, o) in arr(&c["msgs"]).iter().zip(arr(&c["outs"])) {
		let (m, want) = (bytes(m), bytes(&o[f]));
		macro_rules! one {
			($t:ty, $e:expr) => {
				check(&format!("{what} of serialized {}", std::any::type_name::<$t>()), guarded(|| hash_serialize::<$t, D>($e).map(|x| x.to_vec()).map_err(|e| format!("{e:?}"))).and_then(|x| x), &want, &tag(c))
			};
		}
		one!(BinaryField8b, elems8(&m));
		one!(u8, m.clone());
		if m.len() % 2 == 0 {
			one!(BinaryField16b, elems16(&m));
			one!(AESTowerField16b, elems16(&m).into_iter().map(AESTowerField16b::from));
		}
		if m.len() % 4 == 0 {
			one!(BinaryField32b, elems32(&m));
		}
		if m.len() % 16 == 0 {
			one!(BinaryField128b, elems128(&m));
			one!(BinaryField128bPolyval, elems128(&m).into_iter().map(BinaryField128bPolyval::from));
		}
	}
}
fn pair<O: Clone + From<[u8; 32]> + AsRef<[u8]>, P: PseudoCompressionFunction<O, 2> + Default>(what: &str, f: &str, c: &Value) {
	let x = |k: &str| -> O { <[u8; 32]>::try_from(bytes(&c[k])).unwrap().into() };
	let p = P::default();
	check(&format!("{what}(a, b)"), guarded(|| p.compress([x("a"), x("b")]).as_ref().to_vec()), &bytes(&c["ab"][f]), c);
	check(&format!("{what}(b, a)"), guarded(|| p.compress([x("b"), x("a")]).as_ref().to_vec()), &bytes(&c["ba"][f]), c);
}
fn elems_aes(x: &[u8]) -> Vec<AESTowerField32b> {
	elems32(x).into_iter().map(AESTowerField32b::from).collect()
}
fn perm(c: &Value) {
	let (x, want) = (bytes(&c["x"]), bytes(&c["v"]));
	let p = Vision32bPermutation::default();
	let e = elems_aes(&x);
	let back = |s: &[AESTowerField32b]| s.iter().flat_map(|y| BinaryField32b::from(*y).val().to_le_bytes()).collect::<Vec<u8>>();
	let packed = |e: &[AESTowerField32b]| -> [PackedAESBinaryField8x32b; 3] { std::array::from_fn(|i| PackedAESBinaryField8x32b::from_fn(|k| e[8 * i + k])) };
	let unpack = |s: &[PackedAESBinaryField8x32b; 3]| back(&s.iter().flat_map(|y| y.iter()).collect::<Vec<_>>());
	check("the Vision permutation", guarded(|| {
		let mut s = packed(&e);
		p.permute_mut(&mut s);
		unpack(&s)
	}), &want, c);
	check("the Vision matrix", guarded(|| {
		let mut s = packed(&e);
		Vision32MDSTransform::default().transform(<PackedAESBinaryField8x32b as PackedExtension<AESTowerField8b>>::cast_bases_mut(&mut s).try_into().unwrap());
		unpack(&s)
	}), &bytes(&c["mds"]), c);
	// every lane gets the state with its words rotated by the lane number times the words of a row, lane 0 and a random lane the state itself
	let own = us(&c["seed"]) % 32;
	let rot = |l: usize| -> Vec<AESTowerField32b> { if l == own { e.clone() } else { (0..24).map(|i| e[(i + l) % 24]).collect() } };
	let r = guarded(|| {
		let mut s: [ByteSlicedAES32x32b; 24] = std::array::from_fn(|i| ByteSlicedAES32x32b::from_fn(|l| rot(l)[i]));
		p.permute_mut(&mut s);
		s
	});
	match r {
		Err(e) => violation(format!("the sliced Vision permutation: {e}"), c.clone()),
		Ok(s) => {
			for l in 0..32 {
				let got = back(&(0..24).map(|i| s[i].get(l)).collect::<Vec<_>>());
				let w = if l == own || l % 24 == 0 { want.clone() } else {
					let mut t = packed(&rot(l));
					p.permute_mut(&mut t);
					unpack(&t)
				};
				check(&format!("the sliced Vision permutation, lane {l}"), Ok(got), &w, c);
			}
		}
	}
	let block = |k: &str| -> [u8; 64] { bytes(&c[k])[..64].try_into().unwrap() };
	type G = GroestlShortImpl;
	check("the Groestl permutation P", guarded(|| {
		let mut s = G::state_from_bytes(&block("x"));
		G::p_perm(&mut s);
		G::state_to_bytes(&s).to_vec()
	}), &bytes(&c["gp"]), c);
	check("the Groestl permutation Q", guarded(|| {
		let mut s = G::state_from_bytes(&block("x"));
		G::q_perm(&mut s);
		G::state_to_bytes(&s).to_vec()
	}), &bytes(&c["gq"]), c);
	check("the Groestl compression", guarded(|| {
		let mut s = G::state_from_bytes(&block("h"));
		G::compress(&mut s, &block("x"));
		G::state_to_bytes(&s).to_vec()
	}), &bytes(&c["gc"]), c);
}
/// rows of different lengths have no digest
fn uneven(c: &Value) {
	let msg = bytes(&c["msg"]);
	if msg.is_empty() {
		return;
	}
	let odd = us(&c["seed"]) % N;
	for cut in [msg.len() - 1, 0] {
		let rows: [&[u8]; N] = std::array::from_fn(|l| if l == odd { &msg[..cut] } else { &msg[..] });
		CHECKED.fetch_add(1, SeqCst);
		if guarded(|| {
			let mut o: SlicedOut = [MaybeUninit::uninit(); N];
			<Sliced as MultiDigest<N>>::digest(rows, &mut o)
		}).is_ok() {
			violation(format!("the sliced Vision hasher takes a row of {cut} bytes (row {odd}) among rows of {}", msg.len()), tag(c));
		}
	}
}
fn run(c: &Value) {
	match st(&c["k"]) {
		"sched" => {
			compare("Groestl", plain::<Groestl256>(c), c, "g");
			compare("Vision", plain::<VisionHasherDigest>(c), c, "v");
			compare("SHA-256", plain::<Sha256>(c), c, "s");
			for way in 0..3 {
				compare("Groestl through a buffer", buffered::<Groestl256>(c, way), c, "g");
				compare("Vision through a buffer", buffered::<VisionHasherDigest>(c, way), c, "v");
				compare("SHA-256 through a buffer", buffered::<Sha256>(c, way), c, "s");
			}
			compare("sliced Vision", sliced(c), c, "v");
			if us(&c["len"]) < 300 {
				uneven(c);
			}
		}
		"par" => {
			batch::<Groestl256Parallel>("Groestl in parallel", "g", c);
			batch::<Vision32ParallelDigest>("Vision in parallel", "v", c);
			batch::<VisionHasherDigest>("single Vision in parallel", "v", c);
			batch::<Sha256>("SHA-256 in parallel", "s", c);
			items::<Groestl256>("Groestl", "g", c);
			items::<VisionHasherDigest>("Vision", "v", c);
			items::<Sha256>("SHA-256", "s", c);
		}
		"pair" => {
			pair::<Output<Groestl256>, Groestl256ByteCompression>("Groestl compression", "g", c);
			pair::<Output<VisionHasherDigest>, Vision32Compression>("Vision compression", "v", c);
			pair::<Output<Sha256>, Sha256Compression>("SHA-256 compression", "s", c);
		}
		_ => perm(c),
	}
}
fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	for threads in [1, 3, 8] {
		let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
		pool.install(|| {
			cases.iter().filter(|c| threads == 8 || st(&c["k"]) == "par").for_each(run);
		});
	}
	summary(json!({"checked": CHECKED.load(SeqCst), "cases": cases.len()}));
}
