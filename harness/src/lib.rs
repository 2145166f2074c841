//! Shared parts of the conformance harness: reading cases generated by TLC, reporting, and two
//! Fiat-Shamir challengers (a scripted one, so that the specification chooses the verifier's
//! challenges, and a recording one, so that real transcripts can be checked against it).
use std::{
	cell::RefCell,
	panic::{AssertUnwindSafe, catch_unwind},
	sync::Mutex,
};

use binius_core::fiat_shamir::{Challenger, HasherChallenger};
use binius_field::{BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b};
use binius_hash::groestl::Groestl256;
use bytes::{Buf, BufMut, buf::UninitSlice};
pub use serde_json::{Value, json};

pub mod fm;
pub mod rows;
pub mod sums;
pub mod system;
pub type B8 = BinaryField8b;
pub type B16 = BinaryField16b;
pub type B32 = BinaryField32b;
pub type B64 = BinaryField64b;
pub type B128 = BinaryField128b;

pub fn read_ndjson(path: &str) -> Vec<Value> {
	std::fs::read_to_string(path)
		.unwrap_or_else(|e| panic!("{path}: {e}"))
		.lines()
		.filter(|l| !l.trim().is_empty())
		.map(|l| serde_json::from_str(l).expect("valid json line"))
		.collect()
}

static OUT: Mutex<usize> = Mutex::new(0);

pub fn violation(what: impl AsRef<str>, case: Value) {
	let mut n = OUT.lock().unwrap();
	*n += 1;
	let cap = std::env::var("VH_MAX").ok().and_then(|v| v.parse().ok()).unwrap_or(40);
	if *n <= cap {
		println!("{}", json!({"violation": what.as_ref(), "case": case}));
	}
}

pub fn n_violations() -> usize {
	*OUT.lock().unwrap()
}

pub fn summary(v: Value) {
	println!("{}", json!({ "summary": v }));
}

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
	static GUARDED: RefCell<usize> = const { RefCell::new(0) };
}

pub fn init() {
	// a dishonest prover does not stop where it sees that the witness is wrong
	#[allow(unexpected_cfgs)]
	#[cfg(binius_verif)]
	binius_core::constraint_system::verif::PROVE_ANYWAY.store(true, std::sync::atomic::Ordering::SeqCst);
	std::panic::set_hook(Box::new(|info| {
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("{info}"));
		if GUARDED.with(|g| *g.borrow() == 0) {
			eprintln!("{info}");
		}
	}));
}

/// Runs code under test; a panic is a result, not a failure of the harness.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	GUARDED.with(|g| *g.borrow_mut() += 1);
	let r = catch_unwind(AssertUnwindSafe(f));
	GUARDED.with(|g| *g.borrow_mut() -= 1);
	r.map_err(|e| {
		let m = LAST_PANIC.with(|p| p.borrow().clone());
		if m.is_empty() {
			if let Some(s) = e.downcast_ref::<String>() {
				return format!("panic: {s}");
			}
			"panic".to_string()
		} else {
			format!("panic: {m}")
		}
	})
}

pub fn args() -> Vec<String> {
	std::env::args().skip(1).collect()
}

pub fn seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn u(v: &Value) -> u64 {
	v.as_u64().unwrap_or_else(|| panic!("not a number: {v}"))
}
pub fn us(v: &Value) -> usize {
	u(v) as usize
}
pub fn st(v: &Value) -> &str {
	v.as_str().unwrap_or_else(|| panic!("not a string: {v}"))
}
pub fn arr(v: &Value) -> &[Value] {
	match v {
		Value::Array(a) => a,
		// TLC's ToJson renders the empty sequence as [] but an empty function as {}
		Value::Object(o) if o.is_empty() => &[],
		_ => panic!("not an array: {v}"),
	}
}
pub fn nums(v: &Value) -> Vec<u64> {
	arr(v).iter().map(u).collect()
}
pub fn b16(v: &Value) -> B16 {
	B16::new(u(v) as u16)
}
/// A specification value (an element of the 16-bit subfield) in the 128-bit field.
pub fn b128(v: &Value) -> B128 {
	B128::new(u(v) as u128)
}
pub fn val(x: B128) -> Value {
	let v = x.val();
	if v < 65536 { json!(v as u64) } else { json!(format!("{v:#x}")) }
}

// ------------------------------------------------------------------------------------------------
// Scripted challenger

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Event {
	Observe(Vec<u8>),
	Sample(Vec<u8>),
}

thread_local! {
	static SCRIPT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
	static EVENTS: RefCell<Vec<Event>> = const { RefCell::new(Vec::new()) };
}

/// Sets the bytes the next scripted challenger (made with `Default`) will hand out.
pub fn set_script(bytes: Vec<u8>) {
	SCRIPT.with(|s| *s.borrow_mut() = bytes);
	EVENTS.with(|s| s.borrow_mut().clear());
}

pub fn script_of(challenges: &[u64], elem_bytes: usize) -> Vec<u8> {
	let mut out = Vec::new();
	for &c in challenges {
		let b = c.to_le_bytes();
		for i in 0..elem_bytes {
			out.push(if i < 8 { b[i] } else { 0 });
		}
	}
	out
}

pub fn take_events() -> Vec<Event> {
	EVENTS.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

fn push_event(e: Event) {
	EVENTS.with(|s| {
		let mut v = s.borrow_mut();
		match (v.last_mut(), e) {
			(Some(Event::Observe(a)), Event::Observe(b)) => a.extend(b),
			(Some(Event::Sample(a)), Event::Sample(b)) => a.extend(b),
			(_, e) => v.push(e),
		}
	})
}

#[derive(Clone, Debug)]
pub struct Sampler {
	bytes: Vec<u8>,
	pos: usize,
}
#[derive(Clone, Debug)]
pub struct Observer {
	buf: Vec<u8>,
}

/// Hands out the scripted bytes; past the end of the script, hands out small nonzero elements.
#[derive(Clone, Debug)]
pub struct Scripted {
	s: Sampler,
	o: Observer,
}

impl Default for Scripted {
	fn default() -> Self {
		let bytes = SCRIPT.with(|s| s.borrow().clone());
		let mut s = Sampler { bytes, pos: 0 };
		s.refill();
		Self { s, o: Observer { buf: vec![0; 1024] } }
	}
}

impl Sampler {
	fn refill(&mut self) {
		if self.bytes.len() - self.pos < 64 {
			let n = self.bytes.len() as u64;
			for i in 0..64u64 {
				let v = (n + 17 * i + 3) % 251 + 2;
				self.bytes.push(v as u8);
				self.bytes.extend([0; 15]);
			}
		}
	}
}

impl Buf for Sampler {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.bytes[self.pos..]
	}
	fn advance(&mut self, mut cnt: usize) {
		while cnt > 0 {
			let k = cnt.min(self.bytes.len() - self.pos);
			push_event(Event::Sample(self.bytes[self.pos..self.pos + k].to_vec()));
			self.pos += k;
			cnt -= k;
			self.refill();
		}
	}
}

unsafe impl BufMut for Observer {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, cnt: usize) {
		push_event(Event::Observe(self.buf[..cnt].to_vec()));
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.buf[..]).into()
	}
}

impl Challenger for Scripted {
	fn sampler(&mut self) -> &mut impl Buf {
		&mut self.s
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.o
	}
}

// ------------------------------------------------------------------------------------------------
// Recording challenger around the real one

type Real = HasherChallenger<Groestl256>;

#[derive(Clone, Debug, Default)]
pub struct Recording {
	inner: RecInner,
}
#[derive(Clone, Debug)]
pub struct RecInner {
	real: Real,
	buf: Vec<u8>,
}
impl Default for RecInner {
	fn default() -> Self {
		Self { real: Real::default(), buf: vec![0; 4096] }
	}
}
pub fn clear_events() {
	EVENTS.with(|s| s.borrow_mut().clear());
}
impl Buf for RecInner {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		// one byte at a time keeps `chunk` consistent with `advance`
		&self.buf[..1]
	}
	fn advance(&mut self, cnt: usize) {
		for _ in 0..cnt {
			push_event(Event::Sample(vec![self.buf[0]]));
			self.real.sampler().advance(1);
			self.prefetch();
		}
	}
}
impl RecInner {
	fn prefetch(&mut self) {
		let mut c = self.real.clone();
		let mut b = [0u8; 1];
		c.sampler().copy_to_slice(&mut b);
		self.buf[0] = b[0];
	}
}
unsafe impl BufMut for RecInner {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, cnt: usize) {
		let d = self.buf[..cnt].to_vec();
		self.real.observer().put_slice(&d);
		push_event(Event::Observe(d));
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.buf[..]).into()
	}
}
impl Challenger for Recording {
	fn sampler(&mut self) -> &mut impl Buf {
		self.inner.prefetch();
		&mut self.inner
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.inner
	}
}
