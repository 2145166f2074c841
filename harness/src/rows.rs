//! Decides, for a compiled constraint system whose constraints are local to a few cells, which cells of a witness the known
//! cells determine. Works on the compiled system only: constraints, virtual columns, exponentiations, non-zero columns and
//! (given as sets of tuples) lookups.
use std::collections::{HashMap, HashSet};

use binius_core::{
	constraint_system::{
		ConstraintSystem,
		channel::{FlushDirection, OracleOrConst},
	},
	oracle::*,
	polynomial::MultivariatePoly,
};
use binius_field::Field;
use binius_math::{ArithCircuit, ArithCircuitStep, CompositionPoly};

use crate::B128;

/// An element depending on unknown bits: affine in them, or in a way not followed further.
#[derive(Clone, Debug)]
pub enum Sym {
	Aff(B128, Vec<(u32, B128)>),
	Top(Vec<u32>),
}
impl Sym {
	fn c(x: B128) -> Self {
		Sym::Aff(x, vec![])
	}
	fn vars(&self) -> Vec<u32> {
		match self {
			Sym::Aff(_, v) => v.iter().map(|x| x.0).collect(),
			Sym::Top(v) => v.clone(),
		}
	}
	fn konst(&self) -> Option<B128> {
		match self {
			Sym::Aff(c, v) if v.is_empty() => Some(*c),
			_ => None,
		}
	}
}
fn union(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
	let mut r = a;
	r.extend(b);
	r.sort_unstable();
	r.dedup();
	r
}
fn add(a: Sym, b: Sym) -> Sym {
	match (a, b) {
		(Sym::Aff(c, v), Sym::Aff(d, w)) => {
			if w.is_empty() {
				return Sym::Aff(c + d, v);
			}
			if v.is_empty() {
				return Sym::Aff(c + d, w);
			}
			// both sorted by variable
			let (mut r, mut i, mut j) = (vec![], 0, 0);
			while i < v.len() || j < w.len() {
				if j == w.len() || (i < v.len() && v[i].0 < w[j].0) {
					r.push(v[i]);
					i += 1;
				} else if i == v.len() || w[j].0 < v[i].0 {
					r.push(w[j]);
					j += 1;
				} else {
					let s = v[i].1 + w[j].1;
					if s != B128::ZERO {
						r.push((v[i].0, s));
					}
					i += 1;
					j += 1;
				}
			}
			Sym::Aff(c + d, r)
		}
		(a, b) => Sym::Top(union(a.vars(), b.vars())),
	}
}
fn mul(a: Sym, b: Sym) -> Sym {
	match (a.konst(), b.konst()) {
		(Some(x), _) if x == B128::ZERO => Sym::c(x),
		(_, Some(x)) if x == B128::ZERO => Sym::c(x),
		(Some(x), _) => scale(b, x),
		(_, Some(x)) => scale(a, x),
		_ => Sym::Top(union(a.vars(), b.vars())),
	}
}
fn scale(a: Sym, x: B128) -> Sym {
	match a {
		Sym::Aff(c, v) => Sym::Aff(c * x, v.into_iter().map(|(i, y)| (i, y * x)).collect()),
		t => t,
	}
}

#[derive(Clone, Debug)]
enum Kind {
	/// constraint `1` of set `0` at point `2`
	Zero(usize, usize, usize),
	NonZero(OracleId, usize),
	/// flush `0` at point `1` reads one of the tuples of set `2`
	In(usize, usize, usize),
}
struct Inst {
	kind: Kind,
	exps: Vec<(usize, usize)>,
}

pub struct Eng<'a> {
	pub cs: &'a ConstraintSystem<B128>,
	pub o: MultilinearOracleSet<B128>,
	exp_of: HashMap<OracleId, usize>,
	var0: HashMap<OracleId, u32>,
	pub cells: Vec<(OracleId, usize, usize)>,
	pub known: Vec<Option<bool>>,
	pub honest: Vec<bool>,
	insts: Vec<Inst>,
	uses: Vec<Vec<u32>>,
	sets: Vec<HashSet<Vec<u128>>>,
	trail: Vec<u32>,
	all_honest: Vec<Option<bool>>,
	/// further exponents to try
	pub hints: Vec<u128>,
	pub steps: usize,
}

fn pow(b: B128, mut e: u128) -> B128 {
	let (mut r, mut b) = (B128::ONE, b);
	while e > 0 {
		if e & 1 == 1 {
			r *= b;
		}
		b *= b;
		e >>= 1;
	}
	r
}
/// multiplicative order
fn order(b: B128) -> u128 {
	let mut n = u128::MAX;
	for p in [3u128, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721] {
		if pow(b, n / p) == B128::ONE {
			n /= p;
		}
	}
	n
}

impl<'a> Eng<'a> {
	/// `value(id, i)` is the stored value of committed cell i of column id.
	pub fn new(cs: &'a ConstraintSystem<B128>, sizes: &[usize], value: impl Fn(OracleId, usize) -> B128) -> Self {
		let o = cs.oracles.instantiate(sizes).unwrap();
		let exp_of: HashMap<_, _> = cs.exponents.iter().enumerate().map(|(i, e)| (e.exp_result_id, i)).collect();
		let (mut var0, mut cells, mut honest) = (HashMap::new(), vec![], vec![]);
		for (id, p) in o.iter() {
			if matches!(p.variant, MultilinearPolyVariant::Committed) && !exp_of.contains_key(&id) {
				var0.insert(id, cells.len() as u32);
				for i in 0..1usize << p.n_vars {
					let x = value(id, i).val();
					for b in 0..1usize << p.tower_level {
						cells.push((id, i, b));
						honest.push(x >> b & 1 == 1);
					}
				}
			}
		}
		let known = vec![None; cells.len()];
		Eng { cs, o, exp_of, var0, known, honest, insts: vec![], uses: vec![vec![]; cells.len()], cells, sets: vec![], trail: vec![], all_honest: vec![], hints: vec![], steps: 0 }
	}
	/// a cell none of whose bits are unknown
	pub fn value(&self, id: OracleId, i: usize) -> u128 {
		self.eval(id, i).konst().expect("known").val()
	}
	pub fn name(&self, id: OracleId) -> &str {
		self.o[id].name.as_deref().unwrap_or("")
	}
	/// The tuples flush reads of a channel may name.
	pub fn allow(&mut self, channel: usize, tuples: HashSet<Vec<u128>>) {
		self.sets.push(tuples);
		let k = self.sets.len() - 1;
		for (f, fl) in self.cs.flushes.iter().enumerate() {
			if fl.channel_id == channel && fl.direction == FlushDirection::Pull && fl.selectors.is_empty() {
				let n = fl.oracles.iter().filter_map(|x| if let OracleOrConst::Oracle(i) = x { Some(self.o.n_vars(*i)) } else { None }).max().unwrap();
				for i in 0..1usize << n {
					self.insts.push(Inst { kind: Kind::In(f, i, k), exps: vec![] });
				}
			}
		}
	}
	/// Makes the list of conditions; cells of columns for which `input` holds are known.
	pub fn start(&mut self, input: impl Fn(&str) -> bool) {
		self.all_honest = self.honest.iter().map(|&x| Some(x)).collect();
		for v in 0..self.cells.len() {
			if input(self.name(self.cells[v].0)) {
				self.known[v] = Some(self.honest[v]);
			}
		}
		for (s, set) in self.cs.table_constraints.iter().enumerate() {
			let Some(&first) = set.oracle_ids.first() else { continue };
			if self.o.is_zero_sized(first) {
				continue;
			}
			for c in 0..set.constraints.len() {
				for p in 0..1usize << self.o.n_vars(first) {
					self.insts.push(Inst { kind: Kind::Zero(s, c, p), exps: vec![] });
				}
			}
		}
		for &id in &self.cs.non_zero_oracle_ids {
			if !self.o.is_zero_sized(id) {
				for p in 0..1usize << self.o.n_vars(id) {
					self.insts.push(Inst { kind: Kind::NonZero(id, p), exps: vec![] });
				}
			}
		}
		for i in 0..self.insts.len() {
			let mut e = vec![];
			for (id, p) in self.arguments(&self.insts[i].kind) {
				self.exps_in(id, p, &mut e);
			}
			e.sort_unstable();
			e.dedup();
			self.insts[i].exps = e;
			for v in self.syms(&self.insts[i].kind.clone()).iter().flat_map(Sym::vars) {
				self.uses[v as usize].push(i as u32);
			}
		}
	}
	fn arguments(&self, k: &Kind) -> Vec<(OracleId, usize)> {
		match *k {
			Kind::Zero(s, c, p) => {
				let set = &self.cs.table_constraints[s];
				set.constraints[c].composition.vars_usage().iter().enumerate().filter(|x| *x.1).map(|(i, _)| (set.oracle_ids[i], p)).collect()
			}
			Kind::NonZero(id, p) => vec![(id, p)],
			Kind::In(f, p, _) => self.cs.flushes[f].oracles.iter().filter_map(|x| if let OracleOrConst::Oracle(i) = x { Some((*i, p)) } else { None }).collect(),
		}
	}
	fn exps_in(&self, id: OracleId, p: usize, out: &mut Vec<(usize, usize)>) {
		if let Some(&e) = self.exp_of.get(&id) {
			out.push((e, p));
			return;
		}
		match &self.o[id].variant {
			MultilinearPolyVariant::LinearCombination(l) => l.polys().for_each(|i| self.exps_in(i, p, out)),
			MultilinearPolyVariant::Composite(c) => c.polys().for_each(|i| self.exps_in(i, p, out)),
			_ => {}
		}
	}
	fn circuit(&self, c: &ArithCircuit<B128>, arg: &dyn Fn(usize) -> Sym) -> Sym {
		let mut st: Vec<Sym> = vec![];
		for s in c.steps() {
			let x = match *s {
				ArithCircuitStep::Add(a, b) => add(st[a].clone(), st[b].clone()),
				ArithCircuitStep::Mul(a, b) => mul(st[a].clone(), st[b].clone()),
				ArithCircuitStep::Pow(a, e) => match st[a].konst() {
					Some(x) => Sym::c(pow(x, e as u128)),
					None => Sym::Top(st[a].vars()),
				},
				ArithCircuitStep::Const(c) => Sym::c(c),
				ArithCircuitStep::Var(v) => arg(v),
			};
			st.push(x);
		}
		st.pop().unwrap()
	}
	fn bits_point(n: usize, i: usize) -> Vec<B128> {
		(0..n).map(|b| B128::new((i >> b & 1) as u128)).collect()
	}
	pub fn eval(&self, id: OracleId, i: usize) -> Sym {
		let p = &self.o[id];
		if let Some(&e) = self.exp_of.get(&id) {
			let e = &self.cs.exponents[e];
			let bits: Vec<Sym> = e.bits_ids.iter().map(|&b| self.eval(b, i)).collect();
			let base = match e.base {
				OracleOrConst::Oracle(b) => self.eval(b, i),
				OracleOrConst::Const { base, .. } => Sym::c(base),
			};
			if let (Some(b), true) = (base.konst(), bits.iter().all(|x| x.konst().is_some())) {
				let (mut r, mut b) = (B128::ONE, b);
				for x in &bits {
					if x.konst() == Some(B128::ONE) {
						r *= b;
					}
					b *= b;
				}
				return Sym::c(r);
			}
			return Sym::Top(bits.iter().fold(base.vars(), |a, x| union(a, x.vars())));
		}
		let (n, lv) = (p.n_vars, p.tower_level);
		match &p.variant {
			MultilinearPolyVariant::Committed => {
				let w = 1usize << lv;
				let v = self.var0[&id] as usize + i * w;
				let (mut c, mut r) = (0u128, vec![]);
				for b in 0..w {
					match self.known[v + b] {
						Some(x) => c |= (x as u128) << b,
						None => r.push(((v + b) as u32, B128::new(1 << b))),
					}
				}
				Sym::Aff(B128::new(c), r)
			}
			MultilinearPolyVariant::Transparent(t) => Sym::c(t.poly().evaluate(&Self::bits_point(n, i)).unwrap()),
			MultilinearPolyVariant::Structured(c) => Sym::c(c.evaluate(&Self::bits_point(n, i)).unwrap()),
			MultilinearPolyVariant::Repeating { id, .. } => self.eval(*id, i & ((1 << self.o.n_vars(*id)) - 1)),
			MultilinearPolyVariant::Projected(q) => {
				let (vals, s) = (q.values(), q.start_index());
				let (lo, hi) = (i & ((1 << s) - 1), i >> s);
				let mut r = Sym::c(B128::ZERO);
				for j in 0..1usize << vals.len() {
					let w: B128 = vals.iter().enumerate().map(|(b, &x)| if j >> b & 1 == 1 { x } else { x + B128::ONE }).product();
					if w != B128::ZERO {
						r = add(r, scale(self.eval(q.id(), lo | j << s | hi << (s + vals.len())), w));
					}
				}
				r
			}
			MultilinearPolyVariant::Shifted(q) => {
				let (b, k) = (1usize << q.block_size(), q.shift_offset());
				let (base, j) = (i & !(b - 1), i & (b - 1));
				match q.shift_variant() {
					ShiftVariant::CircularLeft => self.eval(q.id(), base | (j + b - k) % b),
					ShiftVariant::LogicalLeft if j >= k => self.eval(q.id(), base | (j - k)),
					ShiftVariant::LogicalRight if j + k < b => self.eval(q.id(), base | (j + k)),
					_ => Sym::c(B128::ZERO),
				}
			}
			MultilinearPolyVariant::Packed(q) => {
				let (d, l) = (q.log_degree(), self.o[q.id()].tower_level);
				(0..1usize << d).fold(Sym::c(B128::ZERO), |a, j| add(a, scale(self.eval(q.id(), i << d | j), B128::new(1 << (j << l)))))
			}
			MultilinearPolyVariant::LinearCombination(q) => {
				q.polys().zip(q.coefficients()).fold(Sym::c(q.offset()), |a, (x, c)| add(a, scale(self.eval(x, i), c)))
			}
			MultilinearPolyVariant::ZeroPadded(q) => {
				let (s, d) = (q.start_index(), q.n_pad_vars());
				let mid = i >> s & ((1 << d) - 1);
				if mid == q.nonzero_index() { self.eval(q.id(), i & ((1 << s) - 1) | i >> (s + d) << s) } else { Sym::c(B128::ZERO) }
			}
			MultilinearPolyVariant::Composite(q) => {
				let ids: Vec<_> = q.polys().collect();
				self.circuit(&CompositionPoly::<B128>::expression(q.c()), &|v| self.eval(ids[v], i))
			}
		}
	}
	fn syms(&self, k: &Kind) -> Vec<Sym> {
		match *k {
			Kind::Zero(s, c, p) => {
				let set = &self.cs.table_constraints[s];
				vec![self.circuit(&set.constraints[c].composition, &|v| self.eval(set.oracle_ids[v], p))]
			}
			Kind::NonZero(id, p) => vec![self.eval(id, p)],
			Kind::In(f, p, _) => self.cs.flushes[f]
				.oracles
				.iter()
				.map(|x| match x {
					OracleOrConst::Oracle(i) => self.eval(*i, p),
					OracleOrConst::Const { base, .. } => Sym::c(*base),
				})
				.collect(),
		}
	}
	/// whether a condition all of whose cells are known holds
	fn holds(&self, k: &Kind, s: &[Sym]) -> Option<bool> {
		let v: Option<Vec<B128>> = s.iter().map(Sym::konst).collect();
		v.map(|v| match *k {
			Kind::Zero(..) => v[0] == B128::ZERO,
			Kind::NonZero(..) => v[0] != B128::ZERO,
			Kind::In(_, _, t) => self.sets[t].contains(&v.iter().map(|x| x.val()).collect::<Vec<_>>()),
		})
	}
	fn set(&mut self, v: u32, x: bool, work: &mut Vec<u32>) {
		if self.known[v as usize].is_none() {
			self.known[v as usize] = Some(x);
			self.trail.push(v);
			work.extend(&self.uses[v as usize]);
		}
	}
	fn undo(&mut self, to: usize) {
		while self.trail.len() > to {
			let v = self.trail.pop().unwrap();
			self.known[v as usize] = None;
		}
	}
	/// Draws the conclusions of conditions in `work` until nothing new follows; false on contradiction.
	fn propagate(&mut self, mut work: Vec<u32>) -> bool {
		let mut queued: HashSet<u32> = work.iter().copied().collect();
		let mut at = 0;
		while at < work.len() {
			let i = work[at];
			at += 1;
			queued.remove(&i);
			self.steps += 1;
			let mut new = vec![];
			if !self.process(i as usize, &mut new) {
				return false;
			}
			for n in new {
				if queued.insert(n) {
					work.push(n);
				}
			}
		}
		true
	}
	fn process(&mut self, i: usize, work: &mut Vec<u32>) -> bool {
		let kind = self.insts[i].kind.clone();
		let s = self.syms(&kind);
		if let Some(h) = self.holds(&kind, &s) {
			return h;
		}
		if let (Kind::Zero(..), Sym::Aff(c, v)) = (&kind, &s[0]) {
			return self.linear(*c, v, work);
		}
		let vars = s.iter().fold(vec![], |a, x| union(a, x.vars()));
		if vars.len() <= if matches!(kind, Kind::In(..)) { 8 } else { 9 } {
			let (mut can0, mut can1) = (0u32, 0u32);
			for m in 0..1u32 << vars.len() {
				for (b, &v) in vars.iter().enumerate() {
					self.known[v as usize] = Some(m >> b & 1 == 1);
				}
				if self.holds(&kind, &self.syms(&kind)) == Some(true) {
					can1 |= m;
					can0 |= !m;
				}
			}
			for &v in &vars {
				self.known[v as usize] = None;
			}
			for (b, &v) in vars.iter().enumerate() {
				match (can0 >> b & 1, can1 >> b & 1) {
					(0, 0) => return false,
					(0, 1) => self.set(v, true, work),
					(1, 0) => self.set(v, false, work),
					_ => {}
				}
			}
			return true;
		}
		if self.insts[i].exps.is_empty() { true } else { self.powers(i, &kind, &vars, work) }
	}
	/// a0 + sum a_v * bit_v = 0 over the bits of the field
	fn linear(&mut self, c: B128, v: &[(u32, B128)], work: &mut Vec<u32>) -> bool {
		// vectors over GF(2), one per bit of the field: unknown bits and the right-hand side
		let w = v.len() / 64 + 1;
		let mut rows: Vec<(Vec<u64>, bool)> = vec![];
		for b in 0..128 {
			let mut r = vec![0u64; w];
			for (k, x) in v.iter().enumerate() {
				if x.1.val() >> b & 1 == 1 {
					r[k / 64] |= 1 << (k % 64);
				}
			}
			let rhs = c.val() >> b & 1 == 1;
			if rhs || r.iter().any(|&x| x != 0) {
				rows.push((r, rhs));
			}
		}
		let mut done = 0;
		for k in 0..v.len() {
			let bit = |r: &(Vec<u64>, bool)| r.0[k / 64] >> (k % 64) & 1 == 1;
			let Some(p) = (done..rows.len()).find(|&r| bit(&rows[r])) else { continue };
			rows.swap(done, p);
			let piv = rows[done].clone();
			for (r, row) in rows.iter_mut().enumerate() {
				if r != done && bit(row) {
					for (a, b) in row.0.iter_mut().zip(&piv.0) {
						*a ^= b;
					}
					row.1 ^= piv.1;
				}
			}
			done += 1;
		}
		for (r, rhs) in rows {
			let n: u32 = r.iter().map(|x| x.count_ones()).sum();
			if n == 0 && rhs {
				return false;
			}
			if n == 1 {
				let k = r.iter().enumerate().map(|(i, x)| if *x != 0 { i * 64 + x.trailing_zeros() as usize } else { 0 }).sum::<usize>();
				self.set(v[k].0, rhs, work);
			}
		}
		true
	}
	/// Conditions on powers: the exponents that give the honest ones' value differ by multiples of the base's order.
	fn powers(&mut self, i: usize, kind: &Kind, vars: &[u32], work: &mut Vec<u32>) -> bool {
		// exponents with unknown bits and a constant base, lowest first
		let mut es: Vec<(Vec<Option<u32>>, Vec<bool>, B128)> = vec![];
		let mut from: Vec<(usize, usize)> = vec![];
		let mut all: HashSet<u32> = vars.iter().copied().collect();
		for &(e, p) in &self.insts[i].exps {
			let ex = &self.cs.exponents[e];
			let bits: Vec<Sym> = ex.bits_ids.iter().map(|&b| self.eval(b, p)).collect();
			if bits.iter().all(|b| b.konst().is_some()) {
				continue;
			}
			let base = match ex.base {
				OracleOrConst::Const { base, .. } => base,
				OracleOrConst::Oracle(b) => match self.eval(b, p).konst() {
					Some(b) => b,
					None => return true,
				},
			};
			let (mut vs, mut hs) = (vec![], vec![]);
			for b in &bits {
				match b {
					Sym::Aff(c, v) if v.is_empty() => {
						vs.push(None);
						hs.push(*c == B128::ONE);
					}
					Sym::Aff(c, v) if v.len() == 1 && *c == B128::ZERO && v[0].1 == B128::ONE => {
						all.remove(&v[0].0);
						vs.push(Some(v[0].0));
						hs.push(self.honest[v[0].0 as usize]);
					}
					_ => return true,
				}
			}
			es.push((vs, hs, base));
			from.push((e, p));
		}
		if !all.is_empty() || es.is_empty() || es.len() > 2 || es.iter().any(|e| e.2 == B128::ZERO) {
			return true;
		}
		if es.len() == 2 {
			let shift = |e: &(Vec<Option<u32>>, Vec<bool>, B128)| (0..e.0.len()).fold(e.2, |b, _| b * b);
			if shift(&es[0]) != es[1].2 {
				es.swap(0, 1);
				from.swap(0, 1);
			}
			if shift(&es[0]) != es[1].2 {
				return true;
			}
		}
		let n: usize = es.iter().map(|e| e.0.len()).sum();
		if n > 128 {
			return true;
		}
		let flat: Vec<Option<u32>> = es.iter().flat_map(|e| e.0.clone()).collect();
		let hb: Vec<bool> = es.iter().flat_map(|e| e.1.clone()).collect();
		std::mem::swap(&mut self.known, &mut self.all_honest);
		let v: u128 = from.iter().flat_map(|&(e, p)| self.cs.exponents[e].bits_ids.iter().map(move |&b| (b, p))).enumerate().map(|(k, (b, p))| (self.eval(b, p).konst().unwrap().val() & 1) << k).sum();
		std::mem::swap(&mut self.known, &mut self.all_honest);
		let ord = order(es[0].2);
		let mut cand = vec![v];
		for j in 1..=4u128 {
			cand.extend(ord.checked_mul(j).and_then(|d| v.checked_add(d)));
			cand.extend(ord.checked_mul(j).and_then(|d| v.checked_sub(d)));
		}
		cand.extend(&self.hints);
		cand.sort_unstable();
		cand.dedup();
		cand.retain(|&x| n == 128 || x >> n == 0);
		// known bits that are not the honest ones: an exponent this way does not reach
		let mut ok = vec![];
		for x in cand {
			if flat.iter().enumerate().any(|(b, f)| f.is_none() && (x >> b & 1 == 1) != hb[b]) {
				continue;
			}
			for (b, f) in flat.iter().enumerate() {
				if let Some(f) = f {
					self.known[*f as usize] = Some(x >> b & 1 == 1);
				}
			}
			if self.holds(kind, &self.syms(kind)) == Some(true) {
				ok.push(x);
			}
			for f in flat.iter().flatten() {
				self.known[*f as usize] = None;
			}
		}
		if ok.is_empty() {
			// the honest exponent is none either, or a bit was set otherwise: no exponent left
			return false;
		}
		for (b, f) in flat.iter().enumerate() {
			if let Some(f) = f {
				let one = ok.iter().filter(|&&x| x >> b & 1 == 1).count();
				if one == 0 || one == ok.len() {
					self.set(*f, one > 0, work);
				}
			}
		}
		true
	}
	/// Conditions the honest cells break.
	pub fn broken(&mut self) -> Vec<String> {
		let keep = self.known.clone();
		for v in 0..self.cells.len() {
			self.known[v] = Some(self.honest[v]);
		}
		let mut r = vec![];
		for i in &self.insts {
			if self.holds(&i.kind, &self.syms(&i.kind)) != Some(true) {
				r.push(match i.kind {
					Kind::Zero(s, c, p) => format!("{} at {p}", self.cs.table_constraints[s].constraints[c].name),
					ref k => format!("{k:?}"),
				});
			}
		}
		self.known = keep;
		r
	}
	/// Another set of cells with the same inputs that meets every condition and differs in an output; Err(n): the search gave
	/// up on n outputs.
	pub fn another(&mut self, output: impl Fn(&str) -> bool, budget: usize) -> Result<Option<Vec<bool>>, usize> {
		self.trail.clear();
		if !self.propagate((0..self.insts.len() as u32).collect()) {
			// nothing meets the conditions: reported as a broken honest witness
			return Ok(None);
		}
		let outs: Vec<u32> = (0..self.cells.len() as u32).filter(|&v| output(self.name(self.cells[v as usize].0))).collect();
		for &v in &outs {
			if self.known[v as usize].is_some_and(|x| x != self.honest[v as usize]) {
				return Ok(Some(self.known.iter().zip(&self.honest).map(|(k, h)| k.unwrap_or(*h)).collect()));
			}
		}
		let mut unsure = 0;
		for &v in &outs {
			if self.known[v as usize].is_some() {
				continue;
			}
			let mark = self.trail.len();
			let limit = self.steps + budget;
			let mut w = vec![];
			self.set(v, !self.honest[v as usize], &mut w);
			if self.propagate(w) {
				match self.complete(limit) {
					Some(true) => return Ok(Some(self.known.iter().map(|x| x.unwrap()).collect())),
					Some(false) => {}
					None => unsure += 1,
				}
			}
			self.undo(mark);
			// the flipped value leads nowhere: what follows from the other
			let mut w = vec![];
			self.set(v, self.honest[v as usize], &mut w);
			self.propagate(w);
		}
		if unsure == 0 { Ok(None) } else { Err(unsure) }
	}
	/// rows of the first table, by its longest column of a result
	pub fn table_rows(&self) -> usize {
		self.cells.iter().filter(|c| self.name(c.0).starts_with("o_")).map(|c| c.1).max().unwrap_or(0) + 1
	}
	pub fn begin(&mut self) {
		self.trail.clear();
		self.propagate((0..self.insts.len() as u32).collect());
	}
	pub fn mark(&self) -> usize {
		self.trail.len()
	}
	pub fn back(&mut self, mark: usize) {
		self.undo(mark);
	}
	/// Bits of value i of the columns `pre` names.
	pub fn bits(&self, pre: impl Fn(&str) -> bool, i: usize) -> Vec<u32> {
		(0..self.cells.len() as u32).filter(|&v| self.cells[v as usize].1 == i && pre(self.name(self.cells[v as usize].0))).collect()
	}
	/// Sets cells and draws conclusions; false on contradiction.
	pub fn assume(&mut self, cells: &[(u32, bool)]) -> bool {
		let mut w = vec![];
		for &(v, x) in cells {
			if self.known[v as usize].is_some_and(|y| y != x) {
				return false;
			}
			self.set(v, x, &mut w);
		}
		self.propagate(w)
	}
	/// The cells with `cells` so set and every condition met, if the search finds them.
	pub fn with(&mut self, cells: &[(u32, bool)], hints: Vec<u128>, budget: usize) -> Option<Vec<bool>> {
		let mark = self.trail.len();
		self.hints = hints;
		let limit = self.steps + budget;
		let r = self.assume(cells) && self.complete(limit) == Some(true);
		let out = r.then(|| self.known.iter().map(|x| x.unwrap()).collect());
		self.undo(mark);
		self.hints.clear();
		out
	}
	fn complete(&mut self, limit: usize) -> Option<bool> {
		let Some(v) = (0..self.cells.len()).find(|&v| self.known[v].is_none() && !self.uses[v].is_empty()) else {
			for v in 0..self.cells.len() {
				if self.known[v].is_none() {
					self.known[v] = Some(self.honest[v]);
					self.trail.push(v as u32);
				}
			}
			return Some(true);
		};
		for x in [self.honest[v], !self.honest[v]] {
			if self.steps > limit {
				return None;
			}
			let mark = self.trail.len();
			let mut w = vec![];
			self.set(v as u32, x, &mut w);
			if self.propagate(w) {
				match self.complete(limit) {
					Some(true) => return Some(true),
					None => return None,
					Some(false) => {}
				}
			}
			self.undo(mark);
		}
		Some(false)
	}
	/// Values of every column for the given cells.
	pub fn table(&mut self, cells: &[bool]) -> Vec<(OracleId, usize, Vec<B128>)> {
		for (k, &c) in self.known.iter_mut().zip(cells) {
			*k = Some(c);
		}
		let ids: Vec<_> = self.o.iter().map(|(id, p)| (id, p.n_vars, p.tower_level)).collect();
		ids.into_iter().map(|(id, n, lv)| (id, lv, (0..1usize << n).map(|i| self.eval(id, i).konst().unwrap()).collect())).collect()
	}
}
