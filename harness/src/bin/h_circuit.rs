//! Replays the specification's arithmetic circuits: every way of building, rewriting, converting and evaluating one must give the values of its polynomial.
use std::sync::{
	Arc,
	atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_core::composition::{FixedDimIndexCompositions, IndexComposition, ProductComposition, index_composition};
use binius_fast_compute::arith_circuit::ArithCircuitPoly;
use binius_field::*;
use binius_m3::builder::{Col, ConstraintSystem, Expr, upcast_expr};
use binius_math::{ArithCircuit, ArithCircuitStep, ArithExpr, CompositionPoly, RowsBatch, RowsBatchRef};
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use vharness::{
	fm::{Fm, short, vals},
	*,
};

static CHECKED: AtomicUsize = AtomicUsize::new(0);
fn bad(what: String, c: &Value) {
	violation(what, c.clone());
}
fn exponent(v: &Value) -> u64 {
	nums(v).iter().rev().fold(0, |a, b| a << 1 | b)
}
struct C<'a> {
	v: &'a Value,
	pts: Vec<Vec<u64>>,
	vals: Vec<u64>,
}
fn raw_steps<F: Fm>(c: &Value) -> Vec<ArithCircuitStep<F>> {
	arr(&c["steps"])
		.iter()
		.map(|s| match st(&s["o"]) {
			"add" => ArithCircuitStep::Add(us(&s["a"]), us(&s["b"])),
			"mul" => ArithCircuitStep::Mul(us(&s["a"]), us(&s["b"])),
			"pow" => ArithCircuitStep::Pow(us(&s["a"]), exponent(&s["e"])),
			"const" => ArithCircuitStep::Const(F::of(u(&s["v"]))),
			_ => ArithCircuitStep::Var(us(&s["v"])),
		})
		.collect()
}
/// the circuit with exactly these steps
fn raw<F: Fm + TowerField + SerializeBytes + DeserializeBytes>(c: &Value) -> ArithCircuit<F> {
	let mut buf = vec![];
	raw_steps::<F>(c).serialize(&mut buf, SerializationMode::Native).unwrap();
	ArithCircuit::deserialize(&buf[..], SerializationMode::Native).unwrap()
}
fn exprs<F: Fm>(c: &Value) -> Vec<Arc<ArithExpr<F>>> {
	let mut out: Vec<Arc<ArithExpr<F>>> = vec![];
	for s in raw_steps::<F>(c) {
		let e = match s {
			ArithCircuitStep::Add(a, b) => ArithExpr::Add(out[a].clone(), out[b].clone()),
			ArithCircuitStep::Mul(a, b) => ArithExpr::Mul(out[a].clone(), out[b].clone()),
			ArithCircuitStep::Pow(a, e) => ArithExpr::Pow(out[a].clone(), e),
			ArithCircuitStep::Const(v) => ArithExpr::Const(v),
			ArithCircuitStep::Var(i) => ArithExpr::Var(i),
		};
		out.push(Arc::new(e));
	}
	out
}
fn tree_size(c: &Value) -> usize {
	let mut n: Vec<usize> = vec![];
	for s in arr(&c["steps"]) {
		let k = match st(&s["o"]) {
			"add" | "mul" => 1 + n[us(&s["a"])] + n[us(&s["b"])],
			"pow" => 1 + n[us(&s["a"])],
			_ => 1,
		};
		n.push(k);
	}
	n[n.len() - 1]
}
/// the circuit built with operators
fn by_ops<F: Fm>(c: &Value) -> ArithCircuit<F> {
	let mut out: Vec<ArithCircuit<F>> = vec![];
	for (i, s) in raw_steps::<F>(c).into_iter().enumerate() {
		out.push(match s {
			ArithCircuitStep::Add(a, b) => match i % 4 {
				0 => out[a].clone() + out[b].clone(),
				1 => out[a].clone() - out[b].clone(),
				2 => {
					let mut x = out[a].clone();
					x += out[b].clone();
					x
				}
				_ => [out[a].clone(), out[b].clone()].into_iter().sum(),
			},
			ArithCircuitStep::Mul(a, b) => match i % 3 {
				0 => out[a].clone() * out[b].clone(),
				1 => {
					let mut x = out[a].clone();
					x *= out[b].clone();
					x
				}
				_ => [out[a].clone(), out[b].clone()].into_iter().product(),
			},
			ArithCircuitStep::Pow(a, e) => out[a].clone().pow(e),
			ArithCircuitStep::Const(v) if v == F::ZERO => ArithCircuit::zero(),
			ArithCircuitStep::Const(v) if v == F::ONE => ArithCircuit::one(),
			ArithCircuitStep::Const(v) => ArithCircuit::constant(v),
			ArithCircuitStep::Var(i) => ArithCircuit::var(i),
		});
	}
	out.pop().unwrap()
}
/// the expression built with operators on expressions
fn expr_ops<F: Fm>(c: &Value) -> ArithExpr<F> {
	let mut out: Vec<ArithExpr<F>> = vec![];
	for (i, s) in raw_steps::<F>(c).into_iter().enumerate() {
		out.push(match s {
			ArithCircuitStep::Add(a, b) => match i % 6 {
				0 => out[a].clone() + out[b].clone(),
				1 => out[a].clone() - out[b].clone(),
				2 => out[a].clone() + Arc::new(out[b].clone()),
				3 => out[a].clone() - Arc::new(out[b].clone()),
				4 => {
					let mut x = out[a].clone();
					if i % 5 == 0 {
						x += Arc::new(out[b].clone());
					} else {
						x -= out[b].clone();
					}
					x
				}
				_ => [out[a].clone(), out[b].clone()].into_iter().sum(),
			},
			ArithCircuitStep::Mul(a, b) => match i % 4 {
				0 => out[a].clone() * out[b].clone(),
				1 => out[a].clone() * Arc::new(out[b].clone()),
				2 => {
					let mut x = out[a].clone();
					x *= out[b].clone();
					x
				}
				_ => [out[a].clone(), out[b].clone()].into_iter().product(),
			},
			ArithCircuitStep::Pow(a, e) => out[a].clone().pow(e),
			ArithCircuitStep::Const(v) => ArithExpr::Const(v),
			ArithCircuitStep::Var(i) => ArithExpr::Var(i),
		});
	}
	out.pop().unwrap()
}
/// the expression over table columns; None if it is not one (a constant on its own)
fn over_columns(c: &Value) -> Option<(Expr<B16, 1>, Vec<usize>)> {
	enum E {
		C(Col<B16>),
		E(Expr<B16, 1>),
		K(B16),
	}
	let nv = us(&c["nv"]);
	let mut cs = ConstraintSystem::<B128>::new();
	let mut table = cs.add_table("t");
	let cols: Vec<Col<B16>> = (0..nv).map(|i| table.add_committed(format!("c{i}"))).collect();
	let index = cols.iter().map(|x| match Expr::from(*x).expr() { ArithExpr::Var(i) => *i, _ => unreachable!() }).collect();
	let mut out: Vec<Option<E>> = vec![];
	for (k, s) in raw_steps::<B16>(c).into_iter().enumerate() {
		macro_rules! op {
			($a:expr, $b:expr, $o:tt) => {
				match (out[$a].as_ref(), out[$b].as_ref()) {
					(Some(E::C(x)), Some(E::C(y))) => Some(E::E(*x $o *y)),
					(Some(E::C(x)), Some(E::E(y))) => Some(E::E(*x $o y.clone())),
					(Some(E::E(x)), Some(E::C(y))) => Some(E::E(x.clone() $o *y)),
					(Some(E::E(x)), Some(E::E(y))) => Some(E::E(x.clone() $o y.clone())),
					(Some(E::C(x)), Some(E::K(y))) | (Some(E::K(y)), Some(E::C(x))) => Some(E::E(*x $o *y)),
					(Some(E::E(x)), Some(E::K(y))) | (Some(E::K(y)), Some(E::E(x))) => Some(E::E(x.clone() $o *y)),
					_ => None,
				}
			};
		}
		let e = match s {
			ArithCircuitStep::Add(a, b) if k % 2 == 0 => op!(a, b, +),
			ArithCircuitStep::Add(a, b) => op!(a, b, -),
			ArithCircuitStep::Mul(a, b) => op!(a, b, *),
			ArithCircuitStep::Pow(a, e) => match out[a].as_ref() {
				Some(E::C(x)) => Some(E::E(Expr::from(*x).pow(e))),
				Some(E::E(x)) => Some(E::E(x.clone().pow(e))),
				_ => None,
			},
			ArithCircuitStep::Const(v) => Some(E::K(v)),
			ArithCircuitStep::Var(i) => Some(E::C(cols[i])),
		};
		out.push(e);
	}
	match out.pop().unwrap() {
		Some(E::E(e)) => Some((e, index)),
		Some(E::C(x)) => Some((x.into(), index)),
		_ => None,
	}
}

impl C<'_> {
	fn eq<F: Fm>(&self, what: &str, circuit: &ArithCircuit<F>, pts: &[Vec<u64>], want: &[u64]) {
		for (p, w) in pts.iter().zip(want) {
			let x: Vec<F> = p.iter().map(|v| F::of(*v)).collect();
			CHECKED.fetch_add(1, SeqCst);
			match guarded(|| circuit.evaluate(&x)) {
				Ok(Ok(v)) if v == F::of(*w) => {}
				r => return bad(format!("{what} over {}: value {r:?}, not {w}", short::<F>()), self.v),
			}
		}
	}
	/// everything reported about a circuit that denotes this polynomial
	fn facts<F: Fm + TowerField>(&self, what: &str, k: &ArithCircuit<F>, exact: bool) {
		let c = self.v;
		self.eq(what, k, &self.pts, &self.vals);
		let deg = u(&c["deg"]);
		if deg < 100000 {
			match guarded(|| k.degree()) {
				Ok(d) if exact && d as u64 == deg || !exact && d as u64 <= deg && d as u64 >= u(&c["low"]) => {}
				r => bad(format!("{what}: degree {r:?}, formal {deg}, at least {}", c["low"]), c),
			}
			let lines = arr(&c["lines"]);
			if !lines.is_empty() {
				let lead = guarded(|| (k.degree(), k.leading_term()));
				let Ok((d, lead)) = lead else { return bad(format!("{what}: leading term: {:?}", lead.err()), c) };
				let want: Vec<u64> = lines.iter().map(|l| nums(l).get(d).copied().unwrap_or(0)).collect();
				self.eq(&format!("{what}, leading term"), &lead, &self.pts, &want);
			}
		}
		match guarded(|| k.binary_tower_level()) {
			Ok(l) if short::<F>().contains("AES") => _ = l,
			Ok(l) if exact && l as u64 == u(&c["level"]) || !exact && l as u64 <= u(&c["level"]) && l as u64 >= u(&c["need"]) => {}
			r => bad(format!("{what}: tower level {r:?}"), c),
		}
		let used: Vec<usize> = nums(&c["used"]).into_iter().map(|x| x as usize).collect();
		let n = used.iter().max().map_or(0, |m| m + 1);
		match guarded(|| (k.n_vars(), k.vars_usage())) {
			Ok((m, us)) if us.len() == m && (0..m).all(|i| !us[i] || used.contains(&i)) && m <= n && (!exact || m == n && used.iter().all(|i| us[*i])) => {}
			r => bad(format!("{what}: variables {r:?}"), c),
		}
		match guarded(|| k.get_constant()) {
			Ok(None) if !exact || st(&arr(&c["steps"]).last().unwrap()["o"]) != "const" => {}
			Ok(Some(v)) if self.vals.iter().all(|w| F::of(*w) == v) => {}
			r => bad(format!("{what}: constant {r:?}"), c),
		}
		match guarded(|| k.linear_normal_form()) {
			Ok(Ok(f)) => {
				if u(&c["low"]) > 1 {
					bad(format!("{what}: linear normal form of a polynomial of degree {}", c["low"]), c);
				}
				for (p, w) in self.pts.iter().zip(&self.vals) {
					let mut v = f.constant;
					for (i, a) in f.var_coeffs.iter().enumerate() {
						v += *a * p.get(i).map_or(F::ZERO, |x| F::of(*x));
					}
					if v != F::of(*w) {
						return bad(format!("{what}: linear normal form gives {v:?}, not {w}"), c);
					}
				}
			}
			Ok(Err(_)) if deg > 1 => {}
			r => bad(format!("{what}: no linear normal form: {:?}", r.map(|x| x.err())), c),
		}
		let cost = guarded(|| k.eval_cost());
		match cost {
			Ok(e) if !exact || e.n_adds as u64 == u(&c["cost"]["adds"]) && e.n_muls as u64 == u(&c["cost"]["muls"]) && e.n_squares as u64 == u(&c["cost"]["squares"]) => {}
			r => bad(format!("{what}: cost {:?}", r.map(|e| (e.n_adds, e.n_muls, e.n_squares))), c),
		}
	}
	/// a composition's values, one assignment a lane and one a column
	fn composition<P: PackedField<Scalar: Fm>>(&self, what: &str, k: &dyn CompositionPoly<P>, pts: &[Vec<u64>], want: &[u64]) {
		let n = pts[0].len();
		let at = |v: u64| P::Scalar::of(v);
		let cell = |s: usize, i: usize| P::from_scalars((0..P::WIDTH).map(|l| at(pts[(s + l) % pts.len()][i])));
		let out = |s: usize| P::from_scalars((0..P::WIDTH).map(|l| at(want[(s + l) % pts.len()])));
		let what = format!("{what} with {}", short::<P>());
		for s in 0..3 {
			CHECKED.fetch_add(1, SeqCst);
			let q: Vec<P> = (0..n).map(|i| cell(s, i)).collect();
			match guarded(|| k.evaluate(&q)) {
				Ok(Ok(v)) if v == out(s) => {}
				r => return bad(format!("{what}: evaluate {r:?}, not {:?}", out(s)), self.v),
			}
		}
		for q in [vec![P::zero(); n + 1], vec![P::zero(); n.saturating_sub(1)]] {
			if q.len() != n && !matches!(guarded(|| k.evaluate(&q).is_err()), Ok(true) | Err(_)) {
				bad(format!("{what}: evaluated with {} inputs instead of {n}", q.len()), self.v);
			}
		}
		for (len, off) in [(0usize, 0usize), (1, 0), (3, 0), (5, 2), (8, 1)] {
			let rows: Vec<Vec<P>> = (0..n).map(|i| (0..len + off + 1).map(|s| cell(s, i)).collect()).collect();
			let refs: Vec<&[P]> = rows.iter().map(|r| &r[..]).collect();
			let batch = RowsBatchRef::new_with_offset(&refs, off, len);
			let mut evals = vec![P::one(); len];
			CHECKED.fetch_add(1, SeqCst);
			match guarded(|| k.batch_evaluate(&batch, &mut evals)) {
				Ok(Ok(())) if (0..len).all(|s| evals[s] == out(s + off)) => {}
				r => return bad(format!("{what}: batch of {len} at {off}: {r:?} {evals:?}"), self.v),
			}
			let mut wrong = vec![P::one(); len + 1];
			if let Ok(Ok(())) = guarded(|| k.batch_evaluate(&batch, &mut wrong)) {
				bad(format!("{what}: batch of {len} rows evaluated to {} values", len + 1), self.v);
			}
			if off == 0 {
				let whole = RowsBatch::new_from_iter(refs.iter().copied(), len);
				let mut evals = vec![P::one(); len];
				match guarded(|| k.batch_evaluate(&whole.get_ref(), &mut evals)) {
					Ok(Ok(())) if (0..len).all(|s| evals[s] == out(s)) => {}
					r => return bad(format!("{what}: batch of {len}: {r:?} {evals:?}"), self.v),
				}
			}
		}
		if k.n_vars() != n {
			bad(format!("{what}: {} variables, not {n}", k.n_vars()), self.v);
		}
		let e = guarded(|| k.expression());
		match e {
			Ok(e) => self.eq(&format!("{what}: expression"), &e, pts, want),
			Err(e) => bad(format!("{what}: expression: {e}"), self.v),
		}
	}
	fn compiled<F: Fm + TowerField, P: PackedField<Scalar: Fm + ExtensionField<F>>>(&self, what: &str, k: &ArithCircuit<F>) {
		let c = self.v;
		let nv = us(&c["nv"]);
		match guarded(|| ArithCircuitPoly::with_n_vars(nv, k.clone())) {
			Ok(Ok(p)) => {
				self.composition::<P>(&format!("{what} compiled"), &p, &self.pts, &self.vals);
				self.facts("the expression of the compiled circuit", p.expr(), false);
				let (d, l) = (CompositionPoly::<P>::degree(&p), CompositionPoly::<P>::binary_tower_level(&p));
				if u(&c["deg"]) < 100000 && (d as u64 > u(&c["deg"]) || (d as u64) < u(&c["low"])) {
					bad(format!("{what} compiled: degree {d}"), c);
				}
				if !short::<F>().contains("AES") && (l as u64 > u(&c["level"]) || (l as u64) < u(&c["need"])) {
					bad(format!("{what} compiled: tower level {l}"), c);
				}
				// through a larger query
				let ren = &c["ren"];
				let ix: Vec<usize> = nums(&ren["ix"]).into_iter().map(|x| x as usize).collect();
				let pts: Vec<Vec<u64>> = arr(&ren["pts"]).iter().map(nums).collect();
				let want = nums(&ren["vals"]);
				let m = us(&ren["m"]);
				macro_rules! indexed {
					($($n:literal),*) => {$(
						if nv == $n {
							let a: [usize; $n] = ix.clone().try_into().unwrap();
							let ic = IndexComposition::new(m, a, p.clone()).unwrap();
							self.composition::<P>(&format!("{what} indexed"), &ic, &pts, &want);
							let mut out = a;
							out[$n - 1] = m;
							if IndexComposition::new(m, out, p.clone()).is_ok() {
								bad("an index composition reaches beyond its query".to_string(), c);
							}
							let names: Vec<String> = (0..m).map(|i| format!("n{i}")).collect();
							let fi = index_composition(&names, a.map(|i| format!("n{i}")), p.clone()).unwrap();
							self.composition::<P>(&format!("{what} indexed by name"), &fi, &pts, &want);
							if index_composition(&names, a.map(|i| format!("n{}", i + m)), p.clone()).is_ok() {
								bad("an index composition names what its query does not have".to_string(), c);
							}
						}
					)*};
				}
				indexed!(1, 2, 3, 4, 5);
				if nv == 2 {
					let f = FixedDimIndexCompositions::Bivariate(IndexComposition::new(m, [ix[0], ix[1]], p.clone()).unwrap());
					self.composition::<P>(&format!("{what} bivariate"), &f, &pts, &want);
				}
				if nv == 3 {
					let f = FixedDimIndexCompositions::Trivariate(IndexComposition::new(m, [ix[0], ix[1], ix[2]], p.clone()).unwrap());
					self.composition::<P>(&format!("{what} trivariate"), &f, &pts, &want);
				}
			}
			r => return bad(format!("{what}: not compiled: {r:?}"), c),
		}
		match guarded(|| ArithCircuitPoly::new(k.clone())) {
			Ok(p) => {
				let n = CompositionPoly::<P>::n_vars(&p);
				let pts: Vec<Vec<u64>> = self.pts.iter().map(|p| p[..n].to_vec()).collect();
				self.composition::<P>(&format!("{what} compiled as is"), &p, &pts, &self.vals);
				if n > 0 && matches!(guarded(|| ArithCircuitPoly::with_n_vars(n - 1, k.clone())), Ok(Ok(_))) {
					bad(format!("{what}: compiled for fewer variables than it reads"), c);
				}
			}
			r => bad(format!("{what}: not compiled: {:?}", r.err()), c),
		}
	}
	fn field<F: Fm + TowerField + SerializeBytes + DeserializeBytes, P: PackedField<Scalar: Fm + ExtensionField<F>>>(&self) {
		let c = self.v;
		let k: ArithCircuit<F> = raw(c);
		self.facts("circuit", &k, true);
		self.facts("optimized", &k.clone().optimize(), false);
		self.facts("optimized twice", &k.clone().optimize().optimize(), false);
		self.facts("with constants folded", &k.clone().optimize_constants(), false);
		let es = exprs::<F>(c);
		let e: ArithExpr<F> = (**es.last().unwrap()).clone();
		self.facts("circuit of a shared expression", &ArithCircuit::from(&e), false);
		let back: ArithExpr<F> = ArithExpr::from(&k);
		self.facts("circuit of the circuit's expression", &ArithCircuit::from(&back), false);
		if ArithCircuit::from(&back) != k || ArithCircuit::from(e.clone()) != k {
			bad("a circuit differs from the circuit of its expression".to_string(), c);
		}
		if k.clone() + ArithCircuit::one() == k || ArithCircuit::from(&(back + ArithExpr::one())) == k {
			bad("two different circuits are equal".to_string(), c);
		}
		if tree_size(c) <= 300 {
			let b = by_ops::<F>(c);
			self.facts("circuit built with operators", &b, false);
			self.facts("circuit built with operators, optimized", &b.clone().optimize(), false);
			self.facts("expression built with operators", &ArithCircuit::from(expr_ops::<F>(c)), false);
			self.compiled::<F, P>("circuit built with operators", &b);
		}
		self.compiled::<F, P>("circuit", &k);
		let sum: ArithCircuit<F> = (0..3).map(|_| k.clone()).sum();
		self.eq("sum of three", &sum, &self.pts, &self.vals);
		// one variable fixed, variables renamed
		let (sub, ren) = (&c["sub"], &c["ren"]);
		let s = k.clone().const_subst(us(&sub["v"]), F::of(u(&sub["c"])));
		self.eq("with a variable fixed", &s, &self.pts, &nums(&sub["vals"]));
		self.eq("with a variable fixed, optimized", &s.optimize(), &self.pts, &nums(&sub["vals"]));
		let ix: Vec<usize> = nums(&ren["ix"]).into_iter().map(|x| x as usize).collect();
		let pts: Vec<Vec<u64>> = arr(&ren["pts"]).iter().map(nums).collect();
		match guarded(|| k.remap_vars(&ix)) {
			Ok(Ok(r)) => {
				self.eq("renamed", &r, &pts, &nums(&ren["vals"]));
				self.eq("renamed, optimized", &r.optimize(), &pts, &nums(&ren["vals"]));
			}
			r => bad(format!("not renamed: {r:?}"), c),
		}
		let n = k.n_vars();
		if n > 0 && matches!(guarded(|| k.remap_vars(&ix[..n - 1])), Ok(Ok(_))) {
			bad("renamed with fewer names than variables".to_string(), c);
		}
	}
	fn convert(&self) {
		let c = self.v;
		let k: ArithCircuit<B16> = raw(c);
		self.eq("converted", &k.convert_field::<B128>(), &self.pts, &self.vals);
		self.eq("converted", &k.convert_field::<BinaryField32b>(), &self.pts, &self.vals);
		self.eq("converted", &k.convert_field::<AESTowerField16b>(), &self.pts, &self.vals);
		let big: ArithCircuit<B128> = raw(c);
		self.eq("converted", &big.convert_field::<BinaryField128bPolyval>(), &self.pts, &self.vals);
		macro_rules! narrow {
			($($t:ident $m:literal),*) => {$(
				let fits = arr(&c["steps"]).iter().all(|s| st(&s["o"]) != "const" || u(&s["v"]) < $m);
				match guarded(|| big.try_convert_field::<$t>()) {
					Ok(Ok(r)) if fits => {
						let sel: Vec<usize> = (0..self.pts.len()).filter(|i| self.pts[*i].iter().all(|x| *x < $m)).collect();
						self.eq("narrowed", &r, &sel.iter().map(|i| self.pts[*i].clone()).collect::<Vec<_>>(), &sel.iter().map(|i| self.vals[*i]).collect::<Vec<_>>());
					}
					Ok(Err(_)) if !fits => {}
					r => bad(format!("narrowed to {}: {:?}", stringify!($t), r.map(|x| x.is_ok())), c),
				}
			)*};
		}
		narrow!(BinaryField1b 2, BinaryField8b 256, BinaryField16b 65536, BinaryField64b 65536);
		if tree_size(c) <= 300 {
			if let Some((e, index)) = over_columns(c) {
				let m = index.iter().max().unwrap() + 1;
				let pts: Vec<Vec<u64>> = self.pts.iter().map(|p| { let mut q = vec![7; m]; for (i, x) in index.iter().enumerate() { q[*x] = p[i]; } q }).collect();
				self.eq("expression over columns", &ArithCircuit::from(e.expr()), &pts, &self.vals);
				let d = u(&c["deg"]);
				if d < 100000 && (e.degree() as u64 != d) {
					bad(format!("expression over columns: degree {}, not {d}", e.degree()), c);
				}
				let up: Expr<B128, 1> = upcast_expr(e);
				self.eq("upcast expression over columns", &ArithCircuit::from(up.expr()), &pts, &self.vals);
			}
		}
		// products of all variables
		let x: Vec<Vec<B16>> = self.pts.iter().map(|p| p.iter().map(|v| B16::new(*v as u16)).collect()).collect();
		macro_rules! prods {
			($($n:literal),*) => {$(if us(&c["nv"]) == $n {
				let want: Vec<u64> = x.iter().map(|p| u16::from(p.iter().copied().product::<B16>()) as u64).collect();
				self.composition::<PackedBinaryField8x16b>("product", &ProductComposition::<$n>, &self.pts, &want);
				if ProductComposition::<$n>.degree() != $n { bad("product: degree".to_string(), c); }
			})*};
		}
		prods!(1, 2, 3, 4, 5);
	}
}

fn case(v: &Value, i: usize) {
	let c = C { v, pts: arr(&v["pts"]).iter().map(nums).collect(), vals: nums(&v["vals"]) };
	c.field::<B16, PackedBinaryField8x16b>();
	c.convert();
	match i % 5 {
		0 => c.field::<AESTowerField16b, PackedAESBinaryField16x16b>(),
		1 => c.field::<B128, PackedBinaryField2x128b>(),
		2 => c.field::<B16, BinaryField128b>(),
		3 => c.field::<BinaryField32b, PackedBinaryField16x32b>(),
		_ => c.field::<B16, PackedBinaryField4x32b>(),
	}
	let small = |x: &u64| *x < 256;
	if arr(&v["steps"]).iter().all(|s| st(&s["o"]) != "const" || small(&u(&s["v"]))) {
		let k: ArithCircuit<BinaryField8b> = raw(v);
		if u(&v["sub"]["c"]) < 256 && us(&v["nv"]) > 0 {
			match guarded(|| ArithCircuitPoly::with_n_vars(us(&v["nv"]), k)) {
				Ok(Ok(p)) => c.composition::<PackedBinaryField8x16b>("8-bit constants", &p, &c.pts, &c.vals),
				r => bad(format!("8-bit constants: {r:?}"), v),
			}
		}
	}
	let _ = vals::<B16>;
}
fn main() {
	init();
	let cases = read_ndjson(&args()[1]);
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..6 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, SeqCst);
					if i >= cases.len() {
						break;
					}
					if let Err(e) = guarded(|| case(&cases[i], i)) {
						bad(format!("harness: {e}"), &cases[i]);
					}
				}
			});
		}
	});
	summary(json!({"cases": cases.len(), "checked": CHECKED.load(SeqCst)}));
}
