//! Replays Multilinear.tla on every packing: evaluations, folds, adapters, interpolation and linear algebra.
use std::{
	mem::MaybeUninit,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_field::{arch::ArchOptimal, packed::set_packed_slice, *};
use binius_math::{Error, *};
use vharness::{fm::*, *};

static CHECKED: AtomicUsize = AtomicUsize::new(0);
fn bad(what: String, c: &Value) {
	violation(what, c.clone());
}
fn tick(n: usize) {
	CHECKED.fetch_add(n, SeqCst);
}
type Opt<F> = <F as ArchOptimal>::OptimalThroughputPacked;

/// the outcome of a call that has to succeed, with the values it has to give
fn want<P: PackedField>(what: &str, r: Result<Result<Vec<P>, Error>, String>, w: &[P::Scalar], c: &Value) {
	tick(w.len());
	match r {
		Ok(Ok(g)) => {
			if let Some(d) = differs(&g, w) {
				bad(format!("{what}: {d}"), c)
			}
		}
		Ok(Err(e)) => bad(format!("{what}: {e:?}"), c),
		Err(e) => bad(format!("{what}: {e}"), c),
	}
}
fn want_mle<P: PackedField>(what: &str, r: Result<Result<MultilinearExtension<P>, Error>, String>, n: usize, w: &[P::Scalar], c: &Value) {
	if let Ok(Ok(m)) = &r {
		if m.n_vars() != n || m.size() != w.len() {
			bad(format!("{what}: {} variables", m.n_vars()), c);
		}
	}
	want(what, r.map(|x| x.map(|m| m.into_evals())), w, c)
}
fn want_one<F: Field>(what: &str, r: Result<Result<F, Error>, String>, w: F, c: &Value) {
	tick(1);
	match r {
		Ok(Ok(g)) if g == w => (),
		r => bad(format!("{what}: {r:?}, not {w:?}"), c),
	}
}
fn refused<T>(what: &str, r: Result<Result<T, Error>, String>, c: &Value) {
	tick(1);
	if let Ok(Ok(_)) = r {
		bad(format!("{what} is not refused"), c)
	}
}

fn init_of<P: PackedField>(n: usize) -> Vec<MaybeUninit<P>> {
	(0..n).map(|_| MaybeUninit::new(P::broadcast(P::Scalar::ONE))).collect()
}
fn taken<P: PackedField>(v: Vec<MaybeUninit<P>>) -> Vec<P> {
	// Safety: made by init_of
	v.into_iter().map(|x| unsafe { x.assume_init() }).collect()
}
fn plen<P: PackedField>(log: usize) -> usize {
	1 << log.saturating_sub(P::LOG_WIDTH)
}

/// partial evaluation: extensions, queries made in several ways
fn mle<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>>>(c: &Value) {
	let (n, q, s) = (us(&c["n"]), us(&c["q"]), us(&c["s"]));
	let (ev, pt, out) = (vals::<P::Scalar>(&c["ev"]), vals::<PE::Scalar>(&c["pt"]), vals::<PE::Scalar>(&c["out"]));
	let what = format!("{} at {}", short::<P>(), short::<PE>());
	let m = match MultilinearExtension::new(n, pack_dirty::<P>(&ev)) {
		Ok(m) => m,
		Err(e) => return bad(format!("{what}: new {e:?}"), c),
	};
	let query = MultilinearQuery::<PE>::expand(&pt);
	want_mle(&format!("evaluate_partial, {what}"), guarded(|| m.evaluate_partial(&query, s)), n - q, &out, c);
	let cut = us(&c["seed"]) % (q + 1);
	let grown = guarded(|| MultilinearQuery::<PE>::with_capacity(q + us(&c["seed"]) % 2).update(&pt[..cut]).and_then(|x| x.update(&pt[cut..])));
	match grown {
		Ok(Ok(g)) => {
			if g.n_vars() != q || g.expansion().len() != plen::<PE>(q) || (0..1 << q).any(|i| packed::get_packed_slice(g.expansion(), i) != packed::get_packed_slice(query.expansion(), i)) {
				bad(format!("query grown at {cut}, {what}"), c);
			}
			refused("growing a query beyond its capacity", guarded(|| g.update(&vec![PE::Scalar::ONE; PE::LOG_WIDTH + 2])), c);
		}
		r => bad(format!("query grown at {cut}, {what}: {:?}", r.map(|x| x.map(|_| ()))), c),
	}
	if s == 0 {
		want_mle(&format!("evaluate_partial_low, {what}"), guarded(|| m.evaluate_partial_low(&query)), n - q, &out, c);
		let mut o = vec![PE::broadcast(PE::Scalar::ONE); plen::<PE>(n - q)];
		want(&format!("evaluate_partial_low_into, {what}"), guarded(|| m.evaluate_partial_low_into(query.to_ref(), &mut o)).map(|r| r.map(|_| o)), &out, c);
	}
	if s + q == n {
		want_mle(&format!("evaluate_partial_high, {what}"), guarded(|| m.evaluate_partial_high(&query)), n - q, &out, c);
	} else {
		refused("evaluation of too few variables", guarded(|| m.evaluate::<PE::Scalar, PE>(&query)), c);
	}
	if q == n {
		want_one(&format!("evaluate, {what}"), guarded(|| m.evaluate::<PE::Scalar, PE>(&query)), out[0], c);
		let r = m.to_ref();
		want_one(&format!("evaluate of a reference, {what}"), guarded(|| r.evaluate::<PE::Scalar, PE>(&query)), out[0], c);
	}
	// beyond the variables there are
	refused("partial evaluation beyond the last variable", guarded(|| m.evaluate_partial(&query, n - q + 1)), c);
	let mut long = pt.clone();
	long.resize(n + 1, PE::Scalar::ONE);
	let long = MultilinearQuery::<PE>::expand(&long);
	refused("low query that is too long", guarded(|| m.evaluate_partial_low(&long)), c);
	refused("high query that is too long", guarded(|| m.evaluate_partial_high(&long)), c);
	refused("query that is too long", guarded(|| m.evaluate::<PE::Scalar, PE>(&long)), c);
	for i in 0..1 << n {
		if m.evaluate_on_hypercube(i).ok() != Some(ev[i]) {
			return bad(format!("vertex {i}, {what}"), c);
		}
	}
	refused("vertex beyond the last", guarded(|| m.evaluate_on_hypercube(1 << n)), c);
	refused("a variable more than there are values", guarded(|| MultilinearExtension::new(n.max(P::LOG_WIDTH) + 1, pack::<P>(&ev))), c);
	if n >= P::LOG_WIDTH {
		if n > P::LOG_WIDTH {
			refused("a variable less than there are values", guarded(|| MultilinearExtension::new(n - 1, pack::<P>(&ev))), c);
		}
		let mut odd = pack::<P>(&ev);
		odd.push(P::zero());
		if odd.len() > 2 {
			refused("a number of values that is no power of two", guarded(|| MultilinearExtension::from_values(odd)), c);
		}
		if n >= P::LOG_WIDTH {
			let z = MultilinearExtension::<P>::zeros(n);
			if !z.is_ok_and(|z| z.n_vars() == n && z.evals() == vec![P::zero(); plen::<P>(n)]) || MultilinearExtension::from_values(pack::<P>(&ev)).map(|m| m.n_vars()).ok() != Some(n) || MultilinearExtension::from_values_slice(&pack::<P>(&ev)).map(|m| m.n_vars()).ok() != Some(n) {
				bad(format!("number of variables, {what}"), c);
			}
		}
	}
}

/// the multilinear as one over an extension
fn poly<P: PackedField>(what: &str, m: &dyn MultilinearPoly<P>, ext: usize, c: &Value)
where
	P::Scalar: Fm,
{
	let (n, q, s) = (us(&c["n"]), us(&c["q"]), us(&c["s"]));
	let (ev, pt, out) = (vals::<P::Scalar>(&c["ev"]), vals::<P::Scalar>(&c["pt"]), vals::<P::Scalar>(&c["out"]));
	let query = MultilinearQuery::<P>::expand(&pt);
	let query = query.to_ref();
	if m.n_vars() != n || m.size() != ev.len() || m.log_extension_degree() != ext {
		bad(format!("{what}: size"), c);
	}
	want_mle(&format!("{what} evaluate_partial"), guarded(|| m.evaluate_partial(query, s)), n - q, &out, c);
	if q == n {
		want_one(&format!("{what} evaluate"), guarded(|| m.evaluate(query)), out[0], c);
	}
	let k = us(&c["seed"]) % ev.len();
	want_one(&format!("{what} vertex {k}"), guarded(|| m.evaluate_on_hypercube(k)), ev[k], c);
	want_one(&format!("{what} scaled vertex {k}"), guarded(|| m.evaluate_on_hypercube_and_scale(k, out[0])), ev[k] * out[0], c);
	let rest = n - q;
	for sub in 0..=rest {
		let idx = [0, (1 << (rest - sub)) - 1, us(&c["seed"]) % (1 << (rest - sub))];
		for &i in &idx {
			let part = &out[i << sub..(i + 1) << sub];
			let mut o = vec![P::broadcast(P::Scalar::ONE); plen::<P>(sub)];
			if s == 0 {
				want_mle(&format!("{what} evaluate_partial_low"), guarded(|| m.evaluate_partial_low(query)), rest, &out, c);
				want(&format!("{what} subcube {i} of {sub} variables, low"), guarded(|| m.subcube_partial_low_evals(query, sub, i, &mut o)).map(|r| r.map(|_| o.clone())), part, c);
			}
			if s + q == n {
				want_mle(&format!("{what} evaluate_partial_high"), guarded(|| m.evaluate_partial_high(query)), rest, &out, c);
				want(&format!("{what} subcube {i} of {sub} variables, high"), guarded(|| m.subcube_partial_high_evals(query, sub, i, &mut o)).map(|r| r.map(|_| o.clone())), part, c);
			}
		}
		let mut o = vec![P::zero(); plen::<P>(sub)];
		refused(&format!("{what}: subcube beyond the last, low"), guarded(|| m.subcube_partial_low_evals(query, sub, 1 << (rest - sub), &mut o)), c);
		refused(&format!("{what}: subcube beyond the last, high"), guarded(|| m.subcube_partial_high_evals(query, sub, 1 << (rest - sub), &mut o)), c);
		let mut o = vec![P::zero(); plen::<P>(sub) + 1];
		refused(&format!("{what}: room of another size, low"), guarded(|| m.subcube_partial_low_evals(query, sub, 0, &mut o)), c);
		refused(&format!("{what}: room of another size, high"), guarded(|| m.subcube_partial_high_evals(query, sub, 0, &mut o)), c);
	}
	let mut o = vec![P::zero(); plen::<P>(rest + 1)];
	refused(&format!("{what}: subcube that is too large"), guarded(|| m.subcube_partial_low_evals(query, rest + 1, 0, &mut o)), c);
}
fn adapted<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>> + RepackedExtension<P>>(c: &Value) {
	let n = us(&c["n"]);
	let Ok(m) = MultilinearExtension::new(n, pack::<P>(&vals(&c["ev"]))) else { return };
	let a: MLEEmbeddingAdapter<P, PE> = m.clone().specialize();
	poly::<PE>(&format!("{} in {}", short::<P>(), short::<PE>()), &a, <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE, c);
	let e: either::Either<MLEEmbeddingAdapter<P, PE>, MLEEmbeddingAdapter<P, PE>> = either::Either::Right(a);
	poly::<PE>(&format!("either {} in {}", short::<P>(), short::<PE>()), &e, <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE, c);
}
fn direct<P: PackedField<Scalar: Fm>>(c: &Value) {
	let Ok(m) = MultilinearExtension::new(us(&c["n"]), pack::<P>(&vals(&c["ev"]))) else { return };
	poly::<P>(&format!("direct {}", short::<P>()), &MLEDirectAdapter::from(m), 0, c);
}
/// the values of a subcube as coordinates: a value of 2^lv bits at each stride
fn embed<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>> + RepackedExtension<P>>(of: impl Fn(u128) -> PE::Scalar, c: &Value) {
	let (n, sub, i, deg, lv) = (us(&c["n"]), us(&c["sub"]), us(&c["i"]), us(&c["deg"]), us(&c["lv"]));
	let what = format!("values of {} in {}", short::<P>(), short::<PE>());
	let ext = <PE::Scalar as ExtensionField<P::Scalar>>::LOG_DEGREE;
	let Ok(m) = MultilinearExtension::new(n, pack::<P>(&vals(&c["ev"]))) else { return };
	let m: MLEEmbeddingAdapter<P, PE> = m.specialize();
	let mut o = vec![PE::broadcast(PE::Scalar::ONE); 1 << sub.saturating_sub(deg + PE::LOG_WIDTH)];
	if deg > ext {
		return refused(&format!("{what}: more than the degree"), guarded(|| m.subcube_evals(sub, i, deg, &mut o)), c);
	}
	let w: Vec<PE::Scalar> = arr(&c["groups"])
		.iter()
		.map(|g| of(nums(g).iter().enumerate().fold(0u128, |a, (k, &x)| a | (x as u128) << ((k << (ext - deg)) << lv))))
		.collect();
	want(&what, guarded(|| m.subcube_evals(sub, i, deg, &mut o)).map(|r| r.map(|_| o.clone())), &w, c);
	refused(&format!("{what}: subcube beyond the last"), guarded(|| m.subcube_evals(sub, 1 << (n - sub), deg, &mut o)), c);
	let mut o2 = vec![PE::zero(); o.len() + 1];
	refused(&format!("{what}: room of another size"), guarded(|| m.subcube_evals(sub, i, deg, &mut o2)), c);
	let mut o2 = vec![PE::zero(); 1 << (n + 1usize).saturating_sub(deg + PE::LOG_WIDTH)];
	refused(&format!("{what}: subcube that is too large"), guarded(|| m.subcube_evals(n + 1, 0, deg, &mut o2)), c);
	if n >= P::LOG_WIDTH {
		// the packed form is the same values, as many to a scalar as fit
		let all: Vec<u64> = nums(&c["ev"]);
		let w: Vec<PE::Scalar> = all.chunks(1 << ext).map(|g| of(g.iter().enumerate().fold(0u128, |a, (k, &x)| a | (x as u128) << (k << lv)))).collect();
		match m.packed_evals() {
			Some(g) => want(&format!("{what}, packed"), Ok(Ok(g.to_vec())), &w, c),
			None => bad(format!("{what}: no packed values"), c),
		}
	}
}

/// weights that need not be a tensor
fn fold<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>>>(c: &Value) {
	let (n, q, s) = (us(&c["n"]), us(&c["q"]), us(&c["s"]));
	let (ev, w, out) = (vals::<P::Scalar>(&c["ev"]), vals::<PE::Scalar>(&c["w"]), vals::<PE::Scalar>(&c["out"]));
	let what = format!("{} by {}", short::<P>(), short::<PE>());
	let (e, qq) = (pack::<P>(&ev), pack_dirty::<PE>(&w));
	let room = plen::<PE>(n - q);
	// more values than are to be folded, and room for what a fold of them all would give
	let mut more = e.clone();
	more.resize(2 * e.len() + 1, P::broadcast(P::Scalar::ONE));
	let wide = 8 * (room + 2) + (more.len() * P::WIDTH).div_ceil(PE::WIDTH);
	let guarded_by = PE::broadcast(PE::Scalar::ONE);
	for (evs, how) in [(&e, "exactly"), (&more, "more")] {
		let what = format!("{what}, {how} the values");
		if s == 0 {
			let mut o = vec![guarded_by; wide];
			let r = guarded(|| fold_right(evs, n, &qq, q, &mut o[..room]));
			if o[room..].iter().any(|x| *x != guarded_by) {
				bad(format!("fold_right, {what}: writes beyond the room given"), c);
			}
			want(&format!("fold_right, {what}"), r.map(|r| r.map(|_| o)), &out, c);
		}
		if s + q == n {
			let mut o = init_of::<PE>(wide);
			let r = guarded(|| fold_left(evs, n, &qq, q, &mut o[..room]));
			let o = taken(o);
			if o[room..].iter().any(|x| *x != guarded_by) {
				bad(format!("fold_left, {what}: writes beyond the room given"), c);
			}
			want(&format!("fold_left, {what}"), r.map(|r| r.map(|_| o)), &out, c);
		}
		let mut o = init_of::<PE>(room);
		want(&format!("fold_middle, {what}"), guarded(|| fold_middle(evs, n, &qq, q, s, &mut o)).map(|r| r.map(|_| taken(o))), &out, c);
	}
	// too little of anything
	let mut o = init_of::<PE>(wide);
	let mut o2 = vec![guarded_by; wide];
	refused("fold of fewer values than stated", guarded(|| fold_left(&e, n.max(P::LOG_WIDTH) + 1, &qq, q, &mut o)), c);
	refused("fold of fewer values than stated", guarded(|| fold_right(&e, n.max(P::LOG_WIDTH) + 1, &qq, q, &mut o2)), c);
	refused("fold by fewer weights than stated", guarded(|| fold_left(&more, n, &qq, q.max(PE::LOG_WIDTH) + 1, &mut o)), c);
	refused("fold by fewer weights than stated", guarded(|| fold_right(&more, n, &qq, q.max(PE::LOG_WIDTH) + 1, &mut o2)), c);
	refused("fold into less room than needed", guarded(|| fold_left(&e, n, &qq, q, &mut o[..room - 1])), c);
	refused("fold into less room than needed", guarded(|| fold_right(&e, n, &qq, q, &mut o2[..room - 1])), c);
	refused("fold into less room than needed", guarded(|| fold_middle(&e, n, &qq, q, s, &mut o[..room - 1])), c);
	refused("fold beyond the last variable", guarded(|| fold_middle(&e, n, &qq, q, n - q + 1, &mut o[..room])), c);
}

fn pad<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>>>(c: &Value) {
	let (n, p, s, z) = (us(&c["n"]), us(&c["p"]), us(&c["s"]), us(&c["z"]));
	let what = format!("{} padded in {}", short::<P>(), short::<PE>());
	let e = pack::<P>(&vals(&c["ev"]));
	let Ok(m) = MultilinearExtension::new(n, e.clone()) else { return };
	let r = guarded(|| m.zero_pad::<PE>(p, s, z));
	let mut o = vec![PE::zero(); plen::<PE>(n + p)];
	let r2 = guarded(|| zero_pad(&e, n, n + p, s, z, &mut o));
	if c["ok"] == json!(true) {
		let w = vals::<PE::Scalar>(&c["out"]);
		want_mle(&what, r, n + p, &w, c);
		want(&what, r2.map(|r| r.map(|_| o)), &w, c);
	} else {
		refused(&what, r, c);
		refused(&what, r2, c);
	}
}

fn lerp<P: PackedField<Scalar: Fm>, PE: PackedField<Scalar: Fm + ExtensionField<P::Scalar>>>(c: &Value) {
	let len = us(&c["len"]);
	let what = format!("{} by {}", short::<P>(), short::<PE>());
	let e = pack_dirty::<P>(&vals(&c["ev"]));
	let (x, suffix) = (PE::Scalar::of(u(&c["x"])), P::Scalar::of(u(&c["suffix"])));
	let w = &vals::<PE::Scalar>(&c["low"])[..len.div_ceil(2)];
	let room = w.len().div_ceil(PE::WIDTH);
	let mut o = vec![PE::broadcast(PE::Scalar::ONE); room];
	want(&format!("fold_right_lerp, {what}"), guarded(|| fold_right_lerp(&e, len, x, suffix, &mut o)).map(|r| r.map(|_| o.clone())), w, c);
	refused("lerp of fewer values than stated", guarded(|| fold_right_lerp(&e, e.len() * P::WIDTH + 1, x, suffix, &mut vec![PE::zero(); 99])), c);
	if room > 0 {
		refused("lerp into less room than needed", guarded(|| fold_right_lerp(&e, len, x, suffix, &mut o[1..])), c);
	}
}
fn lerp_left<P: PackedField<Scalar: Fm>>(c: &Value) {
	let (n, len) = (us(&c["n"]), us(&c["len"]));
	let what = short::<P>();
	let (x, suffix) = (P::Scalar::of(u(&c["x"])), P::Scalar::of(u(&c["suffix"])));
	// the last element is filled up with the suffix
	let mut v = vals::<P::Scalar>(&c["ev"]);
	v.resize(len.next_multiple_of(P::WIDTH), suffix);
	let e = pack::<P>(&v);
	let k = len.min(1 << (n - 1));
	let w = &vals::<P::Scalar>(&c["high"])[..k];
	let mut o = init_of::<P>(k.div_ceil(P::WIDTH));
	want(&format!("fold_left_lerp, {what}"), guarded(|| fold_left_lerp(&e, len, suffix, n, x, &mut o)).map(|r| r.map(|_| taken(o))), w, c);
	let mut m = e.clone();
	want(&format!("fold_left_lerp_inplace, {what}"), guarded(|| fold_left_lerp_inplace(&mut m, len, suffix, n, x)).map(|r| r.map(|_| m.clone())), w, c);
	// without a suffix the whole result is made
	if len == 1 << n {
		let mut o = init_of::<P>(plen::<P>(n - 1));
		let w = vals::<P::Scalar>(&c["high"]);
		want(&format!("fold_left_lerp of all, {what}"), guarded(|| fold_left_lerp(&e, len, suffix, n, x, &mut o)).map(|r| r.map(|_| taken(o))), &w, c);
	}
	let mut m = e.clone();
	m.resize((2 << n) / P::WIDTH + 2, P::zero());
	refused("lerp of more values than the hypercube has", guarded(|| fold_left_lerp_inplace(&mut m, (1 << n) + 1, suffix, n, x)), c);
	refused("lerp of a constant", guarded(|| fold_left_lerp_inplace(&mut m, 1, suffix, 0, x)), c);
	if len > 0 {
		refused("lerp of fewer values than stated", guarded(|| fold_left_lerp(&e[1..], len, suffix, n, x, &mut init_of(99))), c);
		refused("lerp into less room than needed", guarded(|| fold_left_lerp(&e, len, suffix, n, x, &mut init_of(k.div_ceil(P::WIDTH) - 1))), c);
	}
}

fn eq<P: PackedField<Scalar: Fm>>(c: &Value) {
	let (n, q) = (us(&c["n"]), us(&c["q"]));
	let (v, pt, e, out) = (vals::<P::Scalar>(&c["v"]), vals::<P::Scalar>(&c["pt"]), vals::<P::Scalar>(&c["eq"]), vals::<P::Scalar>(&c["out"]));
	let what = short::<P>();
	want(&format!("eq_ind_partial_eval {what}"), guarded(|| Ok(eq_ind_partial_eval::<P>(&pt))), &e, c);
	want(&format!("expand {what}"), guarded(|| Ok(MultilinearQuery::<P>::expand(&pt).into_expansion())), &e, c);
	let mut b = vec![P::broadcast(P::Scalar::ONE); plen::<P>(n + q)];
	for (i, x) in v.iter().enumerate() {
		set_packed_slice(&mut b, i, *x);
	}
	let start = b.clone();
	want(&format!("tensor_prod_eq_ind {what}"), guarded(|| tensor_prod_eq_ind(n, &mut b, &pt)).map(|r| r.map(|_| b.clone())), &out, c);
	let mut long = start.clone();
	long.push(P::zero());
	refused("tensor of another size", guarded(|| tensor_prod_eq_ind(n, &mut long, &pt)), c);
	if n + q > P::LOG_WIDTH {
		refused("tensor of another size", guarded(|| tensor_prod_eq_ind(n, &mut start.clone()[1..], &pt)), c);
		refused("query of fewer values", guarded(|| MultilinearQuery::<P>::with_expansion(n + q, start[1..].to_vec())), c);
	}
}

fn piece<F: Fm>(c: &Value) {
	let pt = vals::<F>(&c["pt"]);
	let mut by = vec![0; nums(&c["pieces"]).iter().map(|&x| x as usize + 1).max().unwrap_or(0)];
	for p in nums(&c["pieces"]) {
		by[p as usize] += 1;
	}
	if c["ok"] == json!(true) {
		let ev = vals::<F>(&c["evals"]);
		want_one(&format!("pieces in {}", short::<F>()), guarded(|| evaluate_piecewise_multilinear(&pt, &by, &mut ev.clone())), F::of(u(&c["out"])), c);
		let mut more = ev.clone();
		more.push(F::ONE);
		refused("a value more than there are pieces", guarded(|| evaluate_piecewise_multilinear(&pt, &by, &mut more)), c);
		if !ev.is_empty() {
			refused("a value less than there are pieces", guarded(|| evaluate_piecewise_multilinear(&pt, &by, &mut ev.clone()[1..])), c);
		}
	} else {
		let mut ev = vec![F::ONE; by.iter().sum()];
		refused("pieces that are too long", guarded(|| evaluate_piecewise_multilinear(&pt, &by, &mut ev)), c);
	}
}

fn uni<F: Fm, FE: Fm + ExtensionField<F>, PE: PackedExtension<F> + PackedField<Scalar = FE>>(c: &Value) {
	let pts = vals::<F>(&c["pts"]);
	let inf = c["inf"] == json!(1);
	let what = format!("{} from {}", short::<PE>(), short::<F>());
	let d = guarded(|| EvaluationDomain::from_points(pts.clone(), inf));
	if c["ok"] != json!(true) {
		return refused("a point given twice", d, c);
	}
	let d = match d {
		Ok(Ok(d)) => d,
		r => return bad(format!("domain {what}: {r:?}"), c),
	};
	let (co, x, y, v, lag) = (vals::<FE>(&c["co"]), FE::of(u(&c["x"])), FE::of(u(&c["y"])), vals::<FE>(&c["vals"]), vals::<FE>(&c["lag"]));
	if d.size() != v.len() || d.finite_points() != pts || d.with_infinity() != inf {
		bad(format!("domain {what}: size"), c);
	}
	want(&format!("lagrange {what}"), guarded(|| Ok(d.lagrange_evals(x))), &lag, c);
	want_one(&format!("extrapolate {what}"), guarded(|| d.extrapolate(&v, x)), y, c);
	want_one(&format!("evaluate {what}"), guarded(|| Ok(evaluate_univariate(&co, x))), y, c);
	// several polynomials at once: lane k has its values multiplied by k + 2
	let sc = |k: usize| FE::of(k as u64 + 2);
	let pv: Vec<PE> = v.iter().map(|&a| PE::from_fn(|k| a * sc(k))).collect();
	let want_p: Vec<FE> = (0..PE::WIDTH).map(|k| y * sc(k)).collect();
	want(&format!("extrapolate packed {what}"), guarded(|| d.extrapolate(&pv, x)).map(|r| r.map(|p| vec![p])), &want_p, c);
	let i = match guarded(|| InterpolationDomain::from(d.clone())) {
		Ok(i) => i,
		Err(e) => return bad(format!("interpolation {what}: {e}"), c),
	};
	if i.size() != v.len() || i.finite_points() != pts || i.with_infinity() != inf {
		bad(format!("interpolation domain {what}: size"), c);
	}
	want(&format!("interpolate {what}"), guarded(|| i.interpolate(&v)), &co, c);
	want(&format!("extrapolate packed by the interpolation domain {what}"), guarded(|| i.extrapolate(&pv, x)).map(|r| r.map(|p| vec![p])), &want_p, c);
	let mut more = v.clone();
	more.push(FE::ONE);
	refused("a value too many", guarded(|| d.extrapolate(&more, x)), c);
	refused("a value too many", guarded(|| i.interpolate(&more)), c);
	if !v.is_empty() {
		refused("a value too few", guarded(|| d.extrapolate(&v[1..], x)), c);
		refused("a value too few", guarded(|| i.interpolate(&v[1..])), c);
	}
	if c["canon"] == json!(1) && (inf == (v.len() >= 3)) {
		match guarded(|| EvaluationDomainFactory::<BinaryField16b>::create(&DefaultEvaluationDomainFactory::<BinaryField16b>::default(), v.len())) {
			Ok(Ok(e)) if e.size() == v.len() && e.with_infinity() == inf && e.finite_points() == vals::<BinaryField16b>(&c["pts"]) => (),
			r => bad(format!("default domain: {r:?}"), c),
		}
		match guarded(|| EvaluationDomainFactory::<AESTowerField16b>::create(&IsomorphicEvaluationDomainFactory::<BinaryField16b>::default(), v.len())) {
			Ok(Ok(e)) if e.size() == v.len() && e.with_infinity() == inf && e.finite_points() == vals::<AESTowerField16b>(&c["pts"]) => (),
			r => bad(format!("isomorphic domain: {r:?}"), c),
		}
	}
	if pts.len() == 2 && !inf && pts[0] == F::ZERO && pts[1] == F::ONE {
		want_one(&format!("line {what}"), guarded(|| Ok(extrapolate_line_scalar(v[0], v[1], x))), y, c);
		let lanes = guarded(|| Ok(extrapolate_lines(pv[0], pv[1], PE::broadcast(x)))).map(|r| r.map(|p| vec![p]));
		want(&format!("lines {what}"), lanes, &want_p, c);
		if let Ok(z) = TryInto::<F>::try_into(x) {
			want(&format!("line from a subfield {what}"), guarded(|| Ok(vec![extrapolate_line::<PE, F>(pv[0], pv[1], z)])), &want_p, c);
		}
	}
}

fn mat<F: Fm, FE: Fm + ExtensionField<F>>(c: &Value) {
	let (n, m) = (us(&c["n"]), us(&c["m"]));
	let flat = |v: &Value| -> Vec<F> { arr(v).iter().flat_map(|r| vals::<F>(r)).collect() };
	let what = short::<F>();
	let (a, b) = (Matrix::new(n, n, &flat(&c["a"])).expect("square"), Matrix::new(n, m, &flat(&c["b"])).expect("size"));
	if Matrix::new(n, n + 1, &flat(&c["a"])).is_ok() && n > 0 {
		bad("takes a matrix of another size".into(), c);
	}
	let mut inv = Matrix::new(n, n, &vec![F::ONE; n * n]).expect("square");
	let r = guarded(|| a.inverse_into(&mut inv));
	if c["ok"] == json!(true) {
		want(&format!("inverse {what}"), r.map(|r| r.map(|_| inv.elements().to_vec())), &flat(&c["inv"]), c);
	} else {
		refused("a singular matrix", r, c);
	}
	let mut ab = Matrix::new(n, m, &vec![F::ONE; n * m]).expect("size");
	want(&format!("product {what}"), guarded(|| Matrix::mul_into(&a, &b, &mut ab)).map(|_| Ok(ab.elements().to_vec())), &flat(&c["ab"]), c);
	let v = vals::<FE>(&c["v"]);
	let mut av = vec![FE::ONE; n];
	want(&format!("product with a vector {what}"), guarded(|| a.mul_vec_into(&v, &mut av)).map(|_| Ok(av.clone())), &vals::<FE>(&c["av"]), c);
	let sum: Vec<F> = b.elements().iter().zip(ab.elements()).map(|(x, y)| *x + *y).collect();
	want(&format!("sum {what}"), guarded(|| Ok((&b + &ab).elements().to_vec())), &sum, c);
	want(&format!("difference {what}"), guarded(|| Ok((&b - &ab).elements().to_vec())), &sum, c);
	for i in 0..n {
		for k in 0..m {
			if b[(i, k)] != b.elements()[i * m + k] {
				bad(format!("entry {i} {k} {what}"), c);
			}
		}
	}
	if guarded(|| b[(n, 0)]).is_ok() || guarded(|| b[(0, m)]).is_ok() {
		bad("entry beyond the matrix".into(), c);
	}
	if n != m {
		let mut o = Matrix::zeros(n, m);
		refused("inverse of a matrix that is not square", guarded(|| b.inverse_into(&mut o)), c);
	}
}

fn span<F: Fm>(c: &Value) {
	let n = us(&c["n"]);
	let (b, p) = (vals::<F>(&c["b"]), vals::<F>(&c["pts"]));
	let what = short::<F>();
	let s = if c["canon"] == json!(1) && F::of(2) == F::basis(1) {
		match BinarySubspace::<F>::with_dim(n) {
			Ok(s) => s,
			Err(e) => return bad(format!("subspace {what}: {e:?}"), c),
		}
	} else {
		BinarySubspace::new_unchecked(b.clone())
	};
	if s.dim() != n || s.basis() != b {
		bad(format!("basis {what}"), c);
	}
	want(&format!("points {what}"), guarded(|| Ok(s.iter().collect::<Vec<F>>())), &p, c);
	if s.iter().count() != p.len() || s.iter().skip(p.len() / 2).next() != p.get(p.len() / 2).copied() || s.iter().step_by(3).collect::<Vec<_>>() != p.iter().copied().step_by(3).collect::<Vec<_>>() {
		bad(format!("enumeration {what}"), c);
	}
	for (i, x) in p.iter().enumerate() {
		if s.get(i) != *x || s.get_checked(i).ok() != Some(*x) {
			return bad(format!("point {i} {what}: {:?} {:?}", s.get(i), s.get_checked(i)), c);
		}
	}
	refused("a point beyond the last", guarded(|| s.get_checked(1 << n)), c);
	for d in 0..=n {
		match guarded(|| s.reduce_dim(d)) {
			Ok(Ok(r)) if r.basis() == &b[..d] => (),
			r => bad(format!("reduced {what}: {r:?}"), c),
		}
	}
	refused("a larger subspace", guarded(|| s.reduce_dim(n + 1)), c);
	refused("a subspace larger than the field", guarded(|| BinarySubspace::<F>::with_dim(F::DEGREE + 1)), c);
	// the whole field
	if F::of(2) == F::basis(1) && c["canon"] == json!(1) {
		let d = BinarySubspace::<F>::default();
		for (i, x) in p.iter().enumerate() {
			if d.get(i) != *x || d.get_checked(i).ok() != Some(*x) {
				return bad(format!("point {i} of {what}: {:?} {:?}", d.get(i), d.get_checked(i)), c);
			}
		}
		if d.iter().take(p.len()).collect::<Vec<_>>() != p {
			bad(format!("enumeration of {what}"), c);
		}
	}
	tick(p.len());
}
fn iso(c: &Value) {
	let s = BinarySubspace::<BinaryField16b>::new_unchecked(vals(&c["b"]));
	if s.isomorphic::<AESTowerField16b>().iter().collect::<Vec<_>>() != vals::<AESTowerField16b>(&c["pts"]) {
		bad("isomorphic subspace".into(), c);
	}
}

fn rows(c: &Value) {
	let m = |v: &Value| -> Vec<Vec<u64>> { arr(v).iter().map(nums).collect() };
	let cells = m(&c["cells"]);
	let refs: Vec<&[u64]> = cells.iter().map(|r| &r[..]).collect();
	let (cols, a, b, x, y) = (us(&c["cols"]), us(&c["a"]), us(&c["b"]), us(&c["c"]), us(&c["d"]));
	let pick: Vec<usize> = nums(&c["pick"]).iter().map(|&i| i as usize).collect();
	fn same(what: &str, g: &RowsBatchRef<'_, u64>, w: &[Vec<u64>], c: &Value) {
		tick(1);
		let by_row: Vec<Vec<u64>> = (0..g.n_rows()).map(|i| g.row(i).to_vec()).collect();
		let by_iter: Vec<Vec<u64>> = g.iter().map(|r| r.to_vec()).collect();
		if by_row != w || by_iter != w || g.is_empty() != w.is_empty() || w.first().is_some_and(|r| r.len() != g.row_len()) {
			bad(format!("{what}: rows {by_row:?} and {by_iter:?}, not {w:?}"), c);
		}
	}
	let r = guarded(|| {
		let all = RowsBatch::new(refs.clone(), cols);
		let all = all.get_ref();
		let one = all.columns_subrange(a..b);
		same("part of the columns", &one, &m(&c["one"]), c);
		same("rows with an offset", &RowsBatchRef::new_with_offset(&refs, a, b - a), &m(&c["one"]), c);
		same("part of a part of the columns", &one.columns_subrange(x..y), &m(&c["two"]), c);
		let picked = one.map(&pick);
		same("some of the rows", &picked.get_ref(), &m(&c["picked"]), c);
		same("part of some of the rows", &picked.get_ref().columns_subrange(x..y), &m(&c["pickedsub"]), c);
		let short = RowsBatch::new_from_iter(refs.iter().copied(), b);
		same("rows cut short", &short.get_ref().columns_subrange(a..), &m(&c["one"]), c);
		same("rows cut short, by reference", &RowsBatchRef::new(&refs, b).columns_subrange(a..=b.wrapping_sub(1).min(b)), &if b > 0 { m(&c["one"]) } else { cells.iter().map(|_| vec![]).collect() }, c);
		if guarded(|| one.columns_subrange(..b - a + 1).row_len()).is_ok() && !refs.is_empty() {
			bad("columns beyond the last".into(), c);
		}
	});
	if let Err(e) = r {
		if b > 0 {
			bad(format!("rows: {e}"), c);
		}
	}
	if !refs.is_empty() && (guarded(|| RowsBatch::new(refs.clone(), cols + 1).get_ref().row_len()).is_ok() || guarded(|| RowsBatchRef::new_with_offset(&refs, 1, cols).row_len()).is_ok()) {
		bad("rows longer than they are".into(), c);
	}
}

fn case(c: &Value) {
	let lv = c.get("lv").map_or(0, us);
	let n = c.get("n").map_or(0, us);
	macro_rules! each { ($f:ident: $($P:ty, $E:ty);*) => {{ $($f::<$P, $E>(c);)* }}; }
	macro_rules! one { ($f:ident: $($P:ty),*) => {{ $($f::<$P>(c);)* }}; }
	// values and points of every packing
	macro_rules! mixed { ($f:ident) => { match lv {
		0 => {
			each!($f: PackedBinaryField8x1b, BinaryField128b; PackedBinaryField128x1b, PackedBinaryField1x128b; PackedBinaryField512x1b, PackedBinaryField4x128b; PackedBinaryField64x1b, Opt<BinaryField128b>;
				PackedBinaryField16x1b, Opt<AESTowerField128b>);
			if n <= 9 {
				each!($f: BinaryField1b, BinaryField16b; PackedBinaryField4x1b, PackedBinaryField2x128b; PackedBinaryField8x1b, PackedBinaryField32x16b; PackedBinaryField16x1b, PackedBinaryField16x32b);
			}
		}
		3 => each!($f: BinaryField8b, BinaryField128b; PackedBinaryField4x8b, PackedBinaryField8x16b; PackedBinaryField16x8b, PackedBinaryField2x128b;
			PackedBinaryField64x8b, BinaryField16b; PackedBinaryField8x8b, PackedBinaryField16x32b; PackedAESBinaryField16x8b, ByteSlicedAES16x128b),
		_ => each!($f: BinaryField16b, BinaryField128b; PackedBinaryField2x16b, PackedBinaryField1x128b; PackedBinaryField8x16b, PackedBinaryField8x16b;
			PackedBinaryField32x16b, PackedBinaryField4x128b; BinaryField16b, BinaryField16b; PackedAESBinaryField8x16b, PackedAESBinaryField2x128b; ByteSlicedAES16x16b, ByteSlicedAES16x16b),
	}}; }
	macro_rules! few { ($f:ident) => { match lv {
		0 => each!($f: PackedBinaryField8x1b, BinaryField16b; PackedBinaryField128x1b, PackedBinaryField4x128b),
		3 => each!($f: BinaryField8b, PackedBinaryField8x16b; PackedBinaryField16x8b, PackedBinaryField2x128b),
		_ => each!($f: PackedBinaryField8x16b, PackedBinaryField4x32b; PackedBinaryField2x16b, BinaryField128b; PackedBinaryField8x16b, PackedBinaryField8x16b),
	}}; }
	match st(&c["k"]) {
		"mle" => {
			mixed!(mle);
			let ext = n <= 6;
			match lv {
				0 if ext => each!(adapted: PackedBinaryField128x1b, PackedBinaryField1x128b; PackedBinaryField512x1b, PackedBinaryField4x128b; PackedBinaryField128x1b, PackedBinaryField8x16b),
				3 if ext => each!(adapted: PackedBinaryField32x8b, PackedBinaryField2x128b; PackedBinaryField16x8b, PackedBinaryField8x16b),
				4 if ext => {
					each!(adapted: PackedBinaryField16x16b, PackedBinaryField2x128b; PackedBinaryField8x16b, PackedBinaryField8x16b);
					one!(direct: BinaryField16b, PackedBinaryField8x16b, PackedBinaryField4x128b);
				}
				_ => (),
			}
			if ext && lv < 4 {
				one!(direct: PackedBinaryField4x16b, PackedBinaryField2x128b);
			}
		}
		"fold" => mixed!(fold),
		"pad" => few!(pad),
		"lerp" => {
			few!(lerp);
			match lv {
				0 => one!(lerp_left: BinaryField16b, PackedBinaryField2x16b, PackedBinaryField8x16b, PackedBinaryField2x128b, PackedBinaryField4x128b),
				3 => one!(lerp_left: PackedBinaryField4x16b, PackedBinaryField16x16b, PackedBinaryField1x128b, PackedAESBinaryField8x16b),
				_ => one!(lerp_left: BinaryField128b, PackedBinaryField4x32b, PackedBinaryField8x16b, PackedBinaryField2x16b, ByteSlicedAES16x16b),
			}
		}
		"eq" => {
			one!(eq: BinaryField16b, PackedBinaryField8x16b, PackedBinaryField32x16b, PackedBinaryField1x128b, PackedBinaryField4x128b, ByteSlicedAES16x128b, PackedBinaryPolyval2x128b);
			if lv == 3 {
				one!(eq: BinaryField8b, PackedBinaryField16x8b, PackedBinaryField64x8b);
			}
		}
		"piece" => one!(piece: BinaryField16b, BinaryField128b, AESTowerField32b),
		"uni" => {
			macro_rules! d { ($($F:ty, $E:ty, $P:ty);*) => {{ $(uni::<$F, $E, $P>(c);)* }}; }
			d!(BinaryField16b, BinaryField16b, PackedBinaryField8x16b; BinaryField16b, BinaryField128b, PackedBinaryField2x128b; BinaryField128b, BinaryField128b, PackedBinaryField4x128b; AESTowerField16b, AESTowerField128b, PackedAESBinaryField2x128b);
			if lv <= 3 {
				d!(BinaryField8b, BinaryField32b, PackedBinaryField4x32b; BinaryField8b, BinaryField16b, PackedBinaryField16x16b; AESTowerField8b, AESTowerField128b, ByteSlicedAES16x128b);
			}
		}
		"mat" => {
			each!(mat: BinaryField16b, BinaryField16b; BinaryField16b, BinaryField128b; BinaryField128b, BinaryField128b; AESTowerField16b, AESTowerField128b);
			if lv == 0 {
				each!(mat: BinaryField1b, BinaryField16b);
			}
			if lv <= 3 {
				each!(mat: BinaryField8b, BinaryField128b);
			}
		}
		"span" => {
			one!(span: BinaryField8b, BinaryField16b, BinaryField32b, BinaryField64b, BinaryField128b, AESTowerField8b, AESTowerField128b, BinaryField128bPolyval);
			iso(c);
		}
		"rows" => rows(c),
		"embed" => match lv {
			0 => {
				embed::<PackedBinaryField128x1b, PackedBinaryField1x128b>(BinaryField128b::new, c);
				embed::<PackedBinaryField256x1b, PackedBinaryField2x128b>(BinaryField128b::new, c);
				embed::<PackedBinaryField64x1b, PackedBinaryField4x16b>(|x| BinaryField16b::new(x as u16), c);
				embed::<PackedBinaryField32x1b, PackedBinaryField4x8b>(|x| BinaryField8b::new(x as u8), c);
			}
			3 => {
				embed::<PackedBinaryField16x8b, PackedBinaryField1x128b>(BinaryField128b::new, c);
				embed::<PackedBinaryField64x8b, PackedBinaryField4x128b>(BinaryField128b::new, c);
				embed::<PackedBinaryField16x8b, PackedBinaryField4x32b>(|x| BinaryField32b::new(x as u32), c);
				embed::<PackedBinaryField16x8b, PackedBinaryField16x8b>(|x| BinaryField8b::new(x as u8), c);
			}
			_ => {
				embed::<PackedBinaryField8x16b, PackedBinaryField1x128b>(BinaryField128b::new, c);
				embed::<PackedBinaryField16x16b, PackedBinaryField4x64b>(|x| BinaryField64b::new(x as u64), c);
			}
		},
		k => panic!("unknown case {k}"),
	}
}

fn main() {
	init();
	let cases = read_ndjson(&args()[1]);
	for size in [257usize, 258, 300] {
		let d = guarded(|| EvaluationDomainFactory::<BinaryField8b>::create(&DefaultEvaluationDomainFactory::<BinaryField8b>::default(), size).map(|d| d.size()));
		if size == 257 && !matches!(d, Ok(Ok(257))) || size > 257 && matches!(d, Ok(Ok(_))) {
			bad(format!("domain of {size} points of a field of 256 elements: {d:?}"), &json!({"size": size}));
		}
	}
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..6 {
			s.spawn(|| {
				loop {
					let i = next.fetch_add(1, SeqCst);
					if i >= cases.len() {
						break;
					}
					if let Err(e) = guarded(|| case(&cases[i])) {
						bad(format!("harness: {e}"), &cases[i]);
					}
				}
			});
		}
	});
	summary(json!({"cases": cases.len(), "checked": CHECKED.load(SeqCst)}));
}
