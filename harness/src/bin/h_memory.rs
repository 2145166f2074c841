//! Replays the specification's histories of memory views and allocators, and its container cases, on the real types.
use std::{
	ops::Bound,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_compute::{
	alloc::{BumpAllocator, ComputeAllocator},
	cpu::CpuMemory,
	memory::{ComputeMemory, SizedSlice, SlicesBatch},
};
use binius_fast_compute::memory::{PackedMemory, PackedMemorySlice, PackedMemorySliceMut};
use binius_field::{packed::*, *};
use binius_maybe_rayon::prelude::*;
use binius_utils::{
	array_2d::Array2D,
	checked_arithmetics::*,
	graph::connected_components,
	iter::IterExtensions,
	random_access_sequence::*,
	sorting::*,
	sparse_index::SparseIndex,
	strided_array::StridedArray2DViewMut,
};
use vharness::{
	fm::{Fm, short, vals},
	*,
};

static CHECKED: AtomicUsize = AtomicUsize::new(0);
fn ok() {
	CHECKED.fetch_add(1, SeqCst);
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T, c: &Value) -> bool {
	ok();
	if got != want {
		violation(format!("{what}: {got:?} instead of {want:?}").chars().take(300).collect::<String>(), c.clone());
		return false;
	}
	true
}

/// a kind of memory together with the means to look into it
trait Mem<F: Field>: ComputeMemory<F> + Sized {
	fn read(v: &Self::FSlice<'_>) -> Vec<F>;
	fn put(v: &mut Self::FSliceMut<'_>, i: usize, x: F);
	fn fill(v: &mut Self::FSliceMut<'_>, x: F);
	fn over<R>(init: &[F], f: impl FnOnce(Self::FSliceMut<'_>) -> R) -> (R, Vec<F>);
}
impl<F: Field> Mem<F> for CpuMemory {
	fn read(v: &&[F]) -> Vec<F> {
		v.to_vec()
	}
	fn put(v: &mut &mut [F], i: usize, x: F) {
		v[i] = x;
	}
	fn fill(v: &mut &mut [F], x: F) {
		v.fill(x);
	}
	fn over<R>(init: &[F], f: impl FnOnce(&mut [F]) -> R) -> (R, Vec<F>) {
		let mut m = init.to_vec();
		let r = f(&mut m);
		(r, m)
	}
}
impl<F: Field, P: PackedField<Scalar = F>> Mem<F> for PackedMemory<P> {
	fn read(v: &PackedMemorySlice<'_, P>) -> Vec<F> {
		P::iter_slice(v.as_slice()).take(v.len()).collect()
	}
	fn put(v: &mut PackedMemorySliceMut<'_, P>, i: usize, x: F) {
		set_packed_slice(v.as_slice_mut(), i, x);
	}
	fn fill(v: &mut PackedMemorySliceMut<'_, P>, x: F) {
		// all lanes of all elements, also those past the end of a view shorter than an element
		v.as_slice_mut().fill(P::broadcast(x));
	}
	fn over<R>(init: &[F], f: impl FnOnce(PackedMemorySliceMut<'_, P>) -> R) -> (R, Vec<F>) {
		let mut m: Vec<P> = pack_slice(init);
		let r = f(PackedMemorySliceMut::new_slice(&mut m));
		(r, P::iter_slice(&m).collect())
	}
}
fn bounds(s: &Value) -> (Bound<usize>, Bound<usize>) {
	let (a, b) = (us(&s["a"]), us(&s["b"]));
	use Bound::*;
	match st(&s["f"]) {
		"to" => (Unbounded, Excluded(b)),
		"excl" => (Excluded(a - 1), Excluded(b)),
		"from" => (Included(a), Unbounded),
		"incl" => (Included(a), Included(b - 1)),
		"full" => (Unbounded, Unbounded),
		_ => (Included(a), Excluded(b)),
	}
}
fn compare<F: Fm + Field, M: Mem<F>>(views: &[M::FSliceMut<'_>], s: &Value, t: usize, c: &Value) -> bool {
	let want: Vec<Vec<F>> = arr(&s["see"]).iter().map(|x| vals(x)).collect();
	let got: Vec<Vec<F>> = views.iter().map(|v| M::read(&M::as_const(v))).collect();
	let lens: Vec<usize> = views.iter().map(|v| v.len()).collect();
	same(&format!("{} step {t} ({}): lengths of the views", short::<M>(), st(&s["o"])), lens, want.iter().map(|v| v.len()).collect(), c)
		&& same(&format!("{} step {t} ({}): contents of the views", short::<M>(), st(&s["o"])), got, want, c)
}
/// runs one frame until it is left; false: stop
fn frame<F: Fm + Field, M: Mem<F>>(mut views: Vec<M::FSliceMut<'_>>, pos: &mut usize, c: &Value) -> bool {
	let hist = arr(&c["hist"]);
	if *pos > 0 && !compare::<F, M>(&views, &hist[*pos - 1], *pos, c) {
		return false;
	}
	while *pos < hist.len() {
		let s = &hist[*pos];
		let (k, a) = (us(&s["k"]), us(&s["a"]));
		let bad = st(&s["f"]) == "bad";
		let what = format!("{} step {} ({})", short::<M>(), *pos, st(&s["o"]));
		*pos += 1;
		if bad {
			let r = guarded(|| match st(&s["o"]) {
				"split" => {
					let (x, y) = M::split_at_mut(views.remove(k), a);
					x.len() + y.len()
				}
				"half" => M::split_half_mut(views.remove(k)).0.len(),
				"chunks" => M::slice_chunks_mut(views.remove(k), a).map(|v| v.len()).sum::<usize>(),
				"slice" => M::slice_mut(&mut views[k], bounds(s)).len(),
				"bsplit" => M::split_at_mut_borrowed(&mut views[k], a).0.len(),
				"lookslice" => M::slice(M::as_const(&views[k]), bounds(s)).len(),
				"lookchunks" => M::slice_chunks(M::as_const(&views[k]), a).map(|v| v.len()).sum::<usize>(),
				_ => M::split_half(M::as_const(&views[k])).0.len(),
			});
			ok();
			if let Ok(n) = r {
				violation(format!("{what}: not refused, {n} elements given"), c.clone());
			}
			return false;
		}
		match st(&s["o"]) {
			"write" => M::put(&mut views[k], a, F::of(u(&s["x"]))),
			"fill" => M::fill(&mut views[k], F::of(u(&s["x"]))),
			"split" => {
				let (x, y) = M::split_at_mut(views.remove(k), a);
				views.insert(k, y);
				views.insert(k, x);
			}
			"half" => {
				let (x, y) = M::split_half_mut(views.remove(k));
				views.insert(k, y);
				views.insert(k, x);
			}
			"chunks" => {
				let new: Vec<_> = M::slice_chunks_mut(views.remove(k), a).collect();
				for (i, v) in new.into_iter().enumerate() {
					views.insert(k + i, v);
				}
			}
			"narrow" => {
				let v = M::narrow_mut(views.remove(k));
				views.insert(k, v);
			}
			"toconst" => {
				let v = M::to_const(views.remove(k));
				if !same(&format!("{what}: contents of the constant view"), M::read(&v), vals(&s["got"]), c) {
					return false;
				}
			}
			"look" => {
				let mut v = M::as_const(&views[k]);
				for l in arr(&s["chain"]) {
					let (a, b) = (us(&l["a"]), us(&l["b"]));
					v = match st(&l["o"]) {
						"half" => {
							let (x, y) = M::split_half(v);
							if a == 0 { x } else { y }
						}
						"at" => {
							let (x, y) = M::split_at(v, a);
							if b == 0 { x } else { y }
						}
						"slice" => M::slice(v, bounds(l)),
						"chunk" => M::slice_chunks(v, a).nth(b).expect("chunk"),
						_ => v,
					};
				}
				if !same(&format!("{what}: length seen through constant views"), v.len(), arr(&s["got"]).len(), c)
					|| !same(&format!("{what}: contents seen through constant views"), M::read(&M::narrow(&v)), vals(&s["got"]), c)
				{
					return false;
				}
			}
			"slice" | "owned" | "pow2" | "bsplit" => {
				let child = match st(&s["o"]) {
					"slice" => vec![M::slice_mut(&mut views[k], bounds(s))],
					"owned" => vec![M::to_owned_mut(&mut views[k])],
					"pow2" => vec![M::slice_power_of_two_mut(&mut views[k], a)],
					_ => {
						let (x, y) = M::split_at_mut_borrowed(&mut views[k], a);
						vec![x, y]
					}
				};
				if !frame::<F, M>(child, pos, c) {
					return false;
				}
				if *pos > hist.len() {
					return true;
				}
				if !compare::<F, M>(&views, &hist[*pos - 1], *pos, c) {
					return false;
				}
				continue;
			}
			_ => {
				// leave
				if st(&s["f"]) == "rev" {
					while views.pop().is_some() {}
				}
				return true;
			}
		}
		if !compare::<F, M>(&views, s, *pos, c) {
			return false;
		}
	}
	*pos = hist.len() + 1;
	true
}
fn views_in<F: Fm + Field, M: Mem<F>>(c: &Value) {
	let n = us(&c["w"]) * us(&c["blocks"]);
	let init: Vec<F> = (1..=n as u64).map(F::of).collect();
	let before = n_violations();
	let r = guarded(|| M::over(&init, |v| guarded(|| frame::<F, M>(vec![v], &mut 0, c))));
	match r {
		Ok((Err(e), _)) | Err(e) => violation(format!("{}: a legal history panicked: {e}", short::<M>()), c.clone()),
		Ok((Ok(_), m)) => {
			if n_violations() == before {
				same(&format!("{}: memory at the end", short::<M>()), m, vals(&c["mem"]), c);
			}
		}
	}
}

// ---- allocators ----
fn scope<F: Fm + Field, M: Mem<F>, A: ComputeAllocator<F, M> + Sync>(al: &mut A, pos: &mut usize, c: &Value) -> bool
where
	for<'x> M::FSliceMut<'x>: Send,
{
	let hist = arr(&c["hist"]);
	loop {
		{
			let al: &A = al;
			let mut blocks: Vec<M::FSliceMut<'_>> = vec![];
			let at = |s: &Value, blocks: &[M::FSliceMut<'_>], t: usize| {
				same(&format!("{} step {t} ({} {}): capacity", short::<M>(), st(&s["o"]), us(&s["n"])), al.capacity(), us(&s["cap"]), c) && compare::<F, M>(blocks, s, t, c)
			};
			if *pos > 0 && !at(&hist[*pos - 1], &blocks, *pos) {
				return false;
			}
			while *pos < hist.len() && st(&hist[*pos]["o"]) != "sub" {
				let s = &hist[*pos];
				let (n, x) = (us(&s["n"]), F::of(u(&s["x"])));
				*pos += 1;
				match st(&s["o"]) {
					"alloc" => {
						let r = al.alloc(n);
						if !same(&format!("{} step {}: alloc({n}) succeeds", short::<M>(), *pos), r.is_ok(), us(&s["got"]) == 1, c) {
							return false;
						}
						if let Ok(mut b) = r {
							if b.len() > 0 {
								M::fill(&mut b, x);
							}
							blocks.push(b);
						}
					}
					"par" => {
						let t = us(&s["t"]);
						let got: Vec<Option<M::FSliceMut<'_>>> = std::thread::scope(|sc| {
							let hs: Vec<_> = (0..t)
								.map(|_| {
									sc.spawn(|| {
										let mut b = al.alloc(n).ok()?;
										M::fill(&mut b, x);
										Some(b)
									})
								})
								.collect();
							hs.into_iter().map(|h| h.join().expect("thread")).collect()
						});
						let new: Vec<_> = got.into_iter().flatten().collect();
						if !same(&format!("{} step {}: blocks given to threads", short::<M>(), *pos), new.len(), us(&s["got"]), c) {
							return false;
						}
						blocks.extend(new);
					}
					"write" => M::fill(&mut blocks[n - 1], x),
					_ => return true,
				}
				if !at(s, &blocks, *pos) {
					return false;
				}
			}
		}
		if *pos >= hist.len() {
			*pos = hist.len() + 1;
			return true;
		}
		*pos += 1;
		{
			let mut sub = al.subscope_allocator();
			if !nest::<F, M>(&mut sub, pos, c) {
				return false;
			}
		}
		if *pos > hist.len() {
			return true;
		}
	}
}
/// the same through a trait object free of the opaque type
fn nest<F: Fm + Field, M: Mem<F>>(al: &mut impl ComputeAllocator<F, M>, pos: &mut usize, c: &Value) -> bool {
	// a nested allocator is only known by its interface: histories in it run on one thread
	let hist = arr(&c["hist"]);
	loop {
		{
			let al = &*al;
			let mut blocks: Vec<M::FSliceMut<'_>> = vec![];
			let at = |s: &Value, blocks: &[M::FSliceMut<'_>], t: usize| {
				same(&format!("{} nested step {t} ({} {}): capacity", short::<M>(), st(&s["o"]), us(&s["n"])), al.capacity(), us(&s["cap"]), c) && compare::<F, M>(blocks, s, t, c)
			};
			if !at(&hist[*pos - 1], &blocks, *pos) {
				return false;
			}
			while *pos < hist.len() && st(&hist[*pos]["o"]) != "sub" {
				let s = &hist[*pos];
				let (n, x) = (us(&s["n"]), F::of(u(&s["x"])));
				*pos += 1;
				match st(&s["o"]) {
					"alloc" | "par" => {
						let t = us(&s["t"]).max(1);
						let mut got = 0;
						for _ in 0..t {
							if let Ok(mut b) = al.alloc(n) {
								got += 1;
								if b.len() > 0 {
									M::fill(&mut b, x);
								}
								blocks.push(b);
							}
						}
						if !same(&format!("{} nested step {}: blocks of {n} given", short::<M>(), *pos), got, us(&s["got"]), c) {
							return false;
						}
					}
					"write" => M::fill(&mut blocks[n - 1], x),
					_ => return true,
				}
				if !at(s, &blocks, *pos) {
					return false;
				}
			}
		}
		if *pos >= hist.len() {
			*pos = hist.len() + 1;
			return true;
		}
		*pos += 1;
		{
			let mut sub = al.subscope_allocator();
			if !nest_dyn::<F, M>(&mut sub, pos, c) {
				return false;
			}
		}
		if *pos > hist.len() {
			return true;
		}
	}
}
fn nest_dyn<F: Fm + Field, M: Mem<F>>(al: &mut impl ComputeAllocator<F, M>, pos: &mut usize, c: &Value) -> bool {
	nest::<F, M>(al, pos, c)
}
fn alloc_in<F: Fm + Field, M: Mem<F>>(c: &Value)
where
	for<'x> BumpAllocator<'x, F, M>: Sync,
{
	let n = us(&c["w"]) * us(&c["blocks"]);
	let init: Vec<F> = (1..=n as u64).map(F::of).collect();
	let before = n_violations();
	let r = guarded(|| {
		M::over(&init, |mut v| {
			guarded(|| {
				if us(&c["ref"]) == 1 {
					scope::<F, M, _>(&mut BumpAllocator::<F, M>::from_ref(&mut v), &mut 0, c)
				} else {
					scope::<F, M, _>(&mut BumpAllocator::<F, M>::new(v), &mut 0, c)
				}
			})
		})
	});
	match r {
		Ok((Err(e), _)) | Err(e) => violation(format!("{}: a legal history of allocations panicked: {e}", short::<M>()), c.clone()),
		Ok((Ok(_), m)) => {
			if n_violations() == before {
				same(&format!("{}: memory at the end", short::<M>()), m, vals(&c["mem"]), c);
			}
		}
	}
}

// ---- containers ----
fn refused<T>(what: &str, want_ok: bool, r: Result<T, String>, c: &Value) -> Option<T> {
	ok();
	if r.is_ok() != want_ok {
		violation(format!("{what}: {}", if want_ok { "refused" } else { "not refused" }), c.clone());
	}
	if want_ok { r.ok() } else { None }
}
fn grid(c: &Value) {
	let (r, k) = (us(&c["rows"]), us(&c["cols"]));
	let mut g = Array2D::<u64>::new(r, k);
	same("Array2D::zeroes is zero", Array2D::<u64>::zeroes(r, k).sum_rows(), vec![0; k], c);
	for i in 0..r {
		for j in 0..k {
			g[(i, j)] = (i * k + j + 1) as u64;
		}
	}
	for o in arr(&c["ops"]) {
		let (i, j, x) = (us(&o["i"]), us(&o["j"]), u(&o["x"]));
		let good = o["ok"].as_bool().unwrap();
		let got = guarded(|| {
			let w = g[(i, j)];
			if good {
				assert_eq!(unsafe { *g.get_unchecked(i, j) }, w);
			}
			w
		});
		if let Some(w) = refused(&format!("Array2D[({i},{j})] of {r}x{k}"), good, got, c) {
			same("Array2D value", w, u(&o["was"]), c);
		}
		if st(&o["o"]) == "set" {
			let keep = format!("{g:?}");
			let r2 = guarded(|| {
				if good && x % 2 == 0 {
					unsafe { *g.get_unchecked_mut(i, j) = x }
				} else {
					g[(i, j)] = x
				}
			});
			refused(&format!("Array2D[({i},{j})] = of {r}x{k}"), good, r2, c);
			if !good {
				same("Array2D after a refused write", format!("{g:?}"), keep, c);
			}
		}
	}
	let want: Vec<Vec<u64>> = arr(&c["cells"]).iter().map(nums).collect();
	match guarded(|| (g.rows(), g.cols())) {
		Ok(d) => {
			same("Array2D dimensions", d, (r, k), c);
		}
		Err(e) => violation(format!("Array2D::rows panicked: {e}"), c.clone()),
	}
	same("Array2D rows", g.iter_rows().map(|x| x.to_vec()).collect::<Vec<_>>(), want.clone(), c);
	for i in 0..=r {
		let got = guarded(|| (g.get_row(i).to_vec(), g.get_row_mut(i).to_vec()));
		if k > 0 || i < r {
			if let Some(v) = refused("Array2D::get_row", i < r, got, c) {
				same("Array2D::get_row", v, (want[i].clone(), want[i].clone()), c);
			}
		}
	}
	same("Array2D::sum_rows", g.sum_rows(), nums(&c["sums"]), c);
	for s in arr(&c["shapes"]) {
		let (a, b) = (us(&s["r"]), us(&s["c"]));
		let good = s["ok"].as_bool().unwrap();
		let w: Vec<Vec<u64>> = arr(&s["at"]).iter().map(nums).collect();
		let got = g.reshape(a, b);
		same(&format!("Array2D::reshape({a},{b}) of {r}x{k}"), got.is_some(), good, c);
		if let (Some(v), true) = (got, a * b > 0) {
			same("reshaped rows", (v.rows(), v.cols(), v.iter_rows().map(|x| x.to_vec()).collect::<Vec<_>>()), (a, b, w.clone()), c);
		}
		let got = g.reshape_mut(a, b);
		same("Array2D::reshape_mut", got.is_some(), good, c);
		if let (Some(mut v), true) = (got, a * b > 0) {
			same("reshaped rows", v.iter_rows().map(|x| x.to_vec()).collect::<Vec<_>>(), w.clone(), c);
			let old = v[(a - 1, 0)];
			v[(a - 1, 0)] = 77777;
			drop(v);
			let at = (a - 1) * b;
			same("write through a reshaped array", g[(at / k, at % k)], 77777, c);
			g[(at / k, at % k)] = old;
		}
	}
}
fn strides(c: &Value) {
	let (r, k, s1, s2) = (us(&c["rows"]), us(&c["cols"]), us(&c["s1"]), us(&c["s2"]));
	let widths: Vec<usize> = arr(&c["widths"]).iter().map(us).collect();
	for par in [false, true] {
		let mut data: Vec<u64> = (1..=(r * k) as u64).collect();
		{
			for (h, w) in [(r + 1, k), (r, k + 1)] {
				if h * w != r * k {
					same("without_stride with other dimensions", StridedArray2DViewMut::without_stride(&mut data, h, w).is_err(), true, c);
				}
			}
			let v = StridedArray2DViewMut::without_stride(&mut data, r, k).unwrap();
			let outer: Vec<_> = if par { v.into_par_strides(s1).collect() } else { v.into_strides(s1).collect() };
			let mut parts: Vec<StridedArray2DViewMut<u64>> = if s2 == 0 {
				outer
			} else {
				outer.into_iter().flat_map(|o| if par { o.into_par_strides(s2).collect::<Vec<_>>() } else { o.into_strides(s2).collect() }).collect()
			};
			if !same("widths of the strides", parts.iter().map(|p| p.width()).collect::<Vec<_>>(), widths.clone(), c) || !same("heights", parts.iter().all(|p| p.height() == r), true, c) {
				return;
			}
			for o in arr(&c["ops"]) {
				let (p, i, j) = (us(&o["p"]), us(&o["i"]), us(&o["j"]));
				let good = o["ok"].as_bool().unwrap();
				if let Some(w) = refused("cell of a stride", good, guarded(|| parts[p][(i, j)]), c) {
					same("cell of a stride", w, u(&o["was"]), c);
					same("unchecked cell of a stride", unsafe { *parts[p].get_unchecked_ref(i, j) }, u(&o["was"]), c);
				}
				if par && good {
					unsafe { *parts[p].get_unchecked_mut(i, j) = u(&o["x"]) };
				} else {
					refused("write to a cell of a stride", good, guarded(|| parts[p][(i, j)] = u(&o["x"])), c);
				}
			}
			for (p, cols) in arr(&c["columns"]).iter().enumerate() {
				for (j, col) in arr(cols).iter().enumerate() {
					same("column of a stride", parts[p].iter_column_mut(j).map(|x| *x).collect::<Vec<_>>(), nums(col), c);
				}
				let w = widths[p];
				refused("column past the stride", false, guarded(|| parts[p].iter_column_mut(w).count()), c);
			}
		}
		same("cells at the end", data.clone(), nums(&c["cells"]), c);
		// all strides written at once, in parallel
		let v = StridedArray2DViewMut::without_stride(&mut data, r, k).unwrap();
		v.into_par_strides(s1).enumerate_if_possible(|mut s: StridedArray2DViewMut<u64>| {
			for j in 0..s.width() {
				for x in s.iter_column_mut(j) {
					*x += 100_000;
				}
			}
		});
		same("cells after a parallel sweep", data.clone(), nums(&c["cells"]).iter().map(|x| x + 100_000).collect(), c);
	}
}
trait Each<T>: ParallelIterator<Item = T> + Sized
where
	T: Send,
{
	fn enumerate_if_possible(self, f: impl Fn(T) + Sync + Send) {
		self.for_each(f)
	}
}
impl<T: Send, I: ParallelIterator<Item = T>> Each<T> for I {}

fn range_ops<F: Fm + Field>(what: &str, s: &mut impl RandomAccessSequenceMut<F>, c: &Value) {
	same(&format!("{what}: length"), (s.len(), s.is_empty()), (us(&c["l2"]), us(&c["l2"]) == 0), c);
	for o in arr(&c["ops"]) {
		let i = us(&o["i"]);
		let good = o["ok"].as_bool().unwrap();
		if let Some(w) = refused(&format!("{what}: get({i})"), good, guarded(|| s.get(i)), c) {
			same(&format!("{what}: get({i})"), w, F::of(u(&o["was"])), c);
		}
		if st(&o["o"]) == "set" {
			refused(&format!("{what}: set({i})"), good, guarded(|| s.set(i, F::of(u(&o["x"])))), c);
		}
	}
}
fn ranges<P: PackedField>(c: &Value)
where
	P::Scalar: Fm,
{
	let n = us(&c["w"]) * us(&c["blocks"]);
	let init: Vec<P::Scalar> = (1..=n as u64).map(Fm::of).collect();
	let want: Vec<P::Scalar> = vals(&c["cells"]);
	let (o1, l1, o2, l2, len) = (us(&c["o1"]), us(&c["l1"]), us(&c["o2"]), us(&c["l2"]), us(&c["len"]));
	// over plain scalars
	let mut m = init.clone();
	{
		let mut s = &mut m[..];
		for (o, l) in [(n, 1), (0, n + 1), (usize::MAX, 2), (2, usize::MAX), (1, n)] {
			refused("a sub-range past the end", false, guarded(|| SequenceSubrangeMut::new(&mut s, o, l).len()), c);
			let t = &init[..];
			refused("a constant sub-range past the end", false, guarded(|| SequenceSubrange::new(&t, o, l).len()), c);
		}
		let mut a = SequenceSubrangeMut::new(&mut s, o1, l1);
		refused("a nested sub-range past the end", false, guarded(|| SequenceSubrangeMut::new(&mut a, o2, l1 - o2 + 1).len()), c);
		let mut b = SequenceSubrangeMut::new(&mut a, o2, l2);
		range_ops("sub-range of a slice", &mut b, c);
		let x = SequenceSubrange::new(&b, 0, l2);
		same("constant sub-range", (0..l2).map(|i| x.get(i)).collect::<Vec<_>>(), want[o1 + o2..o1 + o2 + l2].to_vec(), c);
		refused("constant sub-range past the end", false, guarded(|| x.get(l2)), c);
	}
	same("the slice at the end", m, want.clone(), c);
	// over packed elements
	let mut m: Vec<P> = pack_slice(&init);
	{
		let mut s = PackedSliceMut::new(&mut m);
		same("length of a packed slice", s.len(), n, c);
		let mut a = SequenceSubrangeMut::new(&mut s, o1, l1);
		let mut b = SequenceSubrangeMut::new(&mut a, o2, l2);
		range_ops("sub-range of packed elements", &mut b, c);
	}
	same(&format!("{} at the end", short::<P>()), P::iter_slice(&m).collect::<Vec<_>>(), want.clone(), c);
	let s = PackedSlice::new_with_len(&m, len);
	same("PackedSlice", (s.len(), (0..len).map(|i| s.get(i)).collect::<Vec<_>>()), (len, want[..len].to_vec()), c);
	refused("PackedSlice past its length", false, guarded(|| s.get(len)), c);
	refused("PackedSlice longer than its elements", false, guarded(|| PackedSlice::new_with_len(&m, n + 1).len()), c);
	let mut s = PackedSliceMut::new_with_len(&mut m, len);
	refused("PackedSliceMut past its length", false, guarded(|| s.set(len, P::Scalar::ONE)), c);
	refused("PackedSliceMut longer than its elements", false, guarded(|| PackedSliceMut::new_with_len(&mut m, n + 1).len()), c);
	same("packed elements after refused writes", P::iter_slice(&m).collect::<Vec<_>>(), want, c);
}
fn packed<P: PackedField>(c: &Value)
where
	P::Scalar: Fm,
{
	let n = us(&c["w"]) * us(&c["blocks"]);
	let init: Vec<P::Scalar> = (1..=n as u64).map(Fm::of).collect();
	let want: Vec<P::Scalar> = vals(&c["cells"]);
	let mut m: Vec<P> = pack_slice(&init);
	same("len_packed_slice", len_packed_slice(&m), n, c);
	for (t, o) in arr(&c["ops"]).iter().enumerate() {
		let (i, x) = (us(&o["i"]), P::Scalar::of(u(&o["x"])));
		let good = o["ok"].as_bool().unwrap();
		let what = format!("{} index {i} of {n}", short::<P>());
		if let Some(w) = refused(&what, good, guarded(|| get_packed_slice(&m, i)), c) {
			same(&what, w, P::Scalar::of(u(&o["was"])), c);
		}
		same(&what, get_packed_slice_checked(&m, i).ok(), good.then(|| P::Scalar::of(u(&o["was"]))), c);
		if st(&o["o"]) == "set" {
			if t % 2 == 0 {
				refused(&what, good, guarded(|| set_packed_slice(&mut m, i, x)), c);
			} else {
				same(&what, set_packed_slice_checked(&mut m, i, x).is_ok(), good, c);
			}
		}
	}
	same(&format!("{}: elements at the end", short::<P>()), P::iter_slice(&m).collect::<Vec<_>>(), want, c);
	let off = us(&c["off"]);
	same(&format!("{}: from offset {off}", short::<P>()), iter_packed_slice_with_offset(&m, off).collect::<Vec<_>>(), vals(&c["tail"]), c);
	let src: Vec<P::Scalar> = vals(&c["src"]);
	same(&format!("{}: pack_slice", short::<P>()), P::iter_slice(&pack_slice::<P>(&src)).collect::<Vec<_>>(), vals(&c["packed"]), c);
	let fits = c["fits"].as_bool().unwrap();
	let mut dst = m.clone();
	refused(&format!("{}: copying {} scalars into {n}", short::<P>(), src.len()), fits, guarded(|| copy_packed_from_scalars_slice(&src, &mut dst)), c);
	if fits {
		same(&format!("{}: copied scalars", short::<P>()), P::iter_slice(&dst).collect::<Vec<_>>(), vals(&c["copied"]), c);
	}
	for o in 0..us(&c["blocks"]) {
		let got: P = packed_from_fn_with_offset(o, |i| get_packed_slice(&m, i));
		same("packed_from_fn_with_offset", got, m[o], c);
	}
}
fn sparse(c: &Value) {
	let keys = us(&c["keys"]);
	for start in [SparseIndex::<u64>::new(), SparseIndex::with_capacity(keys / 2)] {
		let mut m = start;
		same("a new SparseIndex is empty", (m.is_empty(), m.len()), (true, 0), c);
		for o in arr(&c["ops"]) {
			let (i, x, has, was) = (us(&o["i"]), u(&o["x"]), o["has"].as_bool().unwrap(), u(&o["was"]));
			same("SparseIndex::contains_key", m.contains_key(i), has, c);
			match st(&o["o"]) {
				"set" => m.set(i, x),
				"entry" => {
					same("entry", *m.entry(i).or_insert(x), if has { was } else { x }, c);
				}
				"with" => {
					same("entry", *m.entry(i).or_insert_with(|| x), if has { was } else { x }, c);
				}
				"mut" => {
					if let Some(y) = m.get_mut(i) {
						*y = x;
					}
				}
				"get" => {
					same("SparseIndex::get", m.get(i).copied(), has.then_some(was), c);
				}
				_ => {
					if let Some(y) = refused("SparseIndex[]", has, guarded(|| m[i]), c) {
						same("SparseIndex[]", y, was, c);
					}
				}
			}
			same("SparseIndex::get afterwards", m.get(i).copied().unwrap_or(0), u(&o["now"]), c);
			same("SparseIndex::len", (m.len(), m.is_empty()), (us(&o["len"]), us(&o["len"]) == 0), c);
		}
		let want: Vec<(usize, u64)> = arr(&c["items"]).iter().map(|p| (us(&p[0]), u(&p[1]))).collect();
		same("SparseIndex::iter", m.iter().map(|(i, x)| (i, *x)).collect::<Vec<_>>(), want.clone(), c);
		same("SparseIndex::iter backwards", m.iter().rev().map(|(i, x)| (i, *x)).collect::<Vec<_>>(), want.iter().rev().copied().collect(), c);
		same("SparseIndex::iter_mut", m.iter_mut().map(|(i, x)| (i, *x)).collect::<Vec<_>>(), want.clone(), c);
		same("SparseIndex::keys", m.keys().collect::<Vec<_>>(), want.iter().map(|x| x.0).collect(), c);
		same("SparseIndex::values", m.values().copied().collect::<Vec<_>>(), want.iter().map(|x| x.1).collect(), c);
		same("SparseIndex::values_mut", m.values_mut().map(|x| *x).collect::<Vec<_>>(), want.iter().map(|x| x.1).collect(), c);
		let back: SparseIndex<u64> = want.iter().rev().copied().collect();
		same("SparseIndex from an iterator", back.into_iter().collect::<Vec<_>>(), want.clone(), c);
		same("SparseIndex into an iterator", m.into_iter().collect::<Vec<_>>(), want, c);
	}
}
fn sorting(c: &Value) {
	let keys: Vec<usize> = arr(&c["vals"]).iter().map(us).collect();
	let objs: Vec<(usize, usize)> = keys.iter().copied().enumerate().collect();
	same("is_sorted_ascending", is_sorted_ascending(keys.iter()), c["sorted"].as_bool().unwrap(), c);
	for (d, f) in [(false, "up"), (true, "down")] {
		let want: Vec<usize> = arr(&c[f]).iter().map(us).collect();
		let (idx, out) = stable_sort(objs.clone(), |o| o.1, d);
		same("stable_sort indices", idx.clone(), want.clone(), c);
		same("stable_sort objects", out.clone(), want.iter().map(|i| objs[*i]).collect(), c);
		same("unsort", unsort(idx, out), objs.clone(), c);
	}
}
fn numbers(c: &Value) {
	for x in arr(&c["nums"]) {
		let n = us(&x["n"]);
		let p = x["pow"].as_bool().unwrap();
		let l = us(&x["log"]);
		same("strict_log_2", strict_log_2(n), p.then_some(l), c);
		for f in [checked_log_2 as fn(usize) -> usize, log2_strict_usize] {
			if let Some(g) = refused("logarithm", p, guarded(|| f(n)), c) {
				same("logarithm", g, l, c);
			}
		}
		same("min_bits", min_bits(n), us(&x["bits"]), c);
		same("log2_ceil_usize", log2_ceil_usize(n), us(&x["ceil"]), c);
	}
	for x in arr(&c["divs"]) {
		let (a, b) = (us(&x["a"]), us(&x["b"]));
		if let Some(g) = refused("checked_int_div", x["ok"].as_bool().unwrap(), guarded(|| checked_int_div(a, b)), c) {
			same("checked_int_div", g, us(&x["q"]), c);
		}
	}
}
fn skips(c: &Value) {
	let calls = AtomicUsize::new(0);
	let len = us(&c["len"]);
	let mut it = (0..len).map_skippable(|i| {
		calls.fetch_add(1, SeqCst);
		(7 * i + 3) as u64
	});
	let mut n = 0;
	for o in arr(&c["ops"]) {
		let k = us(&o["skip"]);
		let got = if k == 0 { it.next() } else { it.nth(k) };
		let hit = o["hit"].as_bool().unwrap();
		n += hit as usize;
		same("map_skippable", got, hit.then(|| u(&o["val"])), c);
		same("map_skippable calls", calls.load(SeqCst), n, c);
		same("map_skippable length", (it.len(), it.size_hint()), (us(&o["left"]), (us(&o["left"]), Some(us(&o["left"])))), c);
	}
	let rest = nums(&c["rest"]);
	same("map_skippable fold", it.clone().fold(vec![], |mut a, x| { a.push(x); a }), rest.clone(), c);
	same("map_skippable rest", it.collect::<Vec<_>>(), rest, c);
}
fn batch(c: &Value) {
	// rows of one length only
	let a = [1u64, 2, 3];
	let rows: Vec<&[u64]> = vec![&a[..2], &a[1..]];
	let b = SlicesBatch::new(rows.clone(), 2);
	same("SlicesBatch", (b.n_rows(), b.row_len(), b.row(1).to_vec(), b.iter().map(|r| <[u64]>::len(r)).sum::<usize>()), (2, 2, vec![2, 3], 4), c);
	refused("SlicesBatch with a row of another length", false, guarded(|| SlicesBatch::new(vec![&a[..2], &a[..3]], 2).n_rows()), c);
}
fn main() {
	init();
	let a = args();
	batch(&Value::Null);
	let cases = read_ndjson(&a[1]);
	cases.par_iter().for_each(|c| {
		let w = c["w"].as_u64().unwrap_or(0);
		match st(&c["part"]) {
			"views" => match w {
				1 => {
					views_in::<BinaryField128b, CpuMemory>(c);
					views_in::<BinaryField16b, CpuMemory>(c);
					views_in::<BinaryField128b, PackedMemory<PackedBinaryField1x128b>>(c);
				}
				2 => {
					views_in::<BinaryField128b, PackedMemory<PackedBinaryField2x128b>>(c);
					views_in::<BinaryField64b, PackedMemory<PackedBinaryField2x64b>>(c);
				}
				4 => {
					views_in::<BinaryField128b, PackedMemory<PackedBinaryField4x128b>>(c);
					views_in::<BinaryField32b, PackedMemory<PackedBinaryField4x32b>>(c);
				}
				8 => {
					views_in::<BinaryField16b, PackedMemory<PackedBinaryField8x16b>>(c);
					views_in::<BinaryField8b, PackedMemory<PackedBinaryField8x8b>>(c);
				}
				_ => {
					views_in::<BinaryField8b, PackedMemory<PackedBinaryField16x8b>>(c);
					views_in::<AESTowerField128b, PackedMemory<ByteSlicedAES16x128b>>(c);
				}
			},
			"alloc" => match w {
				1 => {
					alloc_in::<BinaryField128b, CpuMemory>(c);
					alloc_in::<BinaryField128b, PackedMemory<PackedBinaryField1x128b>>(c);
				}
				2 => alloc_in::<BinaryField128b, PackedMemory<PackedBinaryField2x128b>>(c),
				4 => {
					alloc_in::<BinaryField128b, PackedMemory<PackedBinaryField4x128b>>(c);
					alloc_in::<BinaryField32b, PackedMemory<PackedBinaryField4x32b>>(c);
				}
				8 => alloc_in::<BinaryField16b, PackedMemory<PackedBinaryField8x16b>>(c),
				_ => alloc_in::<AESTowerField128b, PackedMemory<ByteSlicedAES16x128b>>(c),
			},
			_ => {
				let r = guarded(|| match (st(&c["kind"]), w) {
					("grid", _) => grid(c),
					("strides", _) => strides(c),
					("ranges", 1) => ranges::<BinaryField128b>(c),
					("ranges", 2) => ranges::<PackedBinaryField2x128b>(c),
					("ranges", 4) => ranges::<PackedBinaryField4x32b>(c),
					("ranges", 8) => ranges::<PackedBinaryField8x16b>(c),
					("ranges", _) => ranges::<ByteSlicedAES16x128b>(c),
					("packed", 1) => packed::<PackedBinaryField1x128b>(c),
					("packed", 2) => packed::<PackedBinaryField2x128b>(c),
					("packed", 4) => packed::<PackedBinaryField4x32b>(c),
					("packed", 8) => packed::<PackedBinaryField8x16b>(c),
					("packed", _) => {
						packed::<ByteSlicedAES16x128b>(c);
						packed::<PackedBinaryField16x8b>(c);
					}
					("sparse", _) => sparse(c),
					("sorting", _) => sorting(c),
					("components", _) => {
						let sets: Vec<Vec<usize>> = arr(&c["sets"]).iter().map(|s| arr(s).iter().map(us).collect()).collect();
						same("connected_components", connected_components(&sets), arr(&c["comps"]).iter().map(us).collect(), c);
					}
					("numbers", _) => numbers(c),
					_ => skips(c),
				});
				if let Err(e) = r {
					violation(format!("{}: panicked: {e}", st(&c["kind"])), c.clone());
				}
			}
		}
	});
	summary(serde_json::json!({ "checked": CHECKED.load(SeqCst) }));
}
