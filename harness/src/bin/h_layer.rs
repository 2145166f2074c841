//! Replays the specification's histories of compute-layer operations on every layer and checks all of device memory after each.
use std::{
	cell::RefCell,
	sync::atomic::{AtomicUsize, Ordering::SeqCst},
};

use binius_compute::{
	ComputeHolder, ComputeLayerExecutor, KernelExecutor,
	alloc::ComputeAllocator,
	cpu::layer::CpuLayerHolder,
	layer::{ComputeLayer, Error, FSliceMut, KernelBuffer, KernelMemMap},
	memory::{ComputeMemory, SizedSlice, SlicesBatch, SubfieldSlice},
};
use binius_fast_compute::layer::FastCpuLayerHolder;
use binius_field::{
	tower::{AESTowerFamily, CanonicalTowerFamily},
	*,
};
use binius_math::{ArithCircuit, ArithCircuitStep};
use binius_ntt::SingleThreadedNTT;
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use vharness::{
	fm::{Fm, vals},
	*,
};

static CHECKED: AtomicUsize = AtomicUsize::new(0);

trait Top: Fm + TowerField + SerializeBytes + DeserializeBytes + ExtensionField<BinaryField1b> {
	const AES: bool;
	fn cells(lv: usize, v: &[u64]) -> Vec<Self>;
	/// folds, where the layer's field supports the domain
	fn fri<E: ComputeLayerExecutor<Self>>(
		exec: &mut E,
		domain: usize,
		log_len: usize,
		lb: usize,
		ch: &[Self],
		src: <E::DevMem as ComputeMemory<Self>>::FSlice<'_>,
		out: &mut <E::DevMem as ComputeMemory<Self>>::FSliceMut<'_>,
	) -> Result<(), Error>;
}
fn grp<S: Fm, F: ExtensionField<S>>(v: &[u64]) -> Vec<F> {
	v.chunks(F::DEGREE)
		.map(|c| F::from_bases(c.iter().map(|&x| S::of(x))).unwrap())
		.collect()
}
impl Top for BinaryField128b {
	const AES: bool = false;
	fn cells(lv: usize, v: &[u64]) -> Vec<Self> {
		match lv {
			0 => grp::<BinaryField1b, Self>(v),
			1 => v.chunks(64).map(|c| Self::new(c.iter().enumerate().fold(0u128, |a, (i, x)| a | (*x as u128) << (2 * i)))).collect(),
			2 => v.chunks(32).map(|c| Self::new(c.iter().enumerate().fold(0u128, |a, (i, x)| a | (*x as u128) << (4 * i)))).collect(),
			3 => grp::<BinaryField8b, Self>(v),
			4 => grp::<BinaryField16b, Self>(v),
			5 => grp::<BinaryField32b, Self>(v),
			6 => grp::<BinaryField64b, Self>(v),
			_ => v.iter().map(|&x| Self::of(x)).collect(),
		}
	}
	fn fri<E: ComputeLayerExecutor<Self>>(
		exec: &mut E,
		domain: usize,
		log_len: usize,
		lb: usize,
		ch: &[Self],
		src: <E::DevMem as ComputeMemory<Self>>::FSlice<'_>,
		out: &mut <E::DevMem as ComputeMemory<Self>>::FSliceMut<'_>,
	) -> Result<(), Error> {
		let ntt = SingleThreadedNTT::<BinaryField32b>::new(domain).unwrap();
		exec.fri_fold(&ntt, log_len, lb, ch, src, out)
	}
}
impl Top for AESTowerField128b {
	const AES: bool = true;
	fn cells(lv: usize, v: &[u64]) -> Vec<Self> {
		match lv {
			3 => grp::<AESTowerField8b, Self>(v),
			4 => grp::<AESTowerField16b, Self>(v),
			5 => grp::<AESTowerField32b, Self>(v),
			6 => grp::<AESTowerField64b, Self>(v),
			_ => v.iter().map(|&x| Self::of(x)).collect(),
		}
	}
	fn fri<E: ComputeLayerExecutor<Self>>(
		_: &mut E,
		_: usize,
		_: usize,
		_: usize,
		_: &[Self],
		_: <E::DevMem as ComputeMemory<Self>>::FSlice<'_>,
		_: &mut <E::DevMem as ComputeMemory<Self>>::FSliceMut<'_>,
	) -> Result<(), Error> {
		unreachable!()
	}
}
fn circuit<F: Top>(cs: &Value) -> ArithCircuit<F> {
	let steps: Vec<_> = arr(cs)
		.iter()
		.map(|s| match st(&s["o"]) {
			"add" => ArithCircuitStep::Add(us(&s["a"]), us(&s["b"])),
			"mul" => ArithCircuitStep::Mul(us(&s["a"]), us(&s["b"])),
			"pow" => ArithCircuitStep::Pow(us(&s["a"]), u(&s["e"])),
			"const" => ArithCircuitStep::Const(F::of(u(&s["v"]))),
			_ => ArithCircuitStep::Var(us(&s["v"])),
		})
		.collect();
	let mut buf = vec![];
	steps.serialize(&mut buf, SerializationMode::Native).unwrap();
	ArithCircuit::deserialize(&buf[..], SerializationMode::Native).unwrap()
}

type Sl<'a, F, M> = <M as ComputeMemory<F>>::FSlice<'a>;
type SlMut<'a, F, M> = <M as ComputeMemory<F>>::FSliceMut<'a>;
/// slice [o, o + n): by halving, or directly where the alignment allows it
fn sub<'a, F, M: ComputeMemory<F>>(mut d: Sl<'a, F, M>, s: &Value, how: usize) -> Sl<'a, F, M> {
	let (mut o, n) = (us(&s["o"]), us(&s["n"]));
	if how % 2 == 0 && o % M::ALIGNMENT == 0 && n % M::ALIGNMENT == 0 {
		return M::slice(d, o..o + n);
	}
	while d.len() > n {
		let h = d.len() / 2;
		let (l, r) = M::split_half(d);
		(d, o) = if o < h { (l, o) } else { (r, o - h) };
	}
	d
}
fn sub_mut<'a, F, M: ComputeMemory<F>>(d: &'a mut SlMut<'_, F, M>, s: &Value, how: usize) -> SlMut<'a, F, M> {
	let (mut o, n) = (us(&s["o"]), us(&s["n"]));
	if how % 2 == 0 && o % M::ALIGNMENT == 0 && n % M::ALIGNMENT == 0 {
		return M::slice_mut(d, o..o + n);
	}
	if how % 3 == 1 && o == 0 {
		return M::slice_power_of_two_mut(d, n);
	}
	let mut d = M::to_owned_mut(d);
	while d.len() > n {
		let h = d.len() / 2;
		let (l, r) = M::split_half_mut(d);
		(d, o) = if o < h { (l, o) } else { (r, o - h) };
	}
	d
}

fn replay<F: Top, L, H>(name: &str, holder: &mut H, case: &Value, how: usize)
where
	L: ComputeLayer<F> + Sync,
	H: ComputeHolder<F, L>,
{
	let data = holder.to_data();
	let hal = data.hal;
	let align = L::DevMem::ALIGNMENT;
	let lens: Vec<usize> = nums(&case["bufs"]).into_iter().map(|x| x as usize).collect();
	let bufs: Vec<RefCell<FSliceMut<'_, F, L>>> = lens.iter().map(|&n| RefCell::new(data.dev_alloc.alloc(n).unwrap())).collect();
	let mut want: Vec<Vec<F>> = arr(&case["mem0"]).iter().map(|v| vals::<F>(v)).collect();
	for (b, w) in bufs.iter().zip(&want) {
		hal.copy_h2d(w, &mut b.borrow_mut()).unwrap();
	}
	let _ = align;
	for (k, e) in arr(&case["ops"]).iter().enumerate() {
		let q = &e["op"];
		let t = st(&q["t"]);
		let ok = e["ok"].as_bool().unwrap();
		if F::AES && (t == "fri" || q["lv"].as_u64().is_some_and(|l| l < 3) || q["asLv"].as_u64().is_some_and(|l| l < 3)) {
			return;
		}
		let how = how + k;
		let bi = |s: &Value| us(&s["b"]) - 1;
		let operand: Vec<F> = e["x"].get("v").map(|v| vals(v)).unwrap_or_default();
		let got: Result<Result<Vec<F>, Error>, String> = guarded(|| match t {
			"h2d" => {
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				hal.copy_h2d(&operand, &mut d).map(|_| vec![])
			}
			"d2h" => {
				let b = bufs[bi(&q["src"])].borrow();
				let mut out = vec![F::of(77); us(&q["len"])];
				hal.copy_d2h(sub::<F, L::DevMem>(L::DevMem::as_const(&b), &q["src"], how), &mut out).map(|_| out)
			}
			"d2d" => {
				let a = bufs[bi(&q["src"])].borrow();
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				hal.copy_d2d(sub::<F, L::DevMem>(L::DevMem::as_const(&a), &q["src"], how), &mut d).map(|_| vec![])
			}
			"fill" => {
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				hal.fill(&mut d, F::of(u(&q["v"]))).map(|_| vec![])
			}
			"inner" | "foldl" | "foldr" => {
				let cells = F::cells(us(&q["lv"]), &nums(&e["x"]["mat"]));
				let mut m = data.dev_alloc.alloc(cells.len()).unwrap();
				hal.copy_h2d(&cells, &mut m)?;
				let m = L::DevMem::as_const(&m);
				if t == "inner" {
					let b = bufs[bi(&q["src"])].borrow();
					let v = sub::<F, L::DevMem>(L::DevMem::as_const(&b), &q["src"], how);
					return hal.execute(|x| Ok(vec![x.inner_product(SubfieldSlice::new(m, us(&q["asLv"])), v)?]));
				}
				let a = bufs[bi(&q["vec"])].borrow();
				let v = sub::<F, L::DevMem>(L::DevMem::as_const(&a), &q["vec"], how);
				let mut b = bufs[bi(&q["out"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["out"], how);
				hal.execute(|x| {
					let m = SubfieldSlice::new(m, us(&q["asLv"]));
					if t == "foldl" { x.fold_left(m, v, &mut d) } else { x.fold_right(m, v, &mut d) }?;
					Ok(vec![])
				})
			}
			"tensor" => {
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				hal.execute(|x| x.tensor_expand(us(&q["logn"]), &operand, &mut d).map(|_| vec![]))
			}
			"fri" => {
				let a = bufs[bi(&q["src"])].borrow();
				let mut b = bufs[bi(&q["out"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["out"], how);
				let s = sub::<F, L::DevMem>(L::DevMem::as_const(&a), &q["src"], how);
				let (l, before) = (us(&q["loglen"]), us(&q["before"]));
				hal.execute(|x| F::fri(x, l + before, l, us(&q["lb"]), &operand, s, &mut d).map(|_| vec![]))
			}
			"ext" => {
				let a = bufs[bi(&q["src"])].borrow();
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				let s = sub::<F, L::DevMem>(L::DevMem::as_const(&a), &q["src"], how);
				hal.execute(|x| x.extrapolate_line(&mut d, s, F::of(u(&q["z"]))).map(|_| vec![]))
			}
			"comp" => {
				let ins: Vec<_> = arr(&q["in"]).iter().map(|s| bufs[bi(s)].borrow()).collect();
				let rows: Vec<_> = ins.iter().zip(arr(&q["in"])).map(|(b, s)| sub::<F, L::DevMem>(L::DevMem::as_const(b), s, how)).collect();
				let mut b = bufs[bi(&q["dst"])].borrow_mut();
				let mut d = sub_mut::<F, L::DevMem>(&mut b, &q["dst"], how);
				let expr = hal.compile_expr(&circuit::<F>(&q["cs"]))?;
				let n = rows.first().map(|r| r.len()).unwrap_or(us(&q["dst"]["n"]));
				let batch = SlicesBatch::new(rows, n);
				hal.execute(|x| x.compute_composite(&batch, &mut d, &expr).map(|_| vec![]))
			}
			"pair" => {
				let a = bufs[bi(&q["src"])].borrow();
				let s = sub::<F, L::DevMem>(L::DevMem::as_const(&a), &q["src"], how);
				let mut os: Vec<_> = arr(&q["outs"]).iter().map(|s| bufs[bi(s)].borrow_mut()).collect();
				let mut outs: Vec<_> = os.iter_mut().zip(arr(&q["outs"])).map(|(b, s)| sub_mut::<F, L::DevMem>(b, s, how)).collect();
				hal.execute(|x| x.pairwise_product_reduce(s, &mut outs).map(|_| vec![]))
			}
			"kern" => kernel::<F, L>(hal, &bufs, q, how),
			"many" => {
				let zs = &operand;
				let fail = us(&q["fail"]);
				let mut os: Vec<_> = arr(&q["dsts"]).iter().map(|s| bufs[bi(s)].borrow_mut()).collect();
				let ins: Vec<_> = arr(&q["srcs"]).iter().map(|s| bufs[bi(s)].borrow()).collect();
				let srcs: Vec<_> = ins.iter().zip(arr(&q["srcs"])).map(|(b, s)| sub::<F, L::DevMem>(L::DevMem::as_const(b), s, how)).collect();
				let outs: Vec<_> = os.iter_mut().zip(arr(&q["dsts"])).map(|(b, s)| sub_mut::<F, L::DevMem>(b, s, how)).collect();
				let items: Vec<_> = srcs.into_iter().zip(outs).zip(zs.iter().copied()).enumerate().collect();
				fn one<'x, F: Top, E: ComputeLayerExecutor<F>>(
					x: &mut E,
					(k, ((s, mut d), z)): (usize, ((Sl<'x, F, E::DevMem>, SlMut<'x, F, E::DevMem>), F)),
					fail: usize,
				) -> Result<E::OpValue, Error> {
					// the first items take the longest
					std::thread::sleep(std::time::Duration::from_micros(200 * 8usize.saturating_sub(k) as u64));
					x.extrapolate_line(&mut d, s, z)?;
					let v = x.inner_product(SubfieldSlice::new(E::DevMem::as_const(&d), 7), s)?;
					if k + 1 == fail {
						return Err(Error::InputValidation("asked for".into()));
					}
					Ok(v)
				}
				if st(&q["how"]) == "map" {
					hal.execute(|x| x.map(items.into_iter(), |x, it| one::<F, _>(x, it, fail)))
				} else {
					// nested pairs, left to right
					fn tree<'x, F: Top, E: ComputeLayerExecutor<F>>(
						x: &mut E,
						mut it: Vec<(usize, ((Sl<'x, F, E::DevMem>, SlMut<'x, F, E::DevMem>), F))>,
						fail: usize,
					) -> Result<Vec<E::OpValue>, Error> {
						if it.len() == 1 {
							return Ok(vec![one::<F, E>(x, it.pop().unwrap(), fail)?]);
						}
						let r = it.split_off(it.len() / 2);
						let (mut a, b) = x.join(move |x| tree::<F, E>(x, it, fail), move |x| tree::<F, E>(x, r, fail))?;
						a.extend(b);
						Ok(a)
					}
					hal.execute(|x| tree::<F, _>(x, items, fail))
				}
			}
			_ => panic!("unknown operation"),
		});
		CHECKED.fetch_add(1, SeqCst);
		match (ok, got) {
			(false, Ok(Ok(_))) => {
				violation(format!("{name}: {t} accepted although the sizes do not fit (operation {k})"), case.clone());
				return;
			}
			(false, _) => return,
			(true, Ok(Ok(out))) => {
				let w = vals::<F>(&e["out"]);
				if out != w {
					violation(format!("{name}: {t} returned {out:?}, not {w:?} (operation {k})"), case.clone());
					return;
				}
			}
			(true, Ok(Err(x))) => {
				violation(format!("{name}: {t} refused: {x} (operation {k})"), case.clone());
				return;
			}
			(true, Err(x)) => {
				violation(format!("{name}: {t} panicked: {x} (operation {k})"), case.clone());
				return;
			}
		}
		for c in arr(&e["ch"]) {
			want[us(&c["b"]) - 1] = vals(&c["v"]);
		}
		for (i, (b, w)) in bufs.iter().zip(&want).enumerate() {
			let b = b.borrow();
			let mut out = vec![F::of(5); w.len()];
			hal.copy_d2h(L::DevMem::as_const(&b), &mut out).unwrap();
			if let Some(x) = (0..w.len()).find(|&x| out[x] != w[x]) {
				violation(format!("{name}: after {t} cell {x} of buffer {} is {:?}, not {:?} (operation {k})", i + 1, out[x], w[x]), case.clone());
				return;
			}
		}
	}
}

fn kernel<F: Top, L: ComputeLayer<F> + Sync>(hal: &L, bufs: &[RefCell<FSliceMut<'_, F, L>>], q: &Value, how: usize) -> Result<Vec<F>, Error> {
	let maps = arr(&q["maps"]);
	let prog = arr(&q["prog"]);
	let fail = q["fail"].as_bool().unwrap();
	let mut refs = vec![];
	let mut muts = vec![];
	for m in maps {
		match st(&m["t"]) {
			"ref" => refs.push((bufs[us(&m["s"]["b"]) - 1].borrow(), m)),
			"mut" => muts.push((bufs[us(&m["s"]["b"]) - 1].borrow_mut(), m)),
			_ => {}
		}
	}
	let (mut ri, mut mi) = (refs.iter(), muts.iter_mut());
	let mem: Vec<KernelMemMap<'_, F, L::DevMem>> = maps
		.iter()
		.map(|m| match st(&m["t"]) {
			"ref" => KernelMemMap::Chunked {
				data: sub::<F, L::DevMem>(L::DevMem::as_const(&ri.next().unwrap().0), &m["s"], how),
				log_min_chunk_size: us(&m["min"]),
			},
			"mut" => KernelMemMap::ChunkedMut {
				data: sub_mut::<F, L::DevMem>(&mut mi.next().unwrap().0, &m["s"], how),
				log_min_chunk_size: us(&m["min"]),
			},
			_ => KernelMemMap::Local { log_size: u(&m["n"]).ilog2() as usize },
		})
		.collect();
	let exprs: Vec<_> = prog
		.iter()
		.map(|p| if st(&p["t"]) == "sum" { hal.compile_expr(&circuit::<F>(&p["cs"])).map(Some) } else { Ok(None) })
		.collect::<Result<_, _>>()?;
	fn run<'a, F: Top, K: KernelExecutor<F>>(
		x: &'a mut K,
		bs: Vec<KernelBuffer<'a, F, K::Mem>>,
		prog: &[Value],
		exprs: &[Option<K::ExprEval>],
		nacc: usize,
		fail: bool,
	) -> Result<Vec<K::Value>, Error> {
		let mut bs: Vec<Option<KernelBuffer<'a, F, K::Mem>>> = bs.into_iter().map(Some).collect();
		let mut acc = (0..nacc).map(|_| x.decl_value(F::ZERO)).collect::<Result<Vec<_>, _>>()?;
		for (p, e) in prog.iter().zip(exprs) {
			let d = us(&p["d"]) - 1;
			match st(&p["t"]) {
				"sum" => {
					let rows: Vec<_> = arr(&p["in"]).iter().map(|i| bs[us(i) - 1].as_ref().unwrap().to_ref()).collect();
					let n = rows[0].len();
					let b = SlicesBatch::new(rows, n);
					x.sum_composition_evals(&b, e.as_ref().unwrap(), F::of(u(&p["c"])), &mut acc[d])?;
				}
				t => {
					let Some(KernelBuffer::Mut(mut dst)) = bs[d].take() else { panic!("not writable") };
					let log = dst.len().ilog2() as usize;
					let a = bs[us(&p["x"]) - 1].as_ref().unwrap().to_ref();
					if t == "add" {
						x.add(log, a, bs[us(&p["y"]) - 1].as_ref().unwrap().to_ref(), &mut dst)?;
					} else {
						x.add_assign(log, a, &mut dst)?;
					}
					bs[d] = Some(KernelBuffer::Mut(dst));
				}
			}
		}
		if fail {
			return Err(Error::InputValidation("asked for".into()));
		}
		Ok(acc)
	}
	let nacc = us(&q["nacc"]);
	if q["mapk"].as_bool().unwrap() {
		hal.execute(|ex| ex.map_kernels(|x, _, b| run::<F, _>(x, b, prog, &exprs, nacc, fail).map(|_| ()), mem).map(|_| vec![]))
	} else {
		hal.execute(|ex| ex.accumulate_kernels(|x, _, b| run::<F, _>(x, b, prog, &exprs, nacc, fail), mem))
	}
}

fn fast<T: tower::TowerFamily<B128: Top>, P: tower::PackedTop<T>>(name: &str, case: &Value, how: usize) {
	let mut h = FastCpuLayerHolder::<T, P>::new(16, 1 << 15);
	replay::<T::B128, _, _>(name, &mut h, case, how);
}
fn one(case: &Value, how: usize) {
	replay::<BinaryField128b, _, _>("reference", &mut CpuLayerHolder::<BinaryField128b>::new(16, 1 << 15), case, how);
	fast::<CanonicalTowerFamily, PackedBinaryField1x128b>("fast 1x128b", case, how);
	fast::<CanonicalTowerFamily, PackedBinaryField2x128b>("fast 2x128b", case, how);
	fast::<CanonicalTowerFamily, PackedBinaryField4x128b>("fast 4x128b", case, how);
	fast::<AESTowerFamily, PackedAESBinaryField1x128b>("fast AES 1x128b", case, how);
	fast::<AESTowerFamily, PackedAESBinaryField2x128b>("fast AES 2x128b", case, how);
	fast::<AESTowerFamily, PackedAESBinaryField4x128b>("fast AES 4x128b", case, how);
	fast::<AESTowerFamily, ByteSlicedAES16x128b>("fast byte-sliced 16x128b", case, how);
}
fn main() {
	init();
	let a = args();
	let cases = read_ndjson(&a[1]);
	let pools: Vec<_> = [1usize, 3, 8].iter().map(|&n| rayon_pool(n)).collect();
	let next = AtomicUsize::new(0);
	std::thread::scope(|s| {
		for _ in 0..6 {
			s.spawn(|| loop {
				let i = next.fetch_add(1, SeqCst);
				if i >= cases.len() {
					break;
				}
				for (k, p) in pools.iter().enumerate() {
					p.install(|| one(&cases[i], i + k));
				}
			});
		}
	});
	summary(serde_json::json!({ "checked": CHECKED.load(SeqCst) }));
}
fn rayon_pool(n: usize) -> rayon::ThreadPool {
	rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
