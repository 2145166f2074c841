import random
from vlib import *
from checks.systems import tla
BINS = ["h_ntt"]
ASSUMPTIONS = ["transforms of up to 2^7 rows and 2^9 entries, domains of up to 2^12 points (2^16 for the limits)",
               "bases that start with one; values in the 16-bit subfield, and in fields isomorphic to it"]
def jobs(q, seed):
    R = random.Random(seed)
    J = []
    def basis(): return R.choice([0, 0, R.randrange(1, 999)])
    # every shape of a small box, with a coset and a number of rounds left out chosen for each
    for x in range(0, 6):
        for y in range(0, 7):
            for z in range(0, 3):
                if x + y + z > (8 if q else 9): continue
                for n in range(6 if q else 30):
                    lv = R.choice([3, 4])
                    cb = R.choice([0, 0, 1, 2, 3, 5, 9])
                    top = 8 if lv == 3 else 12
                    cb = min(cb, top - y)
                    L = max(1, R.randint(y + cb, min(top, y + cb + 3)))
                    c = R.choice([R.randrange(2 ** cb), 2 ** cb - 1 - R.randrange(2 ** cb) % 4 % 2 ** cb])
                    J.append(dict(k="ntt", lv=lv, L=L, basis=basis(), x=x, y=y, z=z, c=c, cb=cb,
                                  skip=(0 if n % 2 == 0 else R.randint(0, y)), seed=R.randrange(9999)))
    for y, x in [(7, 0), (7, 1), (8, 0)] + ([] if q else [(8, 1), (9, 0), (7, 3)]):
        for sk in (0, 1, 4):
            J.append(dict(k="ntt", lv=4, L=y + 2, basis=basis(), x=x, y=y, z=0, c=R.randrange(4), cb=2, skip=sk, seed=R.randrange(9999)))
    for dim in range(0, 6):
        for rate in range(0, 4):
            for batch in range(0, 5):
                if dim + rate + batch > 8 or dim + rate == 0: continue
                lv = R.choice([3, 4])
                J.append(dict(k="rs", lv=lv, L=min(8, dim + rate + R.choice([0, 0, 1, 2])), basis=basis(), dim=dim, rate=rate, batch=batch, seed=R.randrange(9999)))
    for d in range(1, 8 if q else 12):
        for ell in range(0, 4):
            cb = max((d - 1).bit_length(), R.randint(0, 4))
            J.append(dict(k="odd", lv=R.choice([3, 4]), L=max(1, min(8, cb + ell + R.randint(0, 2))), basis=basis(), d=d, ell=ell, cb=min(cb, 8 - ell), seed=R.randrange(9999)))
    for ln in range(0, 6):
        for batch in range(0, 4):
            for n in range(batch, batch + ln + 1):
                lv = R.choice([3, 4])
                J.append(dict(k="fold", lv=lv, L=max(1, ln + R.randint(0, 2)), basis=basis(), len=ln, batch=batch, n=n, seed=R.randrange(9999)))
    for L in range(1, 9):
        J += [dict(k="tw", lv=3, L=L, basis=0), dict(k="tw", lv=3, L=L, basis=R.randrange(1, 999)), dict(k="tw", lv=4, L=L + 1, basis=R.randrange(1, 999))]
    # shapes of which most are inadmissible
    for _ in range(300 if q else 3000):
        x, y, z = R.randint(0, 3), R.randint(0, 5), R.randint(0, 2)
        cb = R.randint(0, 3)
        J.append(dict(k="shape", lv=3, L=R.choice([y + cb, 6, 8, max(1, y + cb - 1)]) or 1, basis=0, x=x, y=y, z=z, c=R.choice([0, 0, 2 ** cb - 1, 2 ** cb, 2 ** cb + 1]), cb=cb,
                      skip=R.choice([0, 0, y, y + 1]), len=R.choice([2 ** (x + y + z)] * 3 + [2 ** (x + y + z) * 4, 2 ** (x + y + z + 2) + 1, 8, 2 ** max(0, x + y + z - 1), 3, 0])))
    return J
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    def gen(n, js):
        return ctx.tlc("Ntt", consts=dict(Jobs=tla(js)), invariants=["Holds"], name=n, workers=4)[1]
    res = parallel(lambda: gen("a", J[0::2]), lambda: gen("b", J[1::2]))
    cases = res[0] + res[1]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    for k in ("rs", "odd", "fold"): ctx.sample(next(c for c in cases if c["k"] == k), 1)
    s = ctx.harness("h_ntt", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
