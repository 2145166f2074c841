import random
from vlib import *
from checks.systems import tla
BINS = ["h_multilinear"]
ASSUMPTIONS = ["multilinears of up to 12 variables, univariate polynomials of up to 12 points, matrices of up to 5 rows",
               "values in the 16-bit subfield, and in fields isomorphic to it",
               "a panic counts as a refusal of inadmissible sizes; results of inadmissible sizes are never judged, only that they are refused"]
def jobs(q, seed):
    R = random.Random(seed)
    J = []
    def s(): return R.randrange(9999)
    # every split of a small box, with values of every subfield
    for n in range(0, 7):
        for k in range(0, n + 1):
            for st in range(0, n - k + 1):
                for lv in ([0, 3, 4] if q else [0, 1, 2, 3, 4]):
                    J.append(dict(k="mle", n=n, q=k, s=st, lv=lv, ql=R.choice([4, 4, 3, 0] if lv < 4 else [4]), seed=s()))
    for n in (8, 9, 10, 11) if q else (8, 9, 10, 11, 12):
        ks = sorted(set([0, 1, 2, 3, 7, 8, n - 1, n] + R.sample(range(n + 1), 3)))
        for k in ks:
            if k > n: continue
            for st in sorted(set([0, n - k, R.randint(0, n - k)])):
                J.append(dict(k="mle", n=n, q=k, s=st, lv=0, ql=4, seed=s()))
                if n < 10 or not q: J.append(dict(k="mle", n=n, q=k, s=st, lv=R.choice([3, 4]), ql=4, seed=s()))
    J.append(dict(k="mle", n=11, q=11, s=0, lv=4, ql=4, seed=s()))
    # weights that are no tensor
    for n in range(0, 8):
        for k in range(0, n + 1):
            for st in sorted(set([0, n - k, R.randint(0, n - k)])):
                J.append(dict(k="fold", n=n, q=k, s=st, lv=R.choice([0, 0, 3, 4]), ql=4, seed=s()))
    for n, k in [(9, 0), (9, 1), (9, 2), (9, 3), (9, 5), (10, 6), (10, 7), (11, 8)]:
        for st in (0, n - k): J.append(dict(k="fold", n=n, q=k, s=st, lv=0, ql=4, seed=s()))
    for n in range(0, 5):
        for p in range(0, 4):
            for st in range(0, n + 2):
                for z in sorted(set([0, 2 ** p - 1, 2 ** p, R.randrange(2 ** p + 2)])):
                    J.append(dict(k="pad", n=n, p=p, s=st, z=z, lv=R.choice([0, 3, 4]), seed=s()))
    J += [dict(k="pad", n=9, p=1, s=R.randint(0, 9), z=1, lv=0, seed=s()), dict(k="pad", n=7, p=3, s=2, z=5, lv=0, seed=s())]
    for n in range(1, 6):
        for ln in range(0, 2 ** n + 1):
            if n == 5 and q and ln % 3: continue
            for lv in (0, 3, 4):
                J.append(dict(k="lerp", n=n, len=ln, c=R.choice([0, 1, 1]), lv=lv, ql=4, seed=s()))
    for n in range(0, 6):
        for k in range(0, 7):
            J.append(dict(k="eq", n=n, q=k, lv=R.choice([3, 4]), seed=s()))
    J += [dict(k="eq", n=0, q=9, lv=4, seed=s()), dict(k="eq", n=3, q=7, lv=3, seed=s()), dict(k="eq", n=8, q=3, lv=4, seed=s())]
    for _ in range(80 if q else 600):
        n = R.randint(0, 6)
        p = sorted([R.randint(0, n) for _ in range(R.randint(0, 5))], reverse=True)
        while sum(2 ** x for x in p) > 2 ** n and R.random() < 0.9: p.pop(0)
        J.append(dict(k="piece", n=n, pieces=p, lv=R.choice([3, 4]), seed=s()))
    for n in range(0, 10 if q else 13):
        for inf in (0, 1):
            for at in (0, 0, 1, n):
                J.append(dict(k="uni", n=n, inf=inf, dup=0, canon=R.choice([0, 1]), at=at, lv=R.choice([4, 3] + ([2] if n <= 16 else [])), ql=4, seed=s()))
        if n >= 2: J.append(dict(k="uni", n=n, inf=R.randint(0, 1), dup=1, canon=0, at=0, lv=4, ql=4, seed=s()))
    for n in range(0, 6):
        for lv in (0, 1, 3, 4):
            for _ in range(1 if n in (0, 5) else 6 if q else 40):
                J.append(dict(k="mat", n=n, m=R.randint(1, 4), lv=lv, seed=s()))
    for n in range(0, 9):
        J += [dict(k="span", n=n, canon=1, seed=0), dict(k="span", n=n, canon=0, seed=s())]
    for _ in range(40 if q else 300):
        rows, cols = R.randint(0, 4), R.randint(0, 6)
        a = R.randint(0, cols); b = R.randint(a, cols); c = R.randint(0, b - a); d = R.randint(c, b - a)
        J.append(dict(k="rows", rows=rows, cols=cols, a=a, b=b, c=c, d=d, pick=[R.randrange(rows) for _ in range(R.randint(0, 4))] if rows else []))
    for lv in (0, 3, 4):
        for n in list(range(0, 8)):
            for sub in range(0, n + 1):
                J.append(dict(k="embed", n=n, sub=sub, i=R.randrange(2 ** (n - sub)), deg=R.randint(0, 7 - lv), lv=lv, seed=s()))
    return J
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    def gen(n, js):
        return ctx.tlc("Multilinear", consts=dict(Jobs=tla(js)), invariants=["Holds"], name=n, workers=4)[1]
    res = parallel(lambda: gen("a", J[0::2]), lambda: gen("b", J[1::2]))
    cases = res[0] + res[1]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    for k in ("piece", "uni", "lerp"): ctx.sample(next(c for c in cases if c["k"] == k and c.get("n", 0) >= 2), 1)
    s = ctx.harness("h_multilinear", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
    ctx.detail["cases"] = len(cases)
