import random
from vlib import *
from checks.systems import tla
BINS = ["h_layer"]
ASSUMPTIONS = ["device buffers of up to 256 elements (some operations on up to 8192), power-of-two slices at aligned offsets, histories of up to six operations",
               "the reference layer and the optimised one with packed widths 1, 2 and 4 over the canonical tower, and widths 1, 2, 4 and byte-sliced 16 over the AES tower",
               "thread pools of 1, 3 and 8 threads; a panic counts as a refusal",
               "over the AES tower no Reed-Solomon folding, and subfields from 8 bits up (smaller ones have other bases there)"]
V = lambda v: dict(o="var", v=v)
K = lambda v: dict(o="const", v=v)
A = lambda a, b: dict(o="add", a=a, b=b)
M = lambda a, b: dict(o="mul", a=a, b=b)
def circuit(R):
    nv = R.randint(1, 4)
    cs = [V(i) for i in range(nv)] + [K(R.choice([0, 1, R.randrange(65536)]))]
    for _ in range(R.randint(0, 6)):
        n = len(cs)
        t = R.random()
        a, b = R.randrange(n), R.randrange(n)
        if t < .4: cs.append(A(a, b))
        elif t < .8: cs.append(M(a, b))
        else: cs.append(dict(o="pow", a=a, e=R.choice([0, 1, 2, 3, 4, 7])))
    return cs
FIXED = [[V(0)], [V(0), V(1), M(0, 1)], [V(0), V(1), K(0), M(1, 2), A(0, 3)], [V(1), V(1), A(0, 1), V(0), A(2, 3)], [K(7), V(0), V(2), K(1), M(0, 1)], [K(9)],
         [V(0), V(1), V(2), M(0, 1), A(3, 2)], [V(0), A(0, 0)]]
def jobs(q, seed):
    R = random.Random(seed)
    J = []
    def s(): return R.randrange(60000)
    def job(bufs, ops, m=65536): J.append(dict(bufs=bufs, ops=ops, m=m, seed=s()))
    def sl(b, n, o=0): return dict(b=b, o=o, n=n)
    def anysl(b, size, n): return sl(b, n, n * R.randrange(size // n))
    def cf(): return R.choice(FIXED) if R.random() < .4 else circuit(R)
    def nv(cs): return max([c["v"] + 1 for c in cs if c["o"] == "var"] + [0])
    def mat(lv, cells, asLv=None): return dict(lv=lv, cells=cells, asLv=lv if asLv is None else asLv, seed=s())
    SZ = [1, 2, 4, 8, 16, 32, 64, 128, 256]
    wrong = lambda n: R.choice([x for x in (n // 2, n * 2, n // 4, n * 4, 2 * n, 1) if x >= 1 and x != n])
    def some(n): return R.randrange(n)
    # ---- every operation on every size, from full buffers and from parts of larger ones ----
    for n in SZ:
        for whole in (1, 0):
            big = n if whole else min(256, n * R.choice([2, 4, 8]))
            S = lambda b: anysl(b, big, n)
            job([big, big], [dict(t="h2d", dst=S(1), len=n, m=65536, seed=s()), dict(t="d2h", src=S(1), len=n), dict(t="d2d", src=S(1), dst=S(2)), dict(t="fill", dst=S(1), v=R.randrange(65536)),
                             dict(t="h2d", dst=S(2), len=n, m=256, seed=s()), dict(t="d2h", src=S(2), len=n)])
            job([big, big], [dict(t="ext", dst=S(1), src=S(2), z=R.randrange(65536)), dict(t="ext", dst=S(2), src=S(1), z=R.choice([0, 1, 2]))])
            k = n.bit_length() - 1
            for a in sorted({0, k, R.randint(0, k), R.randint(0, k)}):
                job([big], [dict(t="tensor", dst=S(1), logn=a, nc=k - a, seed=s()), dict(t="tensor", dst=S(1), logn=R.choice([0, a]), nc=0, seed=s()) if n == 1 else dict(t="fill", dst=S(1), v=1)])
            for _ in range(3 if q else 8):
                cs = cf()
                rows = [S(b + 1) for b in range(nv(cs))]
                job([big] * (len(rows) + 1), [dict(t="comp", dst=S(len(rows) + 1), cs=cs) | {"in": rows}, dict(t="d2h", src=S(len(rows) + 1), len=n)])
            if n >= 2:
                outs = []
                bl = [big]
                x = n // 2
                while x >= 1:
                    b2 = x if whole else min(256, x * 4)
                    bl.append(b2); outs.append(anysl(len(bl), b2, x)); x //= 2
                job(bl, [dict(t="pair", src=S(1), outs=outs)])
                job(bl, [dict(t="pair", src=S(1), outs=outs[:-1])])
                if len(outs) > 1: job(bl, [dict(t="pair", src=S(1), outs=[outs[1], outs[0]] + outs[2:])])
    # ---- inner products and matrix products, every level ----
    for lv in (0, 3, 4, 5, 6, 7):
        d = 2 ** (7 - lv)
        for cells in (1, 2, 4, 8, 16):
            n = cells * d
            if n > 512: continue
            big = n if n > 128 else n * R.choice([1, 2])
            job([big], [dict(t="inner", src=anysl(1, big, n), **mat(lv, cells))])
            w = wrong(n)
            if w <= 512: job([w], [dict(t="inner", src=sl(1, w), **mat(lv, cells))])
            for _ in range(2 if q else 6):
                k = n.bit_length() - 1
                v = 2 ** R.randint(0, k)
                bo, bv = min(512, (n // v) * R.choice([1, 2])), min(512, v * R.choice([1, 2]))
                bo, bv = max(bo, n // v), max(bv, v)
                for t in ("foldl", "foldr"):
                    job([bv, bo], [dict(t=t, vec=anysl(1, bv, v), out=anysl(2, bo, n // v), **mat(lv, cells)), dict(t="d2h", src=sl(2, bo), len=bo)])
            for t in ("foldl", "foldr"):
                v = 2 ** R.randint(0, n.bit_length() - 1)
                w = wrong(n // v)
                if w <= 512: job([v, w], [dict(t=t, vec=sl(1, v), out=sl(2, w), **mat(lv, cells))])
        job([8], [dict(t="inner", src=sl(1, 8), **mat(7, 8, 8))])
        job([2, 4], [dict(t=R.choice(["foldl", "foldr"]), vec=sl(1, 2), out=sl(2, 4), **mat(7, 8, 8))])
    # ---- sizes at which work is split between threads ----
    for lv, cells in [(7, 1024), (7, 4096), (6, 1024), (4, 1024)] + ([] if q else [(7, 8192), (5, 2048), (3, 1024)]):
        job([cells << (7 - lv)], [dict(t="inner", src=sl(1, cells << (7 - lv)), **mat(lv, cells))])
    for k in (10, 12):
        a = R.randint(1, k - 1)
        job([2 ** k], [dict(t="tensor", dst=sl(1, 2 ** k), logn=a, nc=k - a, seed=s())])
        job([2 ** k] * 3, [dict(t="ext", dst=sl(1, 2 ** k), src=sl(2, 2 ** k), z=R.randrange(65536)), dict(t="comp", dst=sl(3, 2 ** k), cs=[V(0), V(1), M(0, 1), A(2, 0)]) | {"in": [sl(1, 2 ** k), sl(2, 2 ** k)]}])
    # ---- sizes that do not fit ----
    for n in (1, 2, 4, 8, 16, 32):
        w = wrong(n)
        job([n, w], [dict(t="h2d", dst=sl(1, n), len=w, m=65536, seed=s())])
        job([n, w], [dict(t="d2h", src=sl(1, n), len=w)])
        job([n, w], [dict(t="d2d", src=sl(1, n), dst=sl(2, w))])
        job([n, w], [dict(t="ext", src=sl(1, n), dst=sl(2, w), z=5)])
        for a in range(0, 7):
            for c in range(0, 7 - a):
                if 2 ** (a + c) != n and (R.random() < .3 or a + c < 3): job([n], [dict(t="tensor", dst=sl(1, n), logn=a, nc=c, seed=s())])
        cs = [V(0), V(1), M(0, 1)]
        job([n, n, w], [dict(t="comp", dst=sl(3, w), cs=cs) | {"in": [sl(1, n), sl(2, n)]}])
        job([n, n, n], [dict(t="comp", dst=sl(3, n), cs=cs) | {"in": [sl(1, n)]}])
        job([n, n, n, n], [dict(t="comp", dst=sl(3, n), cs=cs) | {"in": [sl(1, n), sl(2, n), sl(4, n)]}])
    # ---- Reed-Solomon folding ----
    for _ in range(90 if q else 500):
        L, b = R.randint(0, 5), R.randint(0, 3)
        before = R.choice([0, 0, 1, 2])
        if L + b > 7 or L + before == 0: continue
        nc = R.randint(b, b + L)
        ni, no = 2 ** (L + b), 2 ** (L + b - nc)
        bi, bo = ni * R.choice([1, 2]), no * R.choice([1, 1, 2, 4])
        kind = R.random()
        f = dict(t="fri", loglen=L, lb=b, nc=nc, before=before, seed=s(), src=anysl(1, bi, ni), out=anysl(2, bo, no))
        if kind < .25:
            w = R.choice(["src", "out", "nc"])
            if w == "nc": f["nc"] = R.choice([x for x in range(0, b + L + 3) if x != nc])
            else:
                n2 = wrong(f[w]["n"])
                if n2 > 256: continue
                if w == "src": bi = n2
                else: bo = n2
                f[w] = sl(1 if w == "src" else 2, n2)
        job([bi, bo], [f, dict(t="d2h", src=sl(2, bo), len=bo)])
    # ---- kernels ----
    for _ in range(150 if q else 900):
        n = 2 ** R.randint(0, 8)
        nb = R.randint(1, 4)
        bl, maps = [], []
        for k in range(nb):
            t = R.choice(["ref", "mut", "mut", "local"])
            if t == "local": maps.append(dict(t=t, n=n))
            else:
                bl.append(n * R.choice([1, 1, 2]))
                maps.append(dict(t=t, s=anysl(len(bl), bl[-1], n), min=R.choice([0, 0, 1, 3])))
        if not bl: continue
        prog, nacc = [], R.randint(1, 3)
        w = [k + 1 for k, m in enumerate(maps) if m["t"] != "ref"]
        for _ in range(R.randint(1, 5)):
            t = R.choice(["add", "acc", "sum", "sum"])
            if t == "sum" or not w:
                cs = cf()
                if nv(cs) == 0: cs = [V(0)]
                prog.append(dict(t="sum", d=R.randint(1, nacc), c=R.choice([1, R.randrange(65536)]), cs=cs) | {"in": [R.randint(1, nb) for _ in range(nv(cs))]})
            else:
                d = R.choice(w)
                o = [k + 1 for k in range(nb) if k + 1 != d]
                if not o: continue
                prog.append(dict(t="add", d=d, x=R.choice(o), y=R.choice(o)) if t == "add" else dict(t="acc", d=d, x=R.choice(o)))
        if not prog: continue
        kern = lambda f: dict(t="kern", maps=maps, prog=prog, nacc=nacc, mapk=R.random() < .35, fail=f)
        job(bl, [kern(False), kern(False)] if R.random() < .9 else [kern(False), kern(True)])
    # ---- several at once ----
    for _ in range(40 if q else 200):
        k = R.randint(1, 6)
        n = [2 ** R.randint(0, 5) for _ in range(k)]
        bl = n + n
        job(bl, [dict(t="many", srcs=[sl(x + 1, n[x]) for x in range(k)], dsts=[sl(k + x + 1, n[x]) for x in range(k)], how=R.choice(["map", "join"]), fail=0 if R.random() < .8 else R.randint(1, k), seed=s())])
    # ---- histories ----
    for _ in range(60 if q else 500):
        bl = [2 ** R.randint(0, 6) for _ in range(4)]
        ops = []
        def pick(n, b): return anysl(b, bl[b - 1], n)
        for _ in range(R.randint(3, 6)):
            x, y = R.sample([1, 2, 3, 4], 2)
            n = 2 ** R.randint(0, min(bl[x - 1], bl[y - 1]).bit_length() - 1)
            t = R.choice(["h2d", "d2d", "fill", "ext", "tensor", "comp", "kern", "foldl", "foldr", "inner"])
            X, Y = pick(n, x), pick(n, y)
            if t == "h2d": ops.append(dict(t=t, dst=X, len=n, m=65536, seed=s()))
            elif t == "d2d": ops.append(dict(t=t, src=X, dst=Y))
            elif t == "fill": ops.append(dict(t=t, dst=X, v=R.randrange(65536)))
            elif t == "ext": ops.append(dict(t=t, src=X, dst=Y, z=R.randrange(65536)))
            elif t == "tensor":
                k = n.bit_length() - 1; a = R.randint(0, k)
                ops.append(dict(t=t, dst=X, logn=a, nc=k - a, seed=s()))
            elif t == "comp":
                z = [b for b in (1, 2, 3, 4) if b != x and bl[b - 1] >= n]
                cs = cf()
                ops.append(dict(t=t, dst=X, cs=cs) | {"in": [pick(n, R.choice(z)) for _ in range(nv(cs))]})
            elif t == "kern":
                ops.append(dict(t=t, maps=[dict(t="mut", s=X, min=0), dict(t="ref", s=Y, min=R.choice([0, 2])), dict(t="local", n=n)], nacc=1, mapk=False, fail=False,
                                prog=[dict(t="acc", d=3, x=2), dict(t="acc", d=1, x=3), dict(t="sum", d=1, c=R.randrange(65536), cs=[V(0), V(1), M(0, 1)]) | {"in": [1, 3]}]))
            elif t in ("foldl", "foldr"):
                cells = R.choice([1, 2, 4]); tot = cells * R.choice([1, 2, 4, 8, 16])
                lv = 7 - (tot // cells).bit_length() + 1
                v = 2 ** R.randint(0, tot.bit_length() - 1)
                if v <= bl[x - 1] and tot // v <= bl[y - 1]: ops.append(dict(t=t, vec=pick(v, x), out=pick(tot // v, y), **mat(lv, cells)))
            else: ops.append(dict(t="inner", src=X, **mat(7, n)))
        job(bl, ops)
    return [x for x in J if x["ops"]]
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    def gen(n, js): return ctx.tlc("Layer", consts=dict(Jobs=tla(js)), invariants=["Holds"], props=["Frame"], name=n, workers=2)[1]
    res = parallel(*[lambda k=k: gen("abcd"[k], J[k::4]) for k in range(4)])
    cases = [c for r in res for c in r]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    for t in ("kern", "fri", "comp"): ctx.sample(next(c for c in cases if c["ops"][0]["op"]["t"] == t and max(c["bufs"]) <= 16), 1)
    s = ctx.harness("h_layer", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
    ctx.detail["cases"] = len(cases)
