import random
from vlib import *
from checks.systems import tla
BINS = ["h_memory"]
ASSUMPTIONS = ["memories of up to 64 cells with alignment 1, 2, 4, 8 and 16; every history of up to three operations on the smallest ones, drawn histories of up to 24 operations",
               "bounds that are not multiples of the alignment, and requests that are neither multiples of it nor powers of two below it, are outside the contract and not judged"]
def run(ctx):
    q, R = ctx.quick, random.Random(ctx.seed)
    n = 1 if q else 10
    V = [dict(w=w, blocks=b, seed=R.randrange(65000), depth=R.randrange(4, 24), all=False, lane=i % 20 == 19) for w, b in ((1, 8), (1, 3), (2, 4), (2, 3), (4, 4), (4, 1), (4, 3), (8, 2), (16, 2), (16, 4), (4, 5), (1, 16)) for i in range(60 * n)]
    VA = [dict(w=w, blocks=b, seed=R.randrange(65000), depth=d, all=True, lane=True) for w, b, d in (((1, 2, 2), (2, 2, 2), (4, 1, 3)) if q else ((1, 4, 3), (2, 3, 3), (4, 2, 3), (4, 1, 5)))]
    A = [dict(w=w, blocks=b, seed=R.randrange(65000), depth=R.randrange(3, 20), all=False) for w, b in ((1, 9), (1, 16), (2, 6), (4, 6), (4, 3), (8, 3), (16, 4)) for _ in range(40 * n)]
    AA = [dict(w=w, blocks=b, seed=R.randrange(65000), depth=d, all=True) for w, b, d in (((1, 3, 3), (4, 2, 3)) if q else ((1, 4, 4), (2, 2, 4), (4, 2, 4)))]
    C = []
    def c(kind, **k): C.append(dict(kind=kind, seed=R.randrange(65000), **k))
    for _ in range(25 * n):
        c("grid", rows=R.randrange(0, 6), cols=R.randrange(0, 6), n=12)
        c("strides", rows=R.randrange(0, 5), cols=R.randrange(1, 9), s1=R.randrange(1, 6), s2=R.randrange(0, 3), n=16)
        for w in (1, 2, 4, 8, 16):
            c("ranges", w=w, blocks=R.randrange(1, 4), n=8)
            c("packed", w=w, blocks=R.randrange(0, 4), n=8)
        c("sparse", keys=R.randrange(1, 9), n=R.randrange(0, 16))
        c("sorting", keys=R.randrange(1, 6), n=R.randrange(0, 12))
        c("components", keys=R.randrange(1, 12), n=R.randrange(0, 8))
        c("numbers", n=12)
        c("skips", n=R.randrange(0, 8))
    inv = ["Apart", "Inside"]
    parts = parallel(lambda: ctx.tlc("MemViews", consts=dict(Jobs=tla(V)), invariants=inv, name="views", workers=3)[1],
                     lambda: ctx.tlc("MemViews", consts=dict(Jobs=tla(VA)), invariants=inv, name="viewsall", workers=3)[1],
                     lambda: ctx.tlc("Alloc", consts=dict(Jobs=tla(A + AA)), invariants=["Apart", "Fits"], name="alloc", workers=2)[1],
                     lambda: ctx.tlc("Containers", consts=dict(Jobs=tla(C)), invariants=["Holds"], name="containers", workers=2)[1])
    cases = [dict(part="views", **x) for x in parts[0] + parts[1]] + [dict(part="alloc", **x) for x in parts[2]] + [dict(part="box", **x) for x in parts[3]]
    ctx.sample(parts[0][0], 1)
    report = ctx.violation
    def lane(what, data):  # histories with the known defect: only wrong contents are put down to it
        data_only = "contents of the views" in what or "memory at the end" in what
        report(("a part of a packed element past its first lane, borrowed: " if data_only and "PackedMemory" in what else "") + what, data)
    for name in ("cases", "lane"):
        f = ctx.path(name + ".ndjson")
        write_ndjson(f, [c for c in cases if (name == "lane") == bool(c.get("lane"))])
        ctx.violation = lane if name == "lane" else report
        s = ctx.harness("h_memory", ["run", f])
        ctx.traces += s["checked"]
        ctx.detail["replay of " + name] = s
    ctx.violation = report
    ctx.detail["cases"] = {k: len(p) for k, p in zip(("views", "views_all", "alloc", "containers"), parts)}
