from vlib import *
from checks.systems import tla
BINS = ["h_field"]
ASSUMPTIONS = ["fields of up to 8 bits and unary operations of 16 bits in full; wider operands are corners, sparse, narrow and random ones",
               "packed types of the build's instruction set (x86-64-v3 with AES and PCLMULQDQ where the machine has them)"]
def jobs(q):
    J = []
    for lv in (0, 1, 2):
        J += [dict(k="all", f="bin", lv=lv, a=a) for a in range(2 ** 2 ** lv)] + [dict(k="unall", f="bin", lv=lv, a=0)]
    for f in ("bin", "aes"):
        J += [dict(k="all", f=f, lv=3, a=a) for a in range(256)] + [dict(k="unall", f=f, lv=3, a=0)]
        J += [dict(k="unall", f=f, lv=4, a=a) for a in range(256)]
        for lv in (4, 5, 6, 7):
            J += [dict(k="pairs", f=f, lv=lv, n=100) for _ in range(6 if q else 60)]
            if lv > 4: J += [dict(k="un", f=f, lv=lv, n=40) for _ in range(4 if q else 40)]
        for lv in range(0 if f == "bin" else 3, 8):
            J += [dict(k="pow", f=f, lv=lv, n=24, e=4)]
            for s in range(0 if f == "bin" else 3, lv + 1):
                J += [dict(k="sub", f=f, lv=lv, sub=s, n=64 if q else 300)]
    J += [dict(k="family", f=f, lv=lv) for f, l0 in (("bin", 0), ("aes", 3)) for lv in range(l0, 8)]
    for _ in range(4 if q else 30):
        J += [dict(k="pairs", f="poly", lv=7, n=36 + 4)]
    J += [dict(k="un", f="poly", lv=7, n=10) for _ in range(2 if q else 16)] + [dict(k="pow", f="poly", lv=7, n=8, e=1)]
    J += [dict(k="lanes", w=w) for w in range(0, 14)]
    J += [dict(k="transpose", w=w, t=t, m=m) for w in range(0, 8) for t in range(0, w + 1) for m in range(t, min(t + 3, 8))]
    for lv in range(0, 8):
        J += [dict(k="lin", lv=lv, n=40) for _ in range(2 if q else 10)]
    return J
def run(ctx):
    q = ctx.quick
    J = jobs(q)
    # every fourth job of each kind to a TLC of its own
    def gen(n, js):
        return ctx.tlc("Field", consts=dict(Jobs=tla(js)), invariants=["Holds"], name=n, args=["-seed", str(ctx.seed + len(n))], workers=4)[1]
    iso = ctx.path("iso.ndjson")
    ctx.harness("h_field", ["dump", iso])
    res = parallel(lambda: gen("a", J[0::2]), lambda: gen("bb", J[1::2]),
                   lambda: ctx.tlc("FieldIso", spec="IsoSpec", consts=dict(TraceFile=tla(iso), Jobs="<<>>"), invariants=["Isomorphic"], name="iso", workers=2))
    cases = res[0] + res[1]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    ctx.sample(cases[0], 3)
    s = ctx.harness("h_field", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
