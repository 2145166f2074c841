import random
from vlib import *
from checks.systems import tla
BINS = ["h_circuit"]
ASSUMPTIONS = ["circuits of up to 12 steps over up to 5 variables and 16-bit constants, eight assignments each (zero, binary, 8-bit, 16-bit)",
               "a reported degree has to lie between the degree seen on lines through the origin and the formal degree; line coefficients up to degree 12"]
def V(i): return dict(o="var", v=i)
def K(v): return dict(o="const", v=v)
def A(a, b): return dict(o="add", a=a, b=b)
def M(a, b): return dict(o="mul", a=a, b=b)
def bits(e): return [(e >> i) & 1 for i in range(e.bit_length())]
def P(a, e): return dict(o="pow", a=a, e=bits(e))
XY = [V(0), V(1), V(2), M(0, 1)]
FIXED = [  # shapes in which a step is read by several others, around sums of products and powers
    XY + [M(0, 2), A(3, 4), M(3, 5)],
    XY + [M(0, 2), A(3, 4), M(5, 2), A(3, 6)],
    XY + [M(3, 2), A(3, 4), A(5, 3)],
    XY + [M(3, 3), A(3, 4), M(5, 5), A(5, 6), M(7, 3)],
    XY + [M(0, 2), A(3, 4), A(4, 5), M(6, 5)],
    [V(0), V(1), P(0, 3), M(2, 1), A(3, 2)], [V(0), V(1), P(0, 5), P(2, 3), A(2, 3), M(4, 2)], [V(0), P(0, 7), M(1, 1)],
    [V(0), P(0, 0)], [V(0), V(1), P(0, 0), M(2, 1), A(3, 0)], [V(0), V(1), M(0, 1), P(0, 0), K(7), M(3, 4), A(2, 5)],
    [V(0), P(0, 2**40 + 1), P(1, 2**30 + 3)], [V(0), P(0, 2**63), P(1, 2)], [V(0), P(0, 2**64 - 1), P(1, 2**64 - 1)],
    [V(0), P(0, 1), P(1, 1), A(2, 0)], [K(0), K(1), A(0, 1), P(2, 9), V(0), M(3, 4), M(5, 0), A(5, 6)], [K(0), P(0, 0)],
    [V(3), V(3), A(0, 1)], [V(0), V(0), M(0, 1), M(1, 0), A(2, 3)], [V(2)], [K(513)], [V(0), V(1), K(9), A(0, 1)],
    XY + [A(3, 2), M(4, 3), A(4, 5), M(6, 4), A(6, 7), M(8, 8), A(8, 9)],
]
def jobs(q, seed):
    R = random.Random(seed)
    J = [dict(seed=R.randrange(65000), n=len(f), nv=4, w=65536, profile="fixed", steps=f) for f in FIXED]
    for p, n in (("mix", 300), ("addmul", 400), ("pow", 200), ("linear", 200), ("consts", 150)):
        for _ in range(n if q else n * 12):
            J.append(dict(seed=R.randrange(65000), n=R.randrange(1, 12), nv=R.randrange(1, 6), w=R.choice([4, 256, 65536, 65536]), profile=p, steps=[]))
    return J
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    def gen(n, js): return ctx.tlc("Circuits", consts=dict(Jobs=tla(js)), invariants=["Holds"], name=n, workers=4)[1]
    res = parallel(lambda: gen("a", J[0::2]), lambda: gen("b", J[1::2]))
    cases = res[0] + res[1]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    ctx.sample(cases[5], 1)
    s = ctx.harness("h_circuit", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
    ctx.detail["cases"] = len(cases)
