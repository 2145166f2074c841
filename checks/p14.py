from vlib import *
from checks.systems import tla
BINS = ["h_gadget"]
ASSUMPTIONS = ["operands are fixed words in all pairs and random ones; the design of the constraints is explored in full for words of 4 bits",
               "another result is searched for by propagation and backtracking on the compiled constraints, with exponents taken modulo the base's order"]
G = lambda g, *fl: dict(g=g, fl=list(fl))
def gadgets():
    L = []
    for c in ([], ["c"]):
        for z in ([], ["z"]):
            for f in ([], ["f"]):
                L += [G("u32add", *c, *z, *f), G("u32sub", *c, *z, *f), G("wsub", *c, *z, *f)]
            L += [G("wadd", *c, *z), G("wadd", "64", *c, *z), G("wsub", "64", "f", *c, *z), G("stack", "64", *c, *z)]
    L += [G("stack"), G("stack", "128"), G("stack", "128", "c"), G("incr"), G("incr", "64"), G("twos"), G("twos", "64"), G("sconv"), G("sconv", "64"),
          G("barrel", "left"), G("barrel", "right"), G("barrel", "rot"), G("mul"), G("mul", "64"), G("mulw"), G("mulw", "64"), G("mulss"), G("mulsu"), G("div"), G("sdiv"),
          G("and"), G("and", "4"), G("incrlk"), G("incrlk", "m")]
    return L
HEAVY = {"mul", "mulw", "mulss", "mulsu", "div", "sdiv"}
def run(ctx):
    q = ctx.quick
    L = gadgets()
    heavy = [g for g in L if g["g"] in HEAVY]
    runs = [("fixed", L, 16, False), ("sim", L, 2 if q else 40, True), ("heavy", heavy, 3 if q else 60, True)]
    def gen(n, gs, b, sim):
        return ctx.tlc("Gadget", consts=dict(Gadgets=tla(gs), Batches=b, Rows=16, Sim=tla(sim)), invariants=["RowsHold"], name=n, args=["-seed", str(ctx.seed)], workers=4)[1]
    res = parallel(lambda: ctx.tlc("GadgetRules", consts=dict(W=4, Drop="{}"), invariants=["Sound", "Complete"], name="rules", workers=4), *[lambda a=a: gen(*a) for a in runs])
    cases = [c for r in res[1:] for c in r]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    ctx.sample(cases[0], 3)
    s = ctx.harness("h_gadget", ["run", f, "7" if q else "3"])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
