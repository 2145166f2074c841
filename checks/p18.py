import random
from vlib import *
from checks.systems import tla
BINS = ["h_codec"]
ASSUMPTIONS = ["values of nesting depth up to 6 with at most 5 entries per collection, mutations of single bytes",
               "values that decode but that no constructor makes (a step beyond the table, an out-of-range bit pattern of a 1-, 2- or 4-bit field) may be accepted or refused",
               "the native bytes of POLYVAL elements are not prescribed, only that they read back"]
SIMPLE = ["u8", "u16", "u32", "u64", "u128", "usize", "usizebig", "bool", "str", "b1", "b2", "b4", "b8", "b16", "b32", "b64", "b128", "a8", "a16", "a32", "a64", "a128", "pv",
          "arr32", "arr1", "p8", "p16", "p32", "p64", "p128", "p256", "p512", "v_b8", "v_a16", "v_v_u16", "v_b1", "o_b32", "o_str", "o_v_bool", "o_o_u8", "t_u8_str", "v_t", "v_str",
          "t_nested", "phantom", "oid", "oidbig", "step_b8", "dir", "orconst", "pred", "sizespec", "shift", "proj"]
RICH = ["circ_b128", "circ_b8", "circ_a128", "cpoly", "flush", "boundary", "constraint", "cset", "sized", "exp", "poly", "symvariant", "symoracle", "polyvariant", "polyoracle", "oracleset"]
def jobs(q, seed):
    R = random.Random(seed)
    J = []
    for ty in SIMPLE:
        for _ in range(5 if q else 60):
            for mode in ("native", "canon"): J.append(dict(ty=ty, seed=R.randrange(65000), mode=mode, muts=8 if q else 20))
    for ty in RICH:
        n = dict(poly=60, symvariant=60, polyvariant=60, cpoly=8).get(ty, 14)
        for _ in range(n if q else n * 10):
            J.append(dict(ty=ty, seed=R.randrange(65000), mode=R.choice(["native", "canon"]), muts=12 if q else 30))
    for _ in range(12 if q else 100):
        J.append(dict(ty="system", seed=R.randrange(65000), mode=R.choice(["native", "canon"]), muts=12 if q else 30))
    R.shuffle(J)
    return J
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    def gen(n, js): return ctx.tlc("Codec", consts=dict(Jobs=tla(js)), invariants=["Holds"], name=n, workers=4)[1]
    res = parallel(lambda: gen("a", J[0::2]), lambda: gen("b", J[1::2]))
    cases = res[0] + res[1]
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    for k in ("poly", "o_str", "exp"): ctx.sample(next(c for c in cases if c["ty"] == k and c["m"]), 1)
    s = ctx.harness("h_codec", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
    ctx.detail["cases"] = len(cases)
