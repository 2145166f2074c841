from vlib import *
from checks.p04 import mono, comp, claim, inst, seq
BINS = ["h_zerocheck"]
ASSUMPTIONS = ["values and challenges range over the 16-bit subfield of the 128-bit field",
               "Fiat-Shamir challenges are chosen by the specification (scripted challenger; P01 decides the transcript)"]
mul = comp(mono(1, 1, 2), mono(1, 3))          # with kinds x, x, p12
mulc = comp(mono(7, 1, 2), mono(7, 3))
lin = comp(mono(1, 1), mono(1, 2), mono(1, 3)) # with s12
cub = comp(mono(1, 1, 1, 2), mono(1, 3))       # with p112
dis = comp(mono(3, 1, 2))                      # with z1 as second
K = ["b16", "b16", "p12"]
INST = [inst(claim(2, K, mul)),
        inst(claim(1, K, mul)),
        inst(claim(3, ["b1", "b8", "p12"], mul, mulc)),
        inst(claim(2, ["b8", "b16", "s12"], lin)),
        inst(claim(2, ["b16", "b8", "p112"], cub)),
        inst(claim(3, ["b1", "z1"], dis)),
        inst(claim(0, K, mul)),
        inst(claim(1, ["b1", "b1", "s12"], lin), claim(2, K, mul)),
        inst(claim(0, K, mul), claim(1, ["b8", "b1", "p112"], cub), claim(3, ["b1", "z1"], dis)),
        inst(claim(1, K, mul), claim(3, K, mulc, mul), claim(3, ["b16", "b16", "s12"], lin)),
        inst(claim(2, ["x", "x", "p12"], mul), claim(2, ["x", "b16", "p112"], cub)),
        inst(claim(2, K, mul), claim(1, K, mul)),
        inst(claim(2, ["b8"], comp(), comp(mono(0))), claim(2, K, mul)),
        inst(claim(2, ["b8"]), claim(2, K, mul)),
        inst(claim(2, ["b8"], comp(mono(0)))), inst(claim(1, ["b8"], comp(mono(5)))),
        inst()]
BIG = [inst(claim(4, ["b1", "b8", "p12"], mul, mulc)), inst(claim(2, K, mul), claim(5, ["b1", "b16", "p112"], cub), claim(5, K, mul)),
       inst(claim(5, ["b1", "z1"], dis))]
DEVS = '{"witness","adapt","adapteq","adaptred","uni","round","eval","redround","redeval","trunc"}'

def run(ctx):
    inv = ["HonestAccepted", "FalseSurfaces", "LiesSurface", "Emit"]
    C = lambda i, k, s, d: dict(Instances=seq(i), Skips=k, ChalSeeds=s, Deviations=d)
    runs = [("Zc", C(INST[:8], "0..3", "{1}" if ctx.quick else "{0,1,2,3}", DEVS)),
            ("ZcMix", C(INST[8:], "0..3", "{2}" if ctx.quick else "{0,2,3,4}", DEVS)),
            ("ZcHonest", C(INST, "0..4", "{0,3,5}", "{}")),
            ("ZcBig", C(BIG, "0..5", "{4}", "{}" if ctx.quick else DEVS))]
    outs = parallel(*[lambda r=r: ctx.tlc("Zerocheck", consts=r[1], invariants=inv, name=r[0], workers=3) for r in runs])
    jobs = []
    for r, o in zip(runs, outs):
        p = ctx.path(f"{r[0]}.ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        jobs.append(("replay", p))
    big = scaled([c for o in outs for c in o[1]], [8, 13, 7, 9, 14, 10] if ctx.quick else [6, 8, 9, 11, 13, 14], not ctx.quick)
    for i in range(4):
        p = ctx.path(f"ZcLong{i}.ndjson")
        write_ndjson(p, big[i::4])
        jobs.append(("scale", p))
    for (_, p), s in zip(jobs, parallel(*[lambda j=j: ctx.harness("h_zerocheck", list(j)) for j in jobs])):
        ctx.traces += s["cases"]
        ctx.detail[os.path.basename(p)] = s
