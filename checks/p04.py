from vlib import *
BINS = ["h_sumcheck"]
ASSUMPTIONS = ["values and challenges range over the 16-bit subfield of the 128-bit field",
               "Fiat-Shamir challenges are chosen by the specification (scripted challenger; P01 decides the transcript)"]

def mono(c, *e): return "[c|->%d,e|-><<%s>>]" % (c, ",".join(map(str, e)))
def comp(*m): return "<<" + ",".join(m) + ">>"
def claim(n, kinds, *comps):
    return '[n|->%d,kinds|-><<%s>>,comps|-><<%s>>]' % (n, ",".join(f'"{k}"' for k in kinds), ",".join(comps))
def inst(*claims): return "<<" + ",".join(claims) + ">>"
prod2, prod3 = comp(mono(1, 1, 2)), comp(mono(1, 1, 2, 3))
lin = comp(mono(1, 1), mono(3, 2))
quad = comp(mono(1, 1, 2), mono(7, 3), mono(5))
sq = comp(mono(2, 1, 1), mono(1, 2))
quart = comp(mono(1, 1, 2, 3, 3), mono(4, 1, 2))
X2, X3 = ["x", "x"], ["x", "x", "x"]

EQUAL = [inst(claim(2, X2, prod2)),
         inst(claim(1, X2, prod2, lin)),
         inst(claim(3, ["b1", "b8", "b16"], prod3, quad)),
         inst(claim(2, X3, quart)),
         inst(claim(2, X2, sq), claim(2, X3, prod3)),
         inst(claim(0, X2, prod2)),
         inst(claim(1, ["b1"], comp(mono(1, 1)))),
         inst(claim(2, ["x", "eq"], comp(mono(1, 1, 2)))),
         inst(claim(3, ["b8", "x", "eq"], comp(mono(1, 1, 2, 3)), comp(mono(1, 2, 1, 3), mono(6, 2, 3)))),
         inst(claim(3, ["suf", "suf", "eq"], comp(mono(1, 1, 2, 3)))),
         inst(claim(3, ["suf", "x", "eq"], comp(mono(1, 1, 2, 3), mono(9, 1, 3))), claim(3, ["x", "eq"], comp(mono(1, 1, 2)))),
         inst(claim(2, ["x", "x", "eq"], comp(mono(1, 1, 2, 3))), claim(2, ["x", "x", "x", "eq"], comp(mono(1, 1, 3, 4)), comp(mono(1, 2, 3, 4))))]
DESC = [inst(claim(2, X2, prod2), claim(1, X2, lin)),
        inst(claim(3, X2, prod2), claim(1, X3, prod3, quad), claim(0, X2, prod2)),
        inst(claim(2, X3, quart), claim(2, X2, lin), claim(1, ["b1", "b1"], prod2)),
        inst(claim(3, ["x", "eq"], comp(mono(1, 1, 2))), claim(2, ["x", "x", "eq"], comp(mono(1, 1, 2, 3))), claim(1, ["b8", "eq"], comp(mono(1, 1, 2)))),
        inst(claim(3, X2, prod2), claim(2, X3, comp(mono(1, 2, 3)), comp(mono(1, 1, 3))), claim(0, X2, prod2)),
        inst(claim(2, X2, prod2), claim(0, ["x"], comp(mono(1, 1))), claim(0, ["x"], comp(mono(3, 1), mono(2)))),
        inst(claim(1, X2, prod2), claim(2, X2, lin), claim(0, X2, lin))]
ASC = [inst(claim(1, X2, lin), claim(2, X2, prod2)),
       inst(claim(0, X2, prod2), claim(1, X3, prod3, quad), claim(3, X2, prod2)),
       inst(claim(1, ["b1", "b1"], prod2), claim(2, X2, lin), claim(2, X3, quart)),
       inst(claim(1, ["b8", "eq"], comp(mono(1, 1, 2))), claim(2, ["x", "x", "eq"], comp(mono(1, 1, 2, 3))), claim(3, ["x", "eq"], comp(mono(1, 1, 2)))),
       inst(claim(0, X2, prod2), claim(2, X3, comp(mono(1, 2, 3)), comp(mono(1, 1, 3))), claim(3, X2, prod2)),
       inst(claim(0, ["x"], comp(mono(1, 1))), claim(0, ["x"], comp(mono(3, 1), mono(2))), claim(2, X2, prod2)),
       inst(claim(1, X2, prod2), claim(0, X2, lin))]
BIG = [inst(claim(5, ["b1", "x", "b8"], prod3, quad)),
       inst(claim(4, ["b1", "suf", "suf", "eq"], comp(mono(1, 1, 2, 4)), comp(mono(1, 2, 3, 4)))),
       inst(claim(5, ["x", "suf", "eq"], comp(mono(1, 1, 2, 3)))),
       inst(claim(4, X2, prod2), claim(4, X3, comp(mono(1, 2, 3)), comp(mono(1, 1, 3))))]
BACK, FRONT = '{<<"back","low">>,<<"back","high">>}', '{<<"front","low">>,<<"front","high">>}'
ALL = '{"back","front"}\\X{"low","high"}'
DEVS = '{"sum","adapt","round","eval","trunc"}'
seq = lambda l: "<<" + ",".join(l) + ">>"

def run(ctx):
    inv = ["HonestAccepted", "FalseSurfaces", "EvalLiesCaught", "Emit"]
    seeds = "{0,1}" if ctx.quick else "{0,1,2,3,4}"
    C = lambda i, p, s, d=DEVS: dict(Instances=seq(i), Protos=p, ChalSeeds=s, Deviations=d)
    runs = [("ScEqual", C(EQUAL, ALL, seeds)), ("ScBack", C(DESC + ASC[:2], BACK, seeds)), ("ScFront", C(ASC + DESC[:2], FRONT, seeds)),
            ("ScBig", C(BIG, ALL, "{2}", "{}" if ctx.quick else DEVS))]
    outs = parallel(*[lambda r=r: ctx.tlc("Sumcheck", consts=r[1], invariants=inv, name=r[0], workers=2) for r in runs],
                    lambda: ctx.tlc("SumcheckCalls", consts=dict(Shapes="{<<>>,<<0>>,<<1>>,<<2>>,<<0,1>>,<<1,1>>,<<0,2>>,<<1,2>>}", MaxLen=7 if ctx.quick else 9),
                                    invariants=["FinishedMeansDone", "Emit"], name="ScCalls", workers=2))
    jobs = []
    for r, o in zip(runs, outs):
        p = ctx.path(f"{r[0]}.ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        jobs.append(("replay", p))
    p = ctx.path("ScCalls.ndjson")
    write_ndjson(p, outs[-1][1])
    jobs.append(("calls", p))
    big = scaled([c for o in outs[:-1] for c in o[1]], [8, 6, 7, 9, 7, 10] if ctx.quick else [7, 8, 9, 11, 13], not ctx.quick)
    for i in range(4):
        p = ctx.path(f"ScLong{i}.ndjson")
        write_ndjson(p, big[i::4])
        jobs.append(("scale", p))
    for (k, p), s in zip(jobs, parallel(*[lambda j=j: ctx.harness("h_sumcheck", list(j)) for j in jobs])):
        ctx.traces += s["cases"]
        ctx.detail[os.path.basename(p)] = s
