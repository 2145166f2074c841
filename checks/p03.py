from vlib import *
BINS = ["h_fri"]
ASSUMPTIONS = ["Merkle commitments are binding (ideal oracles in the specification; P02 decides that)",
               "code values and challenges range over the 16-bit subfield of the 128-bit field"]
DEVS = '{"flip","shift","scramble","terminal","answer","othercoset","layer","truncate","highdeg"}'

def pset(l):
    return "{" + ",".join("[dim|->%d,rate|->%d,batch|->%d,arities|-><<%s>>]" % (d, r, b, ",".join(map(str, a)))
                          for d, r, b, a in l) + "}"

SMALL = [(1,1,0,[]),(1,1,1,[]),(1,1,1,[1]),(1,2,0,[]),(2,1,0,[1]),(2,1,1,[1,1]),(2,2,0,[1]),(2,1,1,[2]),(1,1,2,[2]),(2,1,2,[2]),
         (2,1,2,[2,1]),(2,1,2,[3]),(3,1,0,[1,1]),(3,1,0,[2]),(3,1,1,[2,1]),(3,1,1,[1,2]),(0,1,1,[]),(0,2,2,[]),(0,1,2,[]),(1,3,0,[]),(1,2,1,[1]),(1,3,1,[1])]
BIG = [(4,1,1,[1,2,1]),(3,2,1,[2]),(4,1,2,[2,3]),(4,2,0,[1,1,1]),(3,3,0,[1]),(4,1,0,[3]),(3,1,3,[3,1,1]),(4,1,2,[4,1]),(5,1,1,[2,2,1])]

def run(ctx):
    inv = ["HonestAccepted", "AcceptMeansConsistent", "HighDegreeRejected", "Emit"]
    C = lambda ps, mk, cs, nq, dv=DEVS: dict(Params=pset(ps), MsgKinds=mk, ChalSeeds=cs, NQueries=nq, Deviations=dv)
    runs = [("FriSmall", C(SMALL, '{"rand"}' if ctx.quick else '{"rand","unit","ramp","zero"}', "{1}" if ctx.quick else "{0,1,2}", 1)),
            ("FriHonest", C(SMALL + BIG, '{"ramp","unit","rand"}', "{0,2,3}", 3, "{}")),
            ("FriMulti", C(SMALL[4:14], '{"rand"}', "{2}", 3))]
    runs.append(("FriBig", C(BIG[:3] if ctx.quick else BIG, '{"rand"}', "{3}", 2)))
    if not ctx.quick:
        runs.append(("FriBig1", C(BIG[:4], '{"ramp"}', "{4}", 1)))
        runs.append(("FriMany", C(BIG, '{"ramp"}', "{1,2}", 5)))
    outs = parallel(*[lambda r=r: ctx.tlc("Fri", consts=r[1], invariants=inv, name=r[0], workers=3) for r in runs])
    jobs = []
    for r, o in zip(runs, outs):
        p = ctx.path(f"{r[0]}.ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        jobs.append(p)
    for p, s in zip(jobs, parallel(*[lambda p=p: ctx.harness("h_fri", ["replay", p]) for p in jobs])):
        ctx.traces += s["cases"]
        ctx.detail[os.path.basename(p)] = s
    ctx.detail["choose"] = ctx.harness("h_fri", ["choose"])
