from vlib import *
BINS = ["h_exp"]
ASSUMPTIONS = ["values and challenges range over the 16-bit subfield of the 128-bit field",
               "Fiat-Shamir challenges are chosen by the specification (scripted challenger; P01 decides the transcript)"]
def sh(*cl):
    return "<<" + ",".join('[n|->%d,w|->%d,dyn|->%s,g|->%d,kind|->"%s",p|->%d]' % (n, w, "TRUE" if g is None else "FALSE", g or 0, k, p)
                           for n, w, g, k, p in cl) + ">>"
D = None
SMALL = [sh((0, 1, 2, "x", 0)), sh((1, 1, 3, "x", 0)), sh((2, 2, 777, "x", 0)), sh((1, 3, 40000, "x", 0)), sh((2, 4, 255, "x", 0)),
         sh((1, 1, D, "x", 0)), sh((2, 2, D, "x", 0)), sh((1, 3, D, "x", 0)), sh((2, 3, 9, "zero", 0)), sh((2, 2, D, "one", 0)), sh((0, 2, D, "x", 0)), sh((0, 2, 9, "x", 0)), sh((0, 3, 5, "x", 0), (0, 2, D, "x", 0)),
         sh((2, 2, 5, "x", 0), (2, 2, 6, "x", 0)), sh((2, 2, 5, "x", 0), (2, 3, D, "x", 0)), sh((2, 1, 5, "x", 0), (2, 2, 6, "x", 1)),
         sh((3, 2, D, "x", 0), (1, 3, 7, "x", 0)), sh((2, 3, 11, "x", 0), (1, 1, 12, "x", 0), (1, 2, D, "x", 1)),
         sh((2, 2, D, "x", 0), (2, 1, D, "x", 1), (0, 2, 9, "x", 0)), sh((1, 2, 5, "x", 0), (2, 2, 6, "x", 0)), sh((2, 0 + 1, 9, "x", 0), (2, 1, 8, "x", 0), (1, 1, 8, "x", 0)),
         sh((2, 1, 5, "x", 0), (2, 3, 6, "x", 1), (2, 1, 6, "x", 0), (1, 2, D, "x", 0))]
BIG = [sh((3, 6, 4099, "x", 0), (3, 3, D, "x", 0), (2, 5, D, "x", 1)), sh((4, 8, D, "x", 0)), sh((4, 16, 2, "x", 0)), sh((3, 16, D, "x", 2), (3, 16, D, "x", 2), (0, 3, 3, "x", 0))]
WIDE = [sh((1, 66, 40001, "x", 0)), sh((1, 66, D, "x", 0)), sh((1, 70, 777, "x", 0), (1, 34, D, "x", 0), (0, 65, 2, "one", 0)), sh((1, 64, 2, "x", 0))] # wider than a machine word
DEVS = '{"claim","adapt","adapteq","eval","round","trunc"}'
seq = lambda l: "<<" + ",".join(l) + ">>"
def run(ctx):
    inv = ["HonestAccepted", "FalseSurfaces", "Emit"]
    C = lambda i, s, d: dict(Shapes=seq(i), Orders='{"low","high"}', ChalSeeds=s, Deviations=d)
    runs = [("Exp", C(SMALL, "{1,2}" if ctx.quick else "1..8", DEVS)), ("ExpBig", C(BIG, "{3}" if ctx.quick else "3..6", "{}" if ctx.quick else DEVS)),
            ("ExpWide", C(WIDE, "{4}" if ctx.quick else "4..6", '{"claim"}'))]
    outs = parallel(*[lambda r=r: ctx.tlc("Exp", consts=r[1], invariants=inv, name=r[0], workers=4) for r in runs])
    jobs = []
    for r, o in zip(runs, outs):
        p = ctx.path(f"{r[0]}.ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        jobs.append(("replay", p))
    big = scaled([c for o in outs for c in o[1]], [8, 7, 6, 10] if ctx.quick else [7, 8, 9, 11], not ctx.quick)
    for i in range(4):
        p = ctx.path(f"ExpLong{i}.ndjson")
        write_ndjson(p, big[i::4])
        jobs.append(("scale", p))
    for (_, p), s in zip(jobs, parallel(*[lambda j=j: ctx.harness("h_exp", list(j)) for j in jobs])):
        ctx.traces += s["cases"]
        ctx.detail[os.path.basename(p)] = s
