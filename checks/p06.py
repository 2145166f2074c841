from vlib import *
BINS = ["h_gpa"]
ASSUMPTIONS = ["values and challenges range over the 16-bit subfield of the 128-bit field",
               "Fiat-Shamir challenges are chosen by the specification (scripted challenger; P01 decides the transcript)"]
def sh(*cl):
    return "<<" + ",".join('[n|->%d,len|->%d,kind|->"%s"]' % (n, l, k) for n, l, k in cl) + ">>"
SMALL = [sh((0, 1, "x")), sh((1, 2, "x")), sh((2, 4, "x")), sh((3, 8, "x")), sh((2, 3, "x")), sh((3, 5, "x")), sh((3, 0, "x")), sh((3, 4, "x")), sh((2, 4, "b1")),
         sh((2, 4, "x"), (1, 2, "x")), sh((1, 2, "x"), (3, 8, "x"), (0, 1, "x")), sh((2, 4, "x"), (2, 2, "x"), (2, 4, "b8")),
         sh((1, 1, "x"), (2, 4, "x"), (1, 2, "b8"), (3, 6, "x")), sh((0, 0, "x"), (0, 1, "x")), sh((3, 8, "one"), (3, 2, "x")), sh()]
BIG = [sh((4, 16, "x"), (4, 9, "x")), sh((5, 20, "x"), (3, 8, "x"), (5, 32, "x")), sh((5, 3, "x"), (4, 12, "x"), (4, 4, "x"), (2, 4, "x"))]
DEVS = '{"product","adapt","adapteq","eval","round","trunc"}'
seq = lambda l: "<<" + ",".join(l) + ">>"
def run(ctx):
    inv = ["HonestAccepted", "FalseSurfaces", "Emit"]
    C = lambda i, s, d: dict(Shapes=seq(i), Orders='{"low","high"}', ChalSeeds=s, Deviations=d)
    runs = [("Gpa", C(SMALL, "{1,2}" if ctx.quick else "1..8", DEVS)), ("GpaBig", C(BIG, "{3}", "{}" if ctx.quick else DEVS))]
    outs = parallel(*[lambda r=r: ctx.tlc("Gpa", consts=r[1], invariants=inv, name=r[0], workers=4) for r in runs])
    jobs = []
    for r, o in zip(runs, outs):
        p = ctx.path(f"{r[0]}.ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        jobs.append(("replay", p))
    big = scaled([c for o in outs for c in o[1]], [8, 11, 7, 9] if ctx.quick else [7, 8, 9, 11, 13], not ctx.quick)
    for i in range(4):
        p = ctx.path(f"GpaLong{i}.ndjson")
        write_ndjson(p, big[i::4])
        jobs.append(("scale", p))
    for (_, p), s in zip(jobs, parallel(*[lambda j=j: ctx.harness("h_gpa", list(j)) for j in jobs])):
        ctx.traces += s["cases"]
        ctx.detail[os.path.basename(p)] = s
