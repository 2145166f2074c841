from vlib import *
BINS = ["h_merkle"]
ASSUMPTIONS = ["hash and compression function are collision free (symbolic terms)"]

def run(ctx):
    inv = ["Complete", "Binding", "SizeOk", "Emit"]
    runs = [("MerkleS", dict(LogLens="0..3", Batches="{1,2,3}", DataKinds='{"distinct","equal","pairs"}', MaxTampers=1))]
    runs.append(("MerkleT", dict(LogLens="1..2", Batches="{1,2}", DataKinds='{"distinct","pairs"}', MaxTampers=2)))
    if not ctx.quick:
        runs.append(("MerkleL", dict(LogLens="4..5", Batches="{1,2}", DataKinds='{"distinct"}', MaxTampers=1)))
        runs.append(("MerkleM", dict(LogLens="3..3", Batches="{1,2}", DataKinds='{"distinct","pairs"}', MaxTampers=2)))
    outs = parallel(*[lambda r=r: ctx.tlc("Merkle", consts=r[1], invariants=inv, name=r[0], workers=4) for r in runs])
    cases = [c for o in outs for c in o[1]]
    p = ctx.path("cases.ndjson")
    write_ndjson(p, cases)
    s = ctx.harness("h_merkle", ["replay", p])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
    s = ctx.harness("h_merkle", ["sweep", 8 if ctx.quick else 12])
    ctx.detail["sweep"] = s
    ctx.sample(cases[0]); ctx.sample(cases[len(cases) // 2])
