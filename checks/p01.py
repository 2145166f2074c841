from vlib import *
BINS = ["h_transcript"]
ASSUMPTIONS = ["hash is collision free (ideal sponge) on the explored histories"]

ALLF = '{"flipfirst","fliplast","obsflip","trunc","extra","skip"}'

def run(ctx):
    inv = ["Lockstep", "AdviceIsNotAbsorbed", "StatementBound", "Emit"]
    small = dict(Depth=3, Lens="{1,33}", Vals="{0,1}", SampleKinds='{<<"B8",1>>,<<"B128",16>>,<<"bits5",4>>}',
                 Modes='{"bytes"}', Faults=ALLF, Sim='FALSE')
    ok, em, _ = ctx.tlc("Transcript", consts=small, invariants=inv, name="TranscriptExh")
    # deep random behaviours with every call granularity
    big = dict(Depth=9 if ctx.quick else 14, Lens="{1,2,16,31,32,33,63,64,65,100,128}", Vals="{0,1,2}",
               SampleKinds='{<<"B8",1>>,<<"B16",2>>,<<"B32",4>>,<<"B64",8>>,<<"B128",16>>,<<"bits1",4>>,<<"bits32",4>>,<<"bits40",4>>,<<"bits0",4>>,<<"bits17",4>>}',
               Modes='{"bytes","b8","split","b16x","vec"}', Faults=ALLF, Sim='TRUE')
    _, em2, _ = ctx.tlc("Transcript", consts=big, invariants=inv, name="TranscriptSim", workers=8,
                        args=["-simulate", f"num={250 if ctx.quick else 4000}", "-depth", "40", "-seed", str(ctx.seed)])
    cases = em + em2
    p = ctx.path("cases.ndjson")
    write_ndjson(p, cases)
    s = ctx.harness("h_transcript", ["replay", p])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
    ctx.sample(em[len(em) // 2]); ctx.sample(em2[0])
