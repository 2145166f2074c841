from vlib import *
from checks.systems import *
BINS = ["h_system"]
ASSUMPTIONS = ["column values range over the 16-bit subfield; multiplicities near the end of their range are represented by few",
               "a channel whose declared flushes differ in width is not a system the property speaks about"]
def run(ctx):
    q = ctx.quick
    kinds = '{"none","base","swap","bound","extra"}'
    invs = ["HonestIsValid", "ProductsDecide", "SoundAndComplete", "OrderIrrelevant", "Emit"]
    a, b, c, d = parallel(
        lambda: ctx.tlc("System", consts=dict(Systems=render(channels(q)), Kinds=kinds, Seeds="{1}" if q else "1..4", MaxCells="4" if q else "9"), invariants=invs, workers=5),
        lambda: ctx.tlc("Channel", name="Channel", consts=dict(Tuples="{<<1>>,<<2>>}", Mults="{1,2}", Depth="3" if q else "4"), invariants=["MultisetsEqual", "OneIsNever", "Emit"], workers=2),
        lambda: ctx.tlc("Channel", name="ChannelWide", consts=dict(Tuples="{<<1>>,<<1,0>>,<<0,1>>,<<1,0,0>>}", Mults="{1,1000000}" if q else "{0,1,1000000}", Depth="2" if q else "3"), invariants=["MultisetsEqual", "OneIsNever", "Emit"], workers=1),
        lambda: ctx.tlc("System", name="Long", consts=dict(Systems=render(long_channels()), Kinds='{"none","base","swap"}', Seeds="{1}" if q else "1..2", MaxCells="3" if q else "6"), invariants=invs, workers=3))
    p = ctx.path("System.ndjson")
    write_ndjson(p, a[1] + d[1])
    ctx.sample(a[1][0], 2)
    s = ctx.harness("h_system", ["prove", p])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
    p = ctx.path("Channel.ndjson")
    write_ndjson(p, b[1] + c[1])
    ctx.sample(b[1][-1], 3)
    s = ctx.harness("h_system", ["channel", p])
    ctx.traces += s["cases"]
    ctx.detail["channel"] = s
