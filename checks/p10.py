from vlib import *
from checks.systems import *
BINS = ["h_system"]
ASSUMPTIONS = ["column values range over the 16-bit subfield and its subfields; tables have at most 64 values per column, some tables up to 1024",
               "flushes name at least one column; references between tables name non-empty tables"]
def run(ctx):
    q = ctx.quick
    kinds = '{"none","cell","base","virt","swap","bound","size"}'
    invs = ["HonestIsValid", "ProductsDecide", "SoundAndComplete", "OrderIrrelevant", "Emit"]
    runs = parallel(lambda: ctx.tlc("System", consts=dict(Systems=render(general(q)), Kinds=kinds, Seeds="{1}" if q else "1..3", MaxCells="4" if q else "9"), invariants=invs, workers=5),
                    lambda: ctx.tlc("System", name="Long", consts=dict(Systems=render(long_tables()), Kinds='{"none","cell"}', Seeds="{1}" if q else "1..2", MaxCells="3" if q else "6"), invariants=invs, workers=3))
    rec = runs[0][1] + runs[1][1]
    p = ctx.path("System.ndjson")
    write_ndjson(p, rec)
    ctx.sample(rec[0], 2)
    s = ctx.harness("h_system", ["prove", p])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
