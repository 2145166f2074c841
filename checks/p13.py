from vlib import *
from checks.systems import tla, mon, gcomp, NZ, RAND, row, arb, po2, fix, bnd, Z
BINS = ["h_table"]
ASSUMPTIONS = ["cells hold values of at most 16 bits", "derived columns are written by the filler, as the builder asks, except packed, constant and same-field computed ones",
               "exponentiation columns are the subject of P07, P10 and P14"]
FT = dict(b1=0, b8=3, b16=4)
com = lambda tab, f="b16", v=0, g=RAND: dict(tab=tab, k="com", f=FT[f], v=v, g=g)
shift = lambda tab, f, v, i, b, o, var: dict(tab=tab, k="shift", f=FT[f], v=v, id=i, b=b, o=o, var=var)
pack = lambda tab, f, v, i: dict(tab=tab, k="pack", f=FT[f], v=v, id=i)
calc = lambda tab, f, v, ins, *m: dict(tab=tab, k="calc", f=FT[f], v=v, **{"in": list(ins)}, c=list(m))
sel = lambda tab, f, i, idx: dict(tab=tab, k="sel", f=FT[f], v=0, id=i, idx=idx)
blk = lambda tab, f, v, i, idx: dict(tab=tab, k="blk", f=FT[f], v=v, id=i, idx=idx)
zp = lambda tab, f, v, i, idx: dict(tab=tab, k="zp", f=FT[f], v=v, id=i, idx=idx)
const = lambda tab, f, v, *vals: dict(tab=tab, k="const", f=FT[f], v=v, vals=list(vals))
inc = lambda tab, f, mx: dict(tab=tab, k="inc", f=FT[f], v=0, max=mx)
fixed = lambda tab, f, n, *m: dict(tab=tab, k="fixed", f=FT[f], v=0, n=n, c=list(m))
cons = lambda tab, v, ins, *m, f=0: dict(tab=tab, v=v, f=f, **{"in": list(ins)}, c=list(m))
def fl(tab, ch, dir, cols, sel=(), mult=1, v=0):
    return dict(tab=tab, v=v, ch=ch, dir=dir, cols=list(cols), sel=list(sel), mult=mult)
def sy(tabs, cols, cons=(), nz=(), fls=(), nch=0, sizes=()):
    # another table, for a commitment large enough for the prover
    t = len(tabs) + 1
    s = dict(tabs=list(tabs) + [fix(3)], cols=list(cols) + [com(t, "b16", 4)], cons=list(cons), nz=list(nz), fl=list(fls), nch=nch)
    return (s, [tuple(z) + (8,) for z in sizes])
def layouts(q):
    big = [] if q else [33, 100]
    L = []
    # shifts of every kind inside blocks, several values per row
    for var in ["circ", "left", "right"]:
        L.append(sy([arb], [com(1, "b1", 3), shift(1, "b1", 3, 1, 3, 3, var), shift(1, "b1", 3, 1, 2, 1, var), com(1, "b16", 2), shift(1, "b16", 2, 4, 2, 3, var), shift(1, "b16", 2, 4, 1, 1, var)],
                    [cons(1, 3, [1, 2], mon(1, 1, 2), mon(1, 1, 2))], sizes=Z(1, 3, 5, 20, *big)))
    # packed columns, of committed, shifted and packed columns; constraints on the packed values
    L.append(sy([arb], [com(1, "b1", 4), pack(1, "b16", 0, 1), pack(1, "b8", 1, 1), pack(1, "b16", 0, 3), shift(1, "b1", 4, 1, 4, 5, "left"), pack(1, "b16", 0, 5),
                        com(1, "b16", 0, gcomp([2, 6], mon(1, 1), mon(1, 2)))],
                [cons(1, 0, [2, 6, 7], mon(1, 1), mon(1, 2), mon(1, 3))], sizes=Z(1, 2, 3, 9, *big)))
    L.append(sy([arb], [com(1, "b8", 3), pack(1, "b16", 2, 1), com(1, "b8", 1), pack(1, "b16", 0, 3), calc(1, "b16", 2, [2], mon(3, 1), mon(11))], sizes=Z(1, 3, 6, 70)))
    # selections of values and blocks
    L.append(sy([arb], [com(1, "b1", 3)] + [sel(1, "b1", 1, k) for k in (0, 1, 4, 7)] + [blk(1, "b1", 1, 1, k) for k in (0, 2, 3)] + [blk(1, "b1", 2, 1, 1), blk(1, "b1", 0, 1, 6)],
                [cons(1, 0, [2, 3, 4], mon(1, 1, 2, 3), mon(1, 1, 2, 3))], sizes=Z(1, 3, 7, *big)))
    L.append(sy([arb], [com(1, "b8", 2), com(1, "b16", 1), sel(1, "b8", 1, 2), sel(1, "b16", 2, 1), blk(1, "b8", 1, 1, 1), com(1, "b16", 0, gcomp([3, 4], mon(1, 1, 2)))],
                [cons(1, 0, [3, 4, 6], mon(1, 1, 2), mon(1, 3))], sizes=Z(1, 2, 5, 33)))
    # zero padding
    L.append(sy([arb], [com(1, "b1", 2), zp(1, "b1", 3, 1, 0), zp(1, "b1", 4, 1, 3), zp(1, "b1", 4, 1, 2), zp(1, "b1", 3, 1, 1), com(1, "b8", 0), zp(1, "b8", 1, 6, 0), zp(1, "b8", 2, 6, 3), pack(1, "b16", 0, 7)],
                sizes=Z(1, 2, 3, 11)))
    # computed columns: linear and not, mixed fields, unused columns between, a constant only
    L.append(sy([arb], [com(1), com(1, "b8"), com(1, "b1"), com(1), calc(1, "b16", 0, [1, 4], mon(7, 1), mon(1, 2), mon(9)), calc(1, "b16", 0, [2, 3, 4], mon(5, 1), mon(1, 2), mon(300, 3)),
                        calc(1, "b16", 0, [1, 4], mon(1, 1, 2), mon(2)), calc(1, "b8", 0, [2], mon(1, 1, 1, 1)), calc(1, "b16", 0, [5], mon(1, 1), mon(1)), calc(1, "b16", 0, [1], mon(77))],
                [cons(1, 0, [9, 5], mon(1, 1), mon(1, 2), mon(1))], sizes=Z(1, 3, 6, 35, *big)))
    # constraints of several widths and fields in one table
    L.append(sy([arb], [com(1, "b1", 3), com(1, "b1", 3, gcomp([1], mon(1, 1), mon(1))), com(1, "b16", 2, NZ), com(1, "b16", 2, gcomp([3], mon(3, 1, 1), mon(300))), com(1), com(1, "b8"), com(1, "b16", 0, gcomp([5, 6], mon(1, 1, 2)))],
                [cons(1, 3, [1, 2], mon(1, 1), mon(1, 2), mon(1)), cons(1, 3, [1, 2], mon(1, 1, 2)), cons(1, 2, [3, 4], mon(3, 1, 1), mon(1, 2), mon(300)), cons(1, 0, [5, 6, 7], mon(1, 1, 2), mon(1, 3))],
                nz=[3], sizes=Z(1, 2, 5, 18)))
    # constants and structure
    L.append(sy([arb], [const(1, "b16", 0, 513), const(1, "b1", 3, 1, 0, 0, 1, 1, 1, 0, 1), const(1, "b8", 1, 200, 3), com(1, "b1", 3), com(1, "b1", 3, gcomp([2, 4], mon(1, 1, 2))), pack(1, "b8", 0, 5)],
                [cons(1, 3, [2, 4, 5], mon(1, 1, 2), mon(1, 3))], sizes=Z(1, 3, 5, 20, 64)))
    L.append(sy([po2], [inc(1, "b16", 9), com(1, "b16", 0, row()), com(1)], [cons(1, 0, [1, 2], mon(1, 1), mon(1, 2))], sizes=Z(1, 2, 8, 64)))
    L.append(sy([fix(4)], [fixed(1, "b16", 4, mon(3, 1, 4), mon(9, 2), mon(1, 3)), com(1), fixed(1, "b1", 4, mon(1, 4, 1), mon(1))], sizes=Z(16)))
    # channels: multiplicities, selectors, reads of several values per row, tables of other sizes
    L.append(sy([arb, arb], [com(1, "b16", 0, row(2)), com(1, "b1"), com(1, "b8"), com(2, "b16", 0, row()), com(2, "b1"), com(2, "b16", 2), com(2, "b16", 2)],
                fls=[fl(1, 1, "push", [1]), fl(1, 2, "push", [1, 3], [2]), fl(2, 1, "pull", [4]), fl(2, 1, "pull", [4], (), 2), fl(2, 2, "pull", [4, 4], [5]), fl(2, 3, "pull", [6, 7], (), 1, 2)],
                nch=3, sizes=Z([1, 1], [3, 2], [6, 3], [5, 8], [0, 3], [7, 0])))
    return L
def run(ctx):
    q = ctx.quick
    L = layouts(q)
    rend = "<<" + ",\n".join("[sy|->%s,sizes|->{%s}]" % (tla(s), ",".join(tla(list(z)) for z in zs)) for s, zs in L) + ">>"
    c = dict(Systems=rend, Kinds='{"none","cell"}', Seeds="{1}" if q else "1..4", MaxCells="5" if q else "12", Segments="{0,1,3,5}" if q else "0..6")
    ok, recs, _ = ctx.tlc("Table", consts=c, invariants=["HonestIsValid", "RowsInOrder", "SegmentsAgree", "AsPolynomials", "Emit"])
    p = ctx.path("Table.ndjson")
    write_ndjson(p, recs)
    ctx.sample(recs[0], 3)
    s = ctx.harness("h_table", ["run", p, "3" if q else "2"])
    ctx.traces += s["cases"]
    ctx.detail["replay"] = s
