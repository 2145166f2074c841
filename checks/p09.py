from vlib import *
BINS = ["h_opening"]
ASSUMPTIONS = ["the batch holds at least two elements of the 128-bit field (smaller ones are refused with an error when the parameters are chosen) and at least one packed element of the prover (a todo! in the code)",
               "evaluation points lie in the 16-bit subfield of the 128-bit field",
               "the soundness of the folding protocol itself is decided by P03, that of the sumcheck by P04; here the chain of reductions between them is",
               "the tensor-algebra reduction is modelled numerically in a tower with a 16-bit top"]
def rs_systems(q):
    L = []
    sysm = lambda cols, claims: L.append("[cols|-><<%s>>,claims|-><<%s>>]" % (
        ",".join("[n|->%d,l|->%d]" % c for c in cols), ",".join("[c|->%d,p|->%d]" % c for c in claims)))
    for l in (0, 3, 4):
        for n in range(0, 7 if q else 9):
            sysm([(n, l)], [(1, 1)]), sysm([(n, l)], [(1, 0), (1, 2)])
    sysm([(5, 0), (3, 3), (2, 4)], [(1, 1), (2, 1), (3, 1)]), sysm([(5, 0), (6, 0), (2, 0)], [(1, 1), (2, 1), (3, 1)])
    sysm([(2, 0), (1, 3), (0, 4), (4, 0)], [(1, 1), (2, 2), (3, 1), (4, 1), (1, 2)]), sysm([(4, 3), (4, 3), (4, 3)], [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 0)])
    sysm([(6, 0), (6, 3)], [(1, 1), (1, 1), (2, 2), (2, 2)])
    return "<<" + ",\n".join(L) + ">>"
def systems(q):
    L = []
    def o(rate, cols, claims):
        L.append('[mode|->"open",rate|->%d,cols|-><<%s>>,trans|-><<>>,claims|-><<%s>>]' % (rate,
            ",".join("[n|->%d,l|->%d]" % c for c in cols), ",".join("[c|->%d,p|->%d,hi|->%s]" % (c[0], c[1], "TRUE" if len(c) > 2 else "FALSE") for c in claims)))
    def p(rate, cols, trans, claims):
        L.append('[mode|->"piop",rate|->%d,cols|-><<%s>>,trans|-><<%s>>,claims|-><<%s>>]' % (rate,
            ",".join("[n|->%d,l|->7]" % c for c in cols), ",".join("[n|->%d]" % c for c in trans), ",".join("[c|->%d,t|->%d]" % c for c in claims)))
    for l in (0, 3, 4, 5, 6, 7):
        k = 7 - l
        for n in {k + 1, k + 2}:
            o(1, [(n, l)], [(1, 1)])
        for n in {0, max(k - 1, 0), k}:  # a batch holds at least two elements of the top field
            o(1, [(n, l), (0, 7)], [(1, 1), (2, 1)])
    o(1, [(5, 3), (4, 3), (2, 3), (4, 5), (5, 5)], [(1, 1), (2, 1), (2, 1, 1), (3, 2), (4, 1), (5, 1), (5, 2)])
    o(2, [(6, 4), (3, 7), (8, 0), (5, 6)], [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2)])
    o(1, [(3, 3), (3, 3), (3, 3)], [(1, 1), (2, 1), (3, 1)]), o(1, [(6, 3), (6, 3)], [(1, 1), (2, 1), (1, 2), (2, 2)])
    o(1, [(5, 4), (5, 4), (4, 5), (3, 6)], [(1, 1), (3, 1)]), o(2, [(4, 5), (4, 5)], [(2, 1), (1, 1), (1, 1), (2, 0)])
    o(1, [(1, 7), (1, 7), (0, 7), (0, 7), (2, 7)], [(1, 1), (3, 1), (5, 1), (2, 2)])
    p(1, [2], [2], [(1, 1)]), p(1, [0, 0], [0], [(1, 1)]), p(2, [1, 2, 3], [1, 2, 3], [(1, 1), (2, 2), (3, 3)]), p(1, [0, 0, 3], [0, 3, 3], [(1, 1), (2, 1), (3, 2), (3, 3)])
    p(1, [1, 1, 2, 2, 4], [2, 2, 4], [(3, 1), (4, 2), (3, 2), (5, 3)]), p(3, [3, 3, 3], [3], [(1, 1), (2, 1)]), p(1, [5, 5], [5, 5], [(1, 1), (1, 2), (2, 1), (2, 2)])
    p(1, [2, 4, 4], [4], [(2, 1), (3, 1)]), p(1, [3, 4], [3, 4], [(1, 1), (2, 2)])
    if not q:
        for l in (0, 3, 4, 5, 6, 7):
            for n in range(max(0, 7 - l - 2), 7 - l + 4):
                if n <= 10:
                    o(1 + n % 2, [(n, l), (n, l), (max(n - 1, 0), l)], [(1, 1), (2, 1), (3, 1), (3, 2, 1), (1, 2)])
        for a in range(0, 5):
            for b in range(a, 5):
                p(1 + a % 2, [a, b, 5], [a, b, 5], [(1, 1), (2, 2), (3, 3)])
    return "<<" + ",\n".join(L) + ">>"
def run(ctx):
    q = ctx.quick
    a, b = parallel(
        lambda: ctx.tlc("RingSwitch", consts=dict(Systems=rs_systems(q), Strategies='{"eval","pair","tensor","row"}'),
                        invariants=["HonestAccepted", "FalseSurfaces", "TransposeInvolutive", "Emit"], workers=4),
        lambda: ctx.tlc("Opening", consts=dict(Systems=systems(q), Kinds='{"eval","point","data","switch","tensor","row","sum","trans","ptrans","flip","pair","swap","trunc"}'),
                        invariants=["OnlyTruth", "Emit"], workers=4))
    for n, o, mode in (("RingSwitch", a, "tensor"), ("Opening", b, "opening")):
        p = ctx.path(n + ".ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        s = ctx.harness("h_opening", [mode, p])
        ctx.traces += s["cases"]
        ctx.detail[n] = s
