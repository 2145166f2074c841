from vlib import *
BINS = ["h_evalcheck"]
ASSUMPTIONS = ["values and points range over the 16-bit subfield of the 128-bit field",
               "the sumchecks that shifted, packed and composite claims reduce to are decided by P04; here the reduction to them is"]
# --- graphs of columns
com = lambda n, k="b16": '[t|->"com",n|->%d,kind|->"%s"]' % (n, k)
rep = lambda i, d: '[t|->"rep",id|->%d,d|->%d]' % (i, d)
proj = lambda i, d, s, seed=9: '[t|->"proj",id|->%d,d|->%d,s|->%d,seed|->%d]' % (i, d, s, seed)
shift = lambda i, o, b, v: '[t|->"shift",id|->%d,o|->%d,b|->%d,var|->"%s"]' % (i, o, b, v)
pack = lambda i, d: '[t|->"pack",id|->%d,d|->%d]' % (i, d)
lc = lambda n, off, *t: '[t|->"lc",n|->%d,off|->%d,in|-><<%s>>]' % (n, off, ",".join("[id|->%d,c|->%d]" % x for x in t))
zp = lambda i, d, nz, s: '[t|->"zp",id|->%d,d|->%d,nz|->%d,s|->%d]' % (i, d, nz, s)
mon = lambda c, *e: "[c|->%d,e|-><<%s>>]" % (c, ",".join(map(str, e)))
comp = lambda n, ins, *m: '[t|->"comp",n|->%d,in|-><<%s>>,c|-><<%s>>]' % (n, ",".join(map(str, ins)), ",".join(m))
stc = lambda n, *m: '[t|->"st",n|->%d,c|-><<%s>>]' % (n, ",".join(m))
tr = lambda k, n, v: '[t|->"tr",p|->[k|->"%s",n|->%d,v|->%d]]' % (k, n, v)
def g(nodes, *claims):
    return "[nodes|-><<%s>>,claims|-><<%s>>]" % (",".join(nodes), ",".join("[id|->%d,p|->%d]" % c for c in claims))
def graphs(quick):
    L = [
        g([com(2)], (1, 1), (1, 1), (1, 2)), g([com(0)], (1, 1)), g([com(3, "b1"), rep(1, 2)], (2, 1), (1, 1)), g([com(0), rep(1, 3)], (2, 1)),
        g([com(3), proj(1, 1, 0), proj(1, 2, 1), proj(1, 3, 0), proj(1, 1, 2, 0)], (2, 1), (3, 1), (4, 1), (5, 2)),
        g([com(4), proj(1, 2, 0, 0), proj(1, 2, 2, 0)], (2, 1), (3, 1)),
        g([com(4, "b1"), pack(1, 2), pack(1, 4), pack(1, 1), pack(1, 0)], (2, 1), (3, 1), (4, 1), (5, 1)), g([com(3, "b8"), pack(1, 1)], (2, 3)),
        g([com(3), lc(3, 0, (1, 1))], (2, 1)), g([com(3), lc(3, 5, (1, 300))], (2, 1), (1, 1)), g([com(2), lc(2, 7)], (2, 1)), g([com(2), com(2, "b1"), lc(2, 7, (1, 0), (2, 9))], (3, 1)),
        g([com(2), com(2), lc(2, 0, (1, 3), (2, 4)), lc(2, 9, (3, 2), (1, 1)), lc(2, 1, (4, 5), (3, 6), (2, 1))], (5, 1), (4, 1), (3, 2)),
        g([com(2), lc(2, 0, (1, 3), (1, 3))], (2, 1)), g([com(2), lc(2, 0, (1, 3), (1, 4), (1, 5))], (2, 1), (2, 1)),
        g([com(2), zp(1, 2, 1, 0), zp(1, 1, 0, 2), zp(1, 2, 3, 1)], (2, 1), (3, 1), (4, 1), (2, 0), (3, 0), (4, 0)), g([com(1), zp(1, 2, 2, 1), lc(3, 3, (2, 2))], (3, 0), (3, 1)),
        g([com(2), com(2), comp(2, [1, 2], mon(1, 1, 2))], (3, 1), (3, 2)), g([com(2), com(2), comp(2, [1, 2], mon(1, 1, 2), mon(7)), comp(2, [2], mon(3, 1, 1, 1), mon(1, 1))], (3, 1), (4, 1), (4, 2), (3, 2), (3, 1)),
        g([com(2), lc(2, 4, (1, 2)), shift(1, 1, 1, "left"), comp(2, [2, 3, 1], mon(1, 1, 2), mon(1, 3))], (4, 1)),
        g([tr("stepdown", 3, 5), com(3), lc(3, 0, (1, 2), (2, 1))], (1, 1), (3, 1)), g([tr("select", 2, 3), tr("powers", 2, 77), tr("const", 2, 5), tr("stepup", 2, 1), tr("eq", 2, 4)], (1, 1), (2, 1), (3, 1), (4, 0), (5, 2)),
        g([stc(3, mon(1, 1), mon(2, 2), mon(4, 3)), com(3), lc(3, 1, (1, 1), (2, 1))], (1, 1), (3, 1)), g([stc(2, mon(9, 1, 2), mon(1))], (1, 1)),
        # a rotated linear combination of a scaled linear combination with an offset
        g([com(4), lc(4, 9, (1, 5)), lc(4, 3, (2, 7), (1, 2)), shift(3, 1, 2, "circ"), shift(1, 1, 2, "circ")], (4, 1), (5, 1)),
        g([com(4), com(4), lc(4, 9, (1, 5), (2, 1)), lc(4, 0, (3, 7)), shift(4, 1, 2, "left"), shift(1, 1, 2, "left"), shift(2, 1, 2, "left")], (6, 1), (7, 1), (5, 1)),
        g([com(4), com(4), lc(4, 9, (1, 5)), lc(4, 3, (3, 7), (2, 2)), shift(4, 1, 2, "circ"), lc(4, 0, (1, 1), (2, 1))], (6, 1), (5, 1)),
        g([com(5), com(5, "b8"), lc(5, 9, (1, 5)), lc(5, 3, (3, 7), (2, 2)), shift(4, 3, 3, "right"), lc(5, 2, (1, 4), (2, 1)), pack(2, 1)], (5, 1), (7, 2), (6, 1)),
        g([com(3, "b1"), shift(1, 2, 3, "circ"), pack(2, 2), rep(2, 1), lc(3, 0, (1, 1), (2, 1))], (3, 1), (4, 1), (5, 1)),
        g([com(4, "b1"), pack(1, 2), shift(2, 1, 2, "left"), shift(3, 1, 1, "circ")], (4, 1), (3, 1)), g([com(3), rep(1, 1), shift(2, 3, 4, "circ"), proj(3, 1, 3)], (4, 1), (3, 1)),
        g([com(2), shift(1, 1, 2, "left"), zp(2, 1, 1, 0), comp(3, [3, 3], mon(1, 1, 2)), lc(3, 2, (4, 3), (3, 1))], (5, 1)),
        g([com(5, "b8"), shift(1, 9, 5, "right"), shift(1, 9, 5, "right"), shift(1, 3, 3, "circ"), lc(5, 0, (2, 1), (3, 1), (4, 6))], (5, 1), (4, 1), (2, 1)),
        g([com(6, "b1"), pack(1, 3), pack(2, 1), shift(1, 5, 3, "left"), pack(4, 3), lc(3, 1, (2, 3), (5, 2))], (3, 1), (6, 1)),
    ]
    # the same columns at two points, and different columns at one point
    L += [g([com(2), com(2), lc(2, 5, (2, 3))], (1, 1), (3, 1), (2, 1)), g([com(2), com(2), lc(2, 5, (2, 3), (1, 4))], (3, 1), (3, 2)),
          g([com(2), com(2, "b1"), lc(2, 0, (1, 3), (2, 4)), rep(1, 1), lc(3, 1, (4, 2))], (1, 1), (2, 1), (3, 2)), g([com(3), rep(1, 1), lc(4, 1, (2, 2))], (3, 1), (3, 2), (2, 2)),
          g([com(2), proj(1, 1, 0), proj(1, 1, 1), zp(1, 1, 1, 0), zp(1, 1, 0, 0)], (2, 1), (3, 1), (4, 1), (5, 1)), g([com(2), com(2), comp(2, [1, 2], mon(1, 1, 2)), comp(2, [1], mon(1, 1, 1))], (3, 1), (3, 2), (4, 2), (4, 1)),
          g([com(3), shift(1, 1, 2, "left"), shift(1, 1, 2, "circ"), lc(3, 0, (2, 3))], (2, 1), (2, 2), (3, 2), (4, 2))]
    for n, b in [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3)]:
        offs = range(1, 2**b)
        L.append(g([com(n)] + [shift(1, o, b, v) for o in offs for v in ("circ", "left", "right")], *[(2 + k, 1 + k % 2) for k in range(3 * (2**b - 1))]))
    if not quick:
        for n, b in [(5, 2), (5, 4), (6, 5)]:
            for v in ("circ", "left", "right"):
                L.append(g([com(n)] + [shift(1, o, b, v) for o in range(1, 2**b)], *[(2 + k, 1 + k % 2) for k in range(2**b - 1)]))
    return "<<" + ",\n".join(L) + ">>"
def items(quick):
    S, N = [], 4 if quick else 6
    r = lambda k, n, v: S.append('[k|->"%s",n|->%d,v|->%d]' % (k, n, v))
    for n in range(0, N + 1):
        for v in {0, 1, 2**n // 2, 2**n - 1, 2**n} | (set(range(2**n + 1)) if n < 4 or not quick else {5, 11}):
            r("stepdown", n, v), r("stepup", n, v)
            if v < 2**n:
                r("select", n, v)
        for v in (0, 1, 2, 777, 65535):
            r("const", n, v), r("powers", n, v)
        for v in (0, 1, 2):
            r("eq", n, v)
        for k in ("b1", "b8", "x"):
            S.append('[k|->"mle",n|->%d,v|->%d,kind|->"%s"]' % (n, 60 + n, k))
    for iota in range(0, 5):
        for n in range(0, 5 - iota):
            r("tower", n, iota)
    for b in range(1, N + 1):
        for o in (range(1, 2**b) if b < 4 or not quick else (1, 2, 3, 8, 13, 15)):
            for var in ("circ", "left", "right"):
                S.append('[k|->"shift",n|->%d,v|->%d,var|->"%s",seed|->%d]' % (b, o, var, 3 + o % 2))
    for a in ('[k|->"powers",n|->2,v|->9]', '[k|->"stepdown",n|->1,v|->1]', '[k|->"stepdown",n|->3,v|->6]'):
        S.append('[k|->"dprod",a|->%s,b|->[k|->"select",n|->2,v|->1]]' % a)
    return "{" + ",".join(S) + "}"
def run(ctx):
    q = ctx.quick
    dv = '{"top","adapt","lceval","reuse","hint","pos","trunc"}'
    a, b = parallel(
        lambda: ctx.tlc("Evalcheck", consts=dict(Graphs=graphs(q), Deviations=dv), invariants=["HonestAccepted", "FalseSurfaces", "LiesCaught", "Emit"], workers=6),
        lambda: ctx.tlc("Transparent", consts=dict(Items=items(q), Seeds="{0,1}" if q else "0..5"), invariants=["OnCube", "Emit"], workers=2))
    for n, o, mode in (("Evalcheck", a, "replay"), ("Transparent", b, "transparent")):
        p = ctx.path(n + ".ndjson")
        write_ndjson(p, o[1])
        ctx.sample(o[1][0], 4)
        s = ctx.harness("h_evalcheck", [mode, p])
        ctx.traces += s["cases"]
        ctx.detail[n] = s
