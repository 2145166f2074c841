"""Constraint systems for System.tla, written as Python data and rendered as TLA+."""
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ",".join(map(tla, v)) + ">>"
    if isinstance(v, set) or isinstance(v, frozenset):
        return "{" + ",".join(sorted(map(tla, v))) + "}"
    return "[" + ",".join("%s|->%s" % (k, tla(x)) for k, x in v.items()) + "]"
RAND, NZ = dict(k="rand"), dict(k="nz")
arb, po2 = dict(k="arb"), dict(k="po2")
fix = lambda n: dict(k="fix", log=n)
com = lambda tab, lv=0, kind="b16", g=RAND: dict(t="com", tab=tab, lv=lv, kind=kind, g=g)
rep = lambda tab, lv, i: dict(t="rep", tab=tab, lv=lv, id=i)
proj = lambda tab, lv, i, d, s, seed=9: dict(t="proj", tab=tab, lv=lv, id=i, d=d, s=s, seed=seed)
projl = lambda tab, lv, i, d, seed=9: dict(t="projl", tab=tab, lv=lv, id=i, d=d, seed=seed)
shift = lambda tab, lv, i, o, b, v: dict(t="shift", tab=tab, lv=lv, id=i, o=o, b=b, var=v)
pack = lambda tab, lv, i, d: dict(t="pack", tab=tab, lv=lv, id=i, d=d)
lc = lambda tab, lv, off, *t: dict(t="lc", tab=tab, lv=lv, n=0, off=off, **{"in": [dict(id=i, c=c) for i, c in t]})
zp = lambda tab, lv, i, d, nz, s: dict(t="zp", tab=tab, lv=lv, id=i, d=d, nz=nz, s=s)
comp = lambda tab, lv, ins, *m: dict(t="comp", tab=tab, lv=lv, n=0, **{"in": list(ins)}, c=list(m))
struct = lambda tab, lv, *m: dict(t="st", tab=tab, lv=lv, n=0, c=list(m))
tr = lambda tab, lv, k, n, v: dict(t="tr", tab=tab, lv=lv, p=dict(k=k, n=n, v=v))
mon = lambda c, *e: dict(c=c, e=list(e))
gcomp = lambda ins, *m: dict(k="comp", **{"in": list(ins)}, c=list(m))
gperm = lambda i, r: dict(k="perm", id=i, r=r)
gexp = lambda e: dict(k="exp", e=e)
row = lambda d=1: dict(k="row", d=d)
cons = lambda tab, lv, ids, *comps: dict(tab=tab, lv=lv, ids=list(ids), comps=[list(c) for c in comps])
def fl(tab, lv, ch, dir, cols, sel=(), mult=1):
    return dict(tab=tab, lv=lv, ch=ch, dir=dir, cols=[dict(id=c) if not isinstance(c, tuple) else dict(c=c[0]) for c in cols], sel=list(sel), mult=mult)
expn = lambda bits, base, res: dict(bits=list(bits), base=dict(id=base) if not isinstance(base, tuple) else dict(c=base[0]), res=res)
def sys_(tabs, nodes, cons=(), nz=(), exps=(), fls=(), nch=0, extra=(), sizes=()):
    return dict(sy=dict(tabs=list(tabs), nodes=list(nodes), cons=list(cons), nz=list(nz), exps=list(exps), fl=list(fls), nch=nch, extra=list(extra)),
                z=list(sizes))
WIDTH = {"b1": 0, "b8": 3, "b16": 4}
def elems(sy, z):
    """128-bit elements the commitment of a system takes, as a power of two; the prover needs a packed element's worth."""
    n = 0
    for nd in sy["nodes"]:
        if nd["t"] == "com" and z[nd["tab"] - 1]:
            n += 1 << max(0, (z[nd["tab"] - 1] - 1).bit_length() + nd["lv"] + WIDTH[nd["kind"]] - 7)
    return n
def padded(systems):
    """Systems that commit to too little get another table with a column of eight elements."""
    out = []
    for s in systems:
        ok = [z for z in s["z"] if elems(s["sy"], z) >= 3]
        few = [z for z in s["z"] if elems(s["sy"], z) < 3]
        if ok:
            out.append(dict(sy=s["sy"], z=ok))
        if few:
            sy = dict(s["sy"])
            sy["tabs"] = sy["tabs"] + [fix(6)]
            sy["nodes"] = sy["nodes"] + [com(len(sy["tabs"]))]
            out.append(dict(sy=sy, z=[tuple(z) + (64,) for z in few]))
    return out
def render(systems):
    out = []
    for s in padded(systems):
        out.append("[sy|->%s,sizes|->{%s}]" % (tla(s["sy"]), ",".join(sorted(set(tla(list(z)) for z in s["z"])))))
    return "<<" + ",\n".join(out) + ">>"
bnd = lambda ch, dir, mult, *v: dict(ch=ch, v=list(v), dir=dir, mult=mult)
Z = lambda *a: [tuple(x) if isinstance(x, (list, tuple)) else (x,) for x in a]

def general(quick):
    """One or more systems for every kind of part."""
    big = [] if quick else [9, 17, 33]
    L = [
        # nothing but committed columns
        sys_([arb], [com(1), com(1, 0, "b1"), com(1, 3, "b1"), com(1, 1, "b8")], sizes=Z(1, 3, 8, *big)),
        # zero constraints of several degrees, two sets, values per row
        sys_([arb], [com(1), com(1), com(1, g=gcomp([1, 2], mon(1, 1, 2), mon(7)))], [cons(1, 0, [1, 2, 3], [mon(1, 1, 2), mon(7), mon(1, 3)])], sizes=Z(1, 2, 3, 6, 0, *big)),
        sys_([arb, arb], [com(1, 2), com(1, 2, g=gcomp([1], mon(3, 1, 1, 1))), com(2, 1, "b1"), com(2, 1, "b1", gcomp([3], mon(1, 1), mon(1)))],
             [cons(1, 2, [1, 2], [mon(3, 1, 1, 1), mon(1, 2)]), cons(2, 1, [3, 4], [mon(1, 1), mon(1, 2), mon(1)], [mon(1, 1, 2)])], sizes=Z([2, 3], [1, 5], [0, 2], [3, 0])),
        # one row, no variables at all in one set
        sys_([arb, po2], [com(1), com(1, g=gcomp([1], mon(1, 1, 1))), com(2), com(2, g=gcomp([3], mon(5, 1)))],
             [cons(1, 0, [1, 2], [mon(1, 1, 1), mon(1, 2)]), cons(2, 0, [3, 4], [mon(5, 1), mon(1, 2)])], sizes=Z([1, 1], [1, 4], [7, 2])),
        # non-zero columns
        sys_([arb], [com(1, g=NZ), com(1, 1, "b8", NZ), com(1, 0, "b1", dict(k="const", v=1))], nz=[1, 2, 3], sizes=Z(1, 3, 4, *big)),
        sys_([arb, po2], [com(1), com(2, g=NZ)], nz=[2], sizes=Z([2, 2], [0, 4])),
        sys_([po2], [com(1, g=NZ), lc(1, 0, 0, (1, 3))], nz=[2], sizes=Z(2)),
        # virtual columns under constraints
        sys_([po2], [com(1, 3, "b1"), shift(1, 3, 1, 3, 3, "circ"), shift(1, 3, 1, 2, 3, "left"), shift(1, 3, 1, 1, 2, "right"), com(1, 3, "b1", gcomp([2, 3, 4], mon(1, 1, 2), mon(1, 3)))],
             [cons(1, 3, [2, 3, 4, 5], [mon(1, 1, 2), mon(1, 3), mon(1, 4)])], sizes=Z(1, 4)),
        sys_([arb], [com(1, 3, "b1"), pack(1, 0, 1, 3), pack(1, 1, 1, 2), pack(1, 2, 1, 1), com(1, 0, "b8", gcomp([2], mon(1, 1, 1)))], [cons(1, 0, [2, 5], [mon(1, 1, 1), mon(1, 2)])], sizes=Z(1, 2, 5)),
        sys_([arb], [com(1, 1, "b8"), pack(1, 0, 1, 1), com(1, 0, "b16", gcomp([2], mon(2, 1), mon(1)))], [cons(1, 0, [2, 3], [mon(2, 1), mon(1), mon(1, 2)])], sizes=Z(2, 3)),
        sys_([arb], [com(1, 2), proj(1, 0, 1, 2, 0), proj(1, 1, 1, 1, 1), proj(1, 1, 1, 1, 0, 0), com(1, 0, g=gcomp([2], mon(1, 1), mon(5)))],
             [cons(1, 0, [2, 5], [mon(1, 1), mon(5), mon(1, 2)])], sizes=Z(1, 3, 4)),
        sys_([arb, arb], [com(1, 1), projl(2, 1, 1, 1), com(2, 1, g=gcomp([2], mon(9, 1)))], [cons(2, 1, [2, 3], [mon(9, 1), mon(1, 2)])], sizes=Z([2, 1], [4, 2], [6, 4])),
        sys_([arb, arb], [com(1, 2), projl(2, 0, 1, 3), com(2, 0, g=gcomp([2], mon(9, 1)))], [cons(2, 0, [2, 3], [mon(9, 1), mon(1, 2)])], sizes=Z([4, 2], [8, 3])),
        sys_([arb, arb], [com(1), rep(2, 0, 1), com(2, 0, g=gcomp([2], mon(9, 1)))], [cons(2, 0, [2, 3], [mon(9, 1), mon(1, 2)])], sizes=Z([2, 8], [3, 4], [1, 1], [1, 5])),
        sys_([arb], [com(1), com(1), lc(1, 0, 7, (1, 3), (2, 1)), lc(1, 0, 1, (3, 2), (1, 5)), com(1, g=gcomp([4, 3], mon(1, 1, 2)))], [cons(1, 0, [3, 4, 5], [mon(1, 1, 2), mon(1, 3)])], sizes=Z(1, 3, 8)),
        sys_([arb], [com(1), com(1), lc(1, 0, 9), comp(1, 0, [1, 2], mon(1, 1, 2), mon(3, 1)), com(1, g=gcomp([4, 3], mon(1, 1), mon(1, 2)))], [cons(1, 0, [3, 4, 5], [mon(1, 1), mon(1, 2), mon(1, 3)])], sizes=Z(1, 2, 5)),
        sys_([arb], [com(1), zp(1, 2, 1, 2, 1, 0), zp(1, 1, 1, 1, 0, 0), com(1, 2, g=gcomp([2], mon(6, 1)))], [cons(1, 2, [2, 4], [mon(6, 1), mon(1, 2)])], sizes=Z(1, 3, 4)),
        sys_([fix(2)], [com(1), tr(1, 0, "powers", 2, 77), tr(1, 0, "stepdown", 2, 3), com(1, g=gcomp([1, 2], mon(1, 1, 2)))], [cons(1, 0, [1, 2, 4], [mon(1, 1, 2), mon(1, 3)])], sizes=Z(4)),
        sys_([arb], [tr(1, 0, "const", 0, 500), rep(1, 0, 1), com(1), com(1, g=gcomp([2, 3], mon(1, 1, 2)))], [cons(1, 0, [2, 3, 4], [mon(1, 1, 2), mon(1, 3)])], sizes=Z(1, 3, 4)),
        sys_([fix(3)], [struct(1, 0, mon(1, 1), mon(2, 2), mon(4, 3)), com(1, g=gcomp([1], mon(1, 1)))], [cons(1, 0, [1, 2], [mon(1, 1), mon(1, 2)])], sizes=Z(8)),
        # exponentiations: constant and column bases, results used elsewhere
        sys_([arb], [com(1, 0, "b1"), com(1, 0, "b1"), com(1, 0, "b1"), com(1, g=gexp(1))], exps=[expn([1, 2, 3], (777,), 4)], sizes=Z(1, 3, 8)),
        sys_([arb], [com(1, 0, "b1"), com(1, 0, "b1"), com(1), com(1, g=gexp(1)), com(1, g=gcomp([4], mon(3, 1)))], [cons(1, 0, [4, 5], [mon(3, 1), mon(1, 2)])], exps=[expn([1, 2], 3, 4)], sizes=Z(2, 5)),
        sys_([arb, arb], [com(1, 0, "b1"), com(1, 0, "b1"), com(1, g=gexp(1)), com(1, g=gexp(2)), com(2, 1, "b1"), com(2, 1, g=gexp(3))],
             exps=[expn([1], (3,), 3), expn([2, 1], 3, 4), expn([5], (9,), 6)], sizes=Z([2, 2], [1, 4], [4, 0], [0, 3])),
        # everything at once
        sys_([arb, po2], [com(1), com(1, 0, "b1"), com(2, g=NZ), com(2, 0, "b1"), com(2, g=gexp(1)), com(1, g=gcomp([1, 2], mon(1, 1, 2), mon(1, 1))), com(2, 3, "b1"), pack(2, 0, 7, 3), shift(2, 3, 7, 1, 3, "left")],
             [cons(1, 0, [1, 2, 6], [mon(1, 1, 2), mon(1, 1), mon(1, 3)])], nz=[3], exps=[expn([4], (3,), 5)],
             fls=[fl(1, 0, 1, "push", [1, 6], [2]), fl(2, 0, 1, "pull", [3, 5]), fl(2, 0, 2, "push", [8]), fl(2, 3, 3, "pull", [9, 7])], nch=3, sizes=Z([3, 2], [1, 4], [0, 1])),
    ]
    return L

def channels(quick):
    """Flush patterns."""
    L = [
        # pushed and pulled by the same table: any order
        sys_([arb], [com(1), com(1, g=gperm(1, 1))], fls=[fl(1, 0, 1, "push", [1]), fl(1, 0, 1, "pull", [2])], nch=1, sizes=Z(1, 2, 3, 5, 8)),
        sys_([arb], [com(1), com(1), com(1, g=gperm(1, 1)), com(1, g=gperm(2, 1))], fls=[fl(1, 0, 1, "push", [1, 2]), fl(1, 0, 1, "pull", [3, 4])], nch=1, sizes=Z(3, 4)),
        # tuples are ordered
        sys_([arb], [com(1), com(1)], fls=[fl(1, 0, 1, "push", [1, 2]), fl(1, 0, 1, "pull", [2, 1])], nch=1, sizes=Z(3)),
        # one push only, po2 and fixed tables, one row
        sys_([po2], [com(1)], fls=[fl(1, 0, 1, "push", [1])], nch=1, sizes=Z(1, 4)),
        sys_([fix(1)], [com(1, 1, "b8")], fls=[fl(1, 1, 1, "pull", [1])], nch=1, sizes=Z(2)),
        # empty tables, channels nobody uses, channels used by boundaries alone
        sys_([arb, arb], [com(1), com(2)], fls=[fl(1, 0, 1, "push", [1]), fl(2, 0, 2, "pull", [2])], nch=3, sizes=Z([3, 0], [0, 2], [0, 0], [2, 2])),
        sys_([arb], [com(1)], nch=2, extra=[bnd(2, "push", 3, 7), bnd(2, "pull", 1, 7), bnd(2, "pull", 2, 7)], sizes=Z(2)),
        sys_([arb], [com(1)], nch=0, sizes=Z(2)),
        # selectors
        sys_([arb], [com(1), com(1, 0, "b1"), com(1, 0, "b1")], fls=[fl(1, 0, 1, "push", [1], [2])], nch=1, sizes=Z(1, 4, 7)),
        sys_([arb], [com(1), com(1, 0, "b1"), com(1, 0, "b1")], fls=[fl(1, 0, 1, "push", [1], [2, 3]), fl(1, 0, 1, "pull", [1], [3])], nch=1, sizes=Z(3, 8)),
        sys_([po2], [com(1, 1), com(1, 1, "b1")], fls=[fl(1, 1, 1, "pull", [1], [2])], nch=1, sizes=Z(4)),
        sys_([fix(2)], [com(1), tr(1, 0, "stepdown", 2, 3), tr(1, 0, "select", 2, 2)], fls=[fl(1, 0, 1, "push", [1], [2]), fl(1, 0, 1, "pull", [1], [3])], nch=1, sizes=Z(4)),
        # all rows unselected
        sys_([arb], [com(1), com(1, 0, "b1", dict(k="const", v=0))], fls=[fl(1, 0, 1, "push", [1], [2])], nch=1, sizes=Z(3)),
        # multiplicities
        sys_([arb, arb], [com(1, g=row()), com(2, g=row(2))], fls=[fl(1, 0, 1, "push", [1], mult=2), fl(2, 0, 1, "pull", [2])], nch=1, sizes=Z([2, 4], [3, 6], [3, 5])),
        sys_([arb], [com(1)], fls=[fl(1, 0, 1, "push", [1], mult=3), fl(1, 0, 1, "pull", [1], mult=5)], nch=1, sizes=Z(1, 3)),
        sys_([arb], [com(1)], fls=[fl(1, 0, 1, "push", [1], mult=0), fl(1, 0, 1, "pull", [1], mult=1)], nch=1, sizes=Z(2)),
        sys_([arb], [com(1)], fls=[fl(1, 0, 1, "push", [1], mult=900001)], nch=1, sizes=Z(2)),
        sys_([arb], [com(1, 0, "b1"), com(1, 0, "b1")], fls=[fl(1, 0, 1, "push", [1], mult=4), fl(1, 0, 1, "pull", [2], mult=4)], nch=1, sizes=Z(5)),
        # constants
        sys_([arb], [com(1), com(1, 0, "b1")], fls=[fl(1, 0, 1, "push", [(5,), 1]), fl(1, 0, 1, "pull", [1, (5,)])], nch=1, sizes=Z(2, 3)),
        sys_([arb], [com(1), com(1, 0, "b1")], fls=[fl(1, 0, 1, "push", [(5,), 1, (9,)], [2]), fl(1, 0, 1, "pull", [(5,), 1, (0,)], [2])], nch=1, sizes=Z(6)),
        # values per row
        sys_([arb], [com(1, 2), com(1, 2, g=gperm(1, 3)), com(1, 0)], fls=[fl(1, 2, 1, "push", [1]), fl(1, 2, 1, "pull", [2]), fl(1, 0, 1, "push", [3])], nch=1, sizes=Z(1, 3)),
        sys_([arb], [com(1, 3, "b1"), pack(1, 0, 1, 3), com(1, 0, "b8", gperm(2, 1))], fls=[fl(1, 0, 1, "push", [2]), fl(1, 0, 1, "pull", [3])], nch=1, sizes=Z(3, 4)),
        # several tables and channels; the same values on two channels
        sys_([arb, po2, arb], [com(1), com(2), com(3, 1)], fls=[fl(1, 0, 1, "push", [1]), fl(1, 0, 2, "pull", [1]), fl(2, 0, 1, "pull", [2]), fl(3, 1, 2, "push", [3]), fl(3, 1, 3, "pull", [3])], nch=3,
             sizes=Z([3, 2, 1], [1, 4, 3], [0, 1, 2])),
        sys_([arb, arb], [com(1), com(1), com(2, g=gperm(1, 0)), com(2, g=gperm(2, 0))], fls=[fl(2, 0, 2, "pull", [3, 4]), fl(1, 0, 2, "push", [1, 2]), fl(2, 0, 1, "push", [4]), fl(1, 0, 1, "pull", [2])], nch=2, sizes=Z([3, 3])),
        # virtual columns
        sys_([arb], [com(1), lc(1, 0, 3, (1, 2)), com(1, g=gcomp([2], mon(1, 1)))], fls=[fl(1, 0, 1, "push", [2]), fl(1, 0, 1, "pull", [3])], nch=1, sizes=Z(3, 4)),
        sys_([po2], [com(1, 2), shift(1, 2, 1, 1, 2, "circ")], fls=[fl(1, 2, 1, "push", [1]), fl(1, 2, 1, "pull", [2])], nch=1, sizes=Z(2)),
        sys_([arb, arb], [com(1), rep(2, 0, 1)], fls=[fl(1, 0, 1, "push", [1], mult=2), fl(2, 0, 1, "pull", [2])], nch=1, sizes=Z([2, 4])),
    ]
    return L

def long_tables():
    """Tables of more rows than the prover handles in one piece (2^8 values of a column), few and small parts."""
    return [
        sys_([arb], [com(1), com(1, 0, "b8"), com(1, g=gcomp([1, 2], mon(1, 1, 2), mon(7)))], [cons(1, 0, [1, 2, 3], [mon(1, 1, 2), mon(7), mon(1, 3)])], nz=[3], sizes=Z(300, 1000)),
        sys_([arb, po2], [com(1, 2, g=NZ), com(2, 0, "b8", NZ), com(2, 0, "b1", dict(k="const", v=1))], nz=[1, 2, 3], sizes=Z([150, 512])),
        sys_([arb], [com(1, 0, "b1"), com(1, 0, "b1"), com(1, 0, "b1"), com(1, g=gexp(1)), com(1, g=gexp(2))], exps=[expn([1, 2, 3], (777,), 4), expn([2, 3], 4, 5)], sizes=Z(300)),
        sys_([arb, arb], [com(1, 0, "b1"), com(1, 0, "b1"), com(1), com(1, g=gexp(1)), com(2, 0, "b1"), com(2, g=gexp(2))], exps=[expn([1, 2], 3, 4), expn([5], (9,), 6)], sizes=Z([20, 513], [600, 5])),
        sys_([po2], [com(1, 3, "b1"), shift(1, 3, 1, 3, 3, "circ"), pack(1, 0, 1, 3), com(1, 0, "b8", gcomp([3], mon(1, 1, 1))), com(1, 3, "b1", gcomp([2, 1], mon(1, 1, 2)))],
             [cons(1, 0, [3, 4], [mon(1, 1, 1), mon(1, 2)]), cons(1, 3, [2, 1, 5], [mon(1, 1, 2), mon(1, 3)])], sizes=Z(128)),
    ]
def long_channels():
    return [
        sys_([arb], [com(1), com(1), com(1, g=gperm(1, 1)), com(1, g=gperm(2, 1))], fls=[fl(1, 0, 1, "push", [1, 2]), fl(1, 0, 1, "pull", [3, 4])], nch=1, sizes=Z(300, 512)),
        sys_([arb, arb], [com(1, g=row()), com(2, g=row(2)), com(2, 0, "b1", dict(k="const", v=1))], fls=[fl(1, 0, 1, "push", [1], mult=2), fl(2, 0, 1, "pull", [2], [3])], nch=1, sizes=Z([150, 300], [257, 514])),
        sys_([arb], [com(1), com(1, 0, "b1"), com(1, g=gperm(1, 7)), com(1, 0, "b1", gperm(2, 7))], fls=[fl(1, 0, 1, "push", [1], [2]), fl(1, 0, 1, "pull", [3], [4])], nch=1, sizes=Z(260, 400)),
        sys_([arb], [com(1, 0, "b8"), com(1, 0, "b8")], fls=[fl(1, 0, 1, "push", [1]), fl(1, 0, 2, "pull", [2])], nch=2, sizes=Z(290)),
    ]
