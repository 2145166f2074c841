import hashlib
from vlib import *
from checks.systems import *
BINS = ["h_binding"]
ASSUMPTIONS = ["the hash behind the challenges is ideal (collisions and accidental agreement of challenges are ignored)",
               "recorded systems: one per kind of part of a constraint system, rates 1 and 2, security levels 20 and 33 (thorough: also rate 3)"]
def chosen(q):
    g, c = general(True), channels(True)
    big = sys_([arb, arb], [com(1), com(1, g=gcomp([1], mon(3, 1, 1))), com(2, 3, "b1")], [cons(1, 0, [1, 2], [mon(3, 1, 1), mon(1, 2)])],
               fls=[fl(2, 3, 1, "push", [3])], nch=1, sizes=Z([700, 4]) if q else Z([700, 4], [2048, 8]))
    L = [big, g[1], g[4], g[7], g[14], g[20], g[22], g[23], c[6], c[8], c[13], c[19], c[22]]
    return [dict(s, z=s["z"][:2] if q else s["z"]) for s in L]
def run(ctx):
    q = ctx.quick
    _, rec, _ = ctx.tlc("System", consts=dict(Systems=render(chosen(q)), Kinds='{"none"}', Seeds="{7}", MaxCells="4"), invariants=["HonestIsValid"] + ["Emit"])
    rec.sort(key=lambda r: json.dumps([r["sy"], r["sizes"]], sort_keys=True))
    # one trace per statement, so that statements are pairwise different
    seen, cases = set(), []
    for r in rec:
        k = json.dumps([r["sy"], r["bounds"]], sort_keys=True)
        if k not in seen:
            seen.add(k)
            i = len(cases)
            r.update(case=i, sysid=hashlib.sha256(json.dumps(r['sy'], sort_keys=True).encode()).hexdigest(), elems=elems(r['sy'], r['sizes']), rate=[1, 2, 1][i % 3] if q else [1, 2, 3][i % 3], security=[20, 20, 33, 20][i % 4])
            cases.append(r)
    p, t, a = ctx.path("honest.ndjson"), ctx.path("traces.ndjson"), ctx.path("alts.ndjson")
    write_ndjson(p, cases)
    s = ctx.harness("h_binding", ["record", p, t])
    ctx.detail["recorded"] = s
    if s["traces"] < len(cases):
        return
    ok, alts, out = ctx.tlc("Binding", consts=dict(TraceFile='"%s"' % t, Stride="61" if q else "5", Masks="{1}" if q else "{1, 128}"),
                         invariants=["NotStuck", "TraceConforms", "Bound", "AdviceLast", "EveryMessageCounts", "DistinctStatements", "OnlyTheHonestProof", "Emit"], expect_ok=False)
    if not ok:
        ctx.violation("a recorded conversation does not follow the protocol", {"tlc": [l for l in out.splitlines() if not l.startswith('"{')][-400:], "traces": t})
        return
    alts, table = [x for x in alts if "alt" in x], [x for x in alts if "queries" in x][0]
    qf = ctx.path("queries.ndjson")
    write_ndjson(qf, table["queries"])
    ctx.traces += ctx.harness("h_binding", ["queries", qf])["cases"]
    write_ndjson(a, alts)
    ctx.sample(alts[0], 2)
    s = ctx.harness("h_binding", ["alter", p, a])
    ctx.traces += s["cases"] + len(cases)
    ctx.detail["alterations"] = s
    _, ids, _ = ctx.tlc("SystemId", consts=dict(Systems=render(general(True) + channels(True)), MaxEdits="1" if q else "2"), invariants=["SystemsDiffer", "Emit"])
    d = ctx.path("systems.ndjson")
    write_ndjson(d, ids)
    s = ctx.harness("h_binding", ["digests", d])
    ctx.traces += s["cases"]
    ctx.detail["digests"] = s
