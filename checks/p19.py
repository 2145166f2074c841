import random
from vlib import *
from checks.systems import tla
BINS = ["h_hash"]
ASSUMPTIONS = ["messages of up to 400 bytes, and one of more than 256 blocks", "batches of up to 100 messages (the implementations take 32 at a time)",
               "the vectorised Groestl of the nightly_features feature is not compiled in this configuration"]
EDGES = [0, 1, 3, 4, 31, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 95, 96, 97, 119, 120, 127, 128, 129, 191, 192, 193, 255, 256, 257]
def jobs(q, seed):
    R = random.Random(seed)
    J = []
    def script(total):
        ops, left = [], total
        while left > 0 or not ops:
            n = min(left, R.choice([0, 1, 1, 2, 5, 31, 32, 55, 56, 63, 64, 65, 95, 96, 97, 128, R.randint(0, 200), left]))
            ops.append(dict(o="up", n=n)); left -= n
            if len(ops) > 30: ops.append(dict(o="up", n=left)); left = 0
        return ops
    # every edge length as one message, absorbed in pieces
    for n in EDGES + ([] if q else list(range(0, 200))):
        J.append(dict(k="sched", mode=R.choice([0, 0, 0, 1, 2, 3]), seed=R.randrange(9999), len=n, ops=script(n) + [dict(o="fin", n=0)]))
    # histories with copies, resets and several digests
    for _ in range(60 if q else 600):
        n = R.randint(0, 400)
        ops = script(n)
        k = len(ops)
        for _ in range(R.randint(1, 5)):
            ops.insert(R.randint(0, len(ops)), dict(o=R.choice(["clone", "swap", "swap", "reset", "fin", "fin"]), n=0))
        ops += [dict(o="fin", n=0), dict(o="swap", n=0), dict(o="fin", n=0)]
        J.append(dict(k="sched", mode=R.choice([0, 0, 3]), seed=R.randrange(9999), len=n, ops=ops))
    # batches: numbers of messages around multiples of the width, lengths around multiples of the block and of an element
    M = [0, 1, 2, 3, 31, 32, 33, 40, 63, 64, 65, 70, 97]
    for m in M:
        for n in R.sample([0, 1, 2, 16, 48, 63, 64, 65, 80, 128, 144, 192], 5 if q else 12):
            J.append(dict(k="par", mode=R.choice([0, 1, 3]), seed=R.randrange(9999), len=n, pool=R.choice([3, 5, 6]), m=m, pre=R.choice([0, 0, 1, 16, 63, 64, 100])))
    for n in range(24 if q else 200):
        J.append(dict(k="pair", mode=R.choice([0, 0, 1, 2, 3]), seed=R.randrange(9999)))
        J.append(dict(k="perm", mode=[0, 1, 2, 3, 3][n % 5], seed=R.randrange(9999)))
    return J
def run(ctx):
    J = jobs(ctx.quick, ctx.seed)
    L = [dict(k="sched", mode=0, seed=ctx.seed, len=n, ops=[dict(o="up", n=n - 1000), dict(o="up", n=1000), dict(o="fin", n=0)]) for n in ([16383] if ctx.quick else [16383, 16375, 16384, 20000])]
    def gen(n, js):
        return ctx.tlc("Hashes", consts=dict(Jobs=tla(js)), invariants=["Constants", "Chunking"], name=n, workers=2)[1]
    parts = [J[i::3] for i in range(3)] + [L]
    random.Random(1).shuffle(parts[0])
    res = parallel(*[(lambda i=i: gen("abcd"[i], parts[i])) for i in range(4)])
    cases = sum(res, [])
    f = ctx.path("cases.ndjson")
    write_ndjson(f, cases)
    for k in ("sched", "pair", "perm"): ctx.sample(next(c for c in cases if c["k"] == k and c.get("len", 0) < 300), 1)
    s = ctx.harness("h_hash", ["run", f])
    ctx.traces += s["checked"]
    ctx.detail["replay"] = s
