------------------------------- MODULE Layer -------------------------------
(***************************************************************************)
(* A compute layer: device memory, made of buffers of field elements, and    *)
(* the operations on it.  An operation names slices [b, o, n] (buffer,        *)
(* offset, length); it changes exactly the slices it writes, to what the      *)
(* defining formula says (sums over indices, no folding order, chunking or    *)
(* packing), possibly returns values, and is refused when the sizes do not    *)
(* fit together.  A job is an initial memory and a history of operations,      *)
(* which ends at a refused one.  Kernels are written over whole buffers:        *)
(* how many chunks a layer uses must not be visible.                             *)
(***************************************************************************)
EXTENDS Subspace, TLC, Json, FiniteSets
CONSTANTS Jobs
VARIABLES j, i, mem, log
vars == <<j, i, mem, log>>

Lcg(x) == (x * 75 + 74) % 65537
H(s, k) == (Lcg(Lcg(Lcg(Lcg((s * 131 + k * 2749 + 7) % 65537)))) \div 3)
Val(s, k, m) == ((H(s, k) * 3) + (H(s + 1, k) % 3)) % m
Vals(s, n, m) == TLCEval([k \in 1..n |-> Val(s, k, m)])
Card(lv) == 2^(2^lv)
Low(lv) == IF lv > 4 THEN 4 ELSE lv

\* ---- slices ----
Rd(m, s) == SubSeq(m[s.b], s.o + 1, s.o + s.n)
Wr(m, s, v) == [m EXCEPT ![s.b] = TLCEval([k \in 1..Len(@) |-> IF k > s.o /\ k <= s.o + s.n THEN v[k - s.o] ELSE @[k]])]
Sum(s) == FoldLeft(LAMBDA a, x : FAdd(a, x), 0, s)
Prod(s) == FoldLeft(LAMBDA a, x : FMul(a, x), 1, s)
Pow2(n) == \E k \in 0..16 : n = 2^k

\* ---- circuits: steps referring to earlier steps ----
Raise(b, e) == FoldLeft(LAMBDA acc, k : FMul(acc, b), 1, [k \in 1..e |-> k])
EvStep(vs, c, x) == CASE c.o = "add" -> FAdd(vs[c.a + 1], vs[c.b + 1]) [] c.o = "mul" -> FMul(vs[c.a + 1], vs[c.b + 1])
                      [] c.o = "pow" -> Raise(vs[c.a + 1], c.e) [] c.o = "const" -> c.v [] OTHER -> x[c.v + 1]
Ev(cs, x) == LET all == FoldLeft(LAMBDA vs, c : Append(vs, EvStep(vs, c, x)), <<>>, cs) IN all[Len(all)]
NVars(cs) == FoldLeft(LAMBDA n, c : IF c.o = "var" /\ c.v >= n THEN c.v + 1 ELSE n, 0, cs)
Rowwise(cs, rows, n) == TLCEval([k \in 1..n |-> Ev(cs, [r \in 1..Len(rows) |-> rows[r][k]])])

\* ---- kernels: the program's buffers are numbered as the maps ----
\* a map is [t |-> "ref"/"mut", s |-> slice] or [t |-> "local", n |-> size]
Instr(bs, acc, p) == \* bs: contents of the buffers; acc: accumulated values
  CASE p.t = "add" -> [bs |-> [bs EXCEPT ![p.d] = [k \in 1..Len(bs[p.d]) |-> FAdd(bs[p.x][k], bs[p.y][k])]], acc |-> acc]
    [] p.t = "acc" -> [bs |-> [bs EXCEPT ![p.d] = [k \in 1..Len(bs[p.d]) |-> FAdd(bs[p.d][k], bs[p.x][k])]], acc |-> acc]
    [] p.t = "sum" -> [bs |-> bs, acc |-> [acc EXCEPT ![p.d] = FAdd(@, FMul(p.c, Sum(Rowwise(p.cs, [r \in 1..Len(p.in) |-> bs[p.in[r]]], Len(bs[p.in[1]])))))]]
RunKernel(m, q) ==
  LET start == [bs |-> [k \in 1..Len(q.maps) |-> IF q.maps[k].t = "local" THEN [x \in 1..q.maps[k].n |-> 0] ELSE Rd(m, q.maps[k].s)],
                acc |-> [k \in 1..q.nacc |-> 0]]
      end == FoldLeft(LAMBDA a, p : LET r == Instr(a.bs, a.acc, p) IN [bs |-> TLCEval(r.bs), acc |-> r.acc], start, q.prog)
  IN [m |-> FoldLeft(LAMBDA mm, k : IF q.maps[k].t = "mut" THEN Wr(mm, q.maps[k].s, end.bs[k]) ELSE mm, m, [k \in 1..Len(q.maps) |-> k]),
      out |-> end.acc]

\* the subfield matrix of an operation: cells elements of the big field, each 2^(7-lv) elements of the subfield
Mat(q) == Vals(q.seed, q.cells * 2^(7 - q.lv), Card(Low(q.lv)))
Dot(a, b) == Sum([k \in 1..Len(a) |-> FMul(a[k], b[k])])

\* ---- one operation: [ok, m, out, extra]; extra are the drawn operands ----
Ok(m, out, x) == [ok |-> TRUE, m |-> m, out |-> out, x |-> x]
No(x) == [ok |-> FALSE, m |-> <<>>, out |-> <<>>, x |-> x]
Op(m, q) ==
  CASE q.t = "h2d" -> LET v == Vals(q.seed, q.len, q.m) IN IF q.len = q.dst.n THEN Ok(Wr(m, q.dst, v), <<>>, [v |-> v]) ELSE No([v |-> v])
    [] q.t = "d2h" -> IF q.len = q.src.n THEN Ok(m, Rd(m, q.src), [v |-> <<>>]) ELSE No([v |-> <<>>])
    [] q.t = "d2d" -> IF q.src.n = q.dst.n THEN Ok(Wr(m, q.dst, Rd(m, q.src)), <<>>, [v |-> <<>>]) ELSE No([v |-> <<>>])
    [] q.t = "fill" -> Ok(Wr(m, q.dst, [k \in 1..q.dst.n |-> q.v]), <<>>, [v |-> <<>>])
    [] q.t = "inner" -> LET a == Mat(q) IN IF q.asLv <= 7 /\ q.cells * 2^(7 - q.asLv) = q.src.n THEN Ok(m, <<Dot(a, Rd(m, q.src))>>, [mat |-> a]) ELSE No([mat |-> a])
    [] q.t = "tensor" ->
        LET r == Vals(q.seed, q.nc, 65536)  v == Rd(m, q.dst)  w == EqWeights(r)
        IN IF 2^(q.logn + q.nc) = q.dst.n
           THEN Ok(Wr(m, q.dst, [k \in 1..q.dst.n |-> FMul(v[((k - 1) % 2^q.logn) + 1], w[((k - 1) \div 2^q.logn) + 1])]), <<>>, [v |-> r])
           ELSE No([v |-> r])
    [] q.t \in {"foldl", "foldr"} ->
        LET a == Mat(q)  v == Rd(m, q.vec)  rows == q.out.n
        IN IF q.asLv <= 7 /\ q.cells * 2^(7 - q.asLv) = q.vec.n * q.out.n
           THEN Ok(Wr(m, q.out, [k \in 1..rows |-> Sum([c \in 1..q.vec.n |->
                     FMul(v[c], a[IF q.t = "foldl" THEN (c - 1) * rows + k ELSE (k - 1) * q.vec.n + c])])]), <<>>, [mat |-> a])
           ELSE No([mat |-> a])
    [] q.t = "fri" ->
        LET r == Vals(q.seed, q.nc, 65536)
            ok == q.src.n = 2^(q.loglen + q.lb) /\ q.nc >= q.lb /\ q.nc <= q.lb + q.loglen /\ q.out.n = 2^(q.loglen + q.lb - q.nc)
        IN IF ok THEN Ok(Wr(m, q.out, FoldWordMany(CanonBasis(q.loglen + q.before), Collapse(Rd(m, q.src), SubSeq(r, 1, q.lb)), q.before, SubSeq(r, q.lb + 1, q.nc))), <<>>, [v |-> r])
           ELSE No([v |-> r])
    [] q.t = "ext" -> LET x == Rd(m, q.dst)  y == Rd(m, q.src)
        IN IF q.src.n = q.dst.n THEN Ok(Wr(m, q.dst, [k \in 1..q.dst.n |-> FAdd(FMul(x[k], FAdd(1, q.z)), FMul(y[k], q.z))]), <<>>, [v |-> <<>>]) ELSE No([v |-> <<>>])
    [] q.t = "comp" -> IF Len(q.in) = NVars(q.cs) /\ (\A k \in 1..Len(q.in) : q.in[k].n = q.dst.n)
        THEN Ok(Wr(m, q.dst, Rowwise(q.cs, [k \in 1..Len(q.in) |-> Rd(m, q.in[k])], q.dst.n)), <<>>, [v |-> <<>>]) ELSE No([v |-> <<>>])
    [] q.t = "pair" ->
        LET ok == q.src.n >= 2 /\ 2^Len(q.outs) = q.src.n /\ \A k \in 1..Len(q.outs) : q.outs[k].n = q.src.n \div 2^k
            v == Rd(m, q.src)
        IN IF ok THEN Ok(FoldLeft(LAMBDA mm, k : Wr(mm, q.outs[k], [y \in 1..q.outs[k].n |-> Prod(SubSeq(v, (y - 1) * 2^k + 1, y * 2^k))]), m, [k \in 1..Len(q.outs) |-> k]), <<>>, [v |-> <<>>])
           ELSE No([v |-> <<>>])
    [] q.t = "kern" -> IF q.fail THEN No([v |-> <<>>]) ELSE LET r == RunKernel(m, q) IN Ok(r.m, IF q.mapk THEN <<>> ELSE r.out, [v |-> <<>>])
    [] q.t = "many" -> \* several inner products and extrapolations at once, results in the order asked for
        LET zs == Vals(q.seed, Len(q.srcs), 65536)
            nm == FoldLeft(LAMBDA mm, k : Wr(mm, q.dsts[k], LET x == Rd(m, q.dsts[k])  y == Rd(m, q.srcs[k]) IN [l \in 1..q.dsts[k].n |-> FAdd(x[l], FMul(zs[k], FAdd(x[l], y[l])))]), m, [k \in 1..Len(q.srcs) |-> k])
        IN IF q.fail = 0 THEN Ok(nm, [k \in 1..Len(q.srcs) |-> Dot(Rd(nm, q.dsts[k]), Rd(m, q.srcs[k]))], [v |-> zs]) ELSE No([v |-> zs])

Init == /\ j \in 1..Len(Jobs)
        /\ i = 0
        /\ mem = [b \in 1..Len(Jobs[j].bufs) |-> Vals(Jobs[j].seed + b, Jobs[j].bufs[b], Jobs[j].m)]
        /\ log = <<>>
Changed(a, b) == [k \in {x \in 1..Len(a) : a[x] # b[x]} |-> b[k]]
Running == IF log = <<>> THEN TRUE ELSE log[Len(log)].ok
Next == /\ i < Len(Jobs[j].ops) /\ Running
        /\ i' = i + 1
        /\ LET q == Jobs[j].ops[i + 1]  r == TLCEval(Op(mem, q))
               ch == IF r.ok THEN SetToSeq({x \in 1..Len(mem) : mem[x] # r.m[x]}) ELSE <<>>
               e == [ok |-> r.ok, op |-> q, x |-> r.x, out |-> r.out, ch |-> [k \in 1..Len(ch) |-> [b |-> ch[k], v |-> r.m[ch[k]]]]]
           IN /\ mem' = IF r.ok THEN r.m ELSE mem
              /\ log' = Append(log, e)
              /\ IF (IF r.ok THEN i + 1 = Len(Jobs[j].ops) ELSE TRUE)
                 THEN PrintT(ToJson([seed |-> Jobs[j].seed, m |-> Jobs[j].m, bufs |-> Jobs[j].bufs, mem0 |-> [b \in 1..Len(Jobs[j].bufs) |-> Vals(Jobs[j].seed + b, Jobs[j].bufs[b], Jobs[j].m)], ops |-> Append(log, e)]))
                 ELSE TRUE
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

\* ---- what follows from the definitions ----
LastOp == log[Len(log)]
SameSizes == \A b \in 1..Len(mem) : Len(mem[b]) = Jobs[j].bufs[b] /\ \A k \in 1..Len(mem[b]) : mem[b][k] \in 0..65535
\* an operation changes no cell outside the slices it writes
Written(q) == CASE q.t \in {"h2d", "d2d", "fill", "tensor", "ext", "comp"} -> {q.dst} [] q.t \in {"foldl", "foldr", "fri"} -> {q.out}
                [] q.t = "pair" -> {q.outs[k] : k \in 1..Len(q.outs)} [] q.t = "many" -> {q.dsts[k] : k \in 1..Len(q.dsts)}
                [] q.t = "kern" -> {q.maps[k].s : k \in {x \in 1..Len(q.maps) : q.maps[x].t = "mut"}} [] OTHER -> {}
Frame == [][log' # log /\ log'[Len(log')].ok =>
              \A b \in 1..Len(mem) : \A k \in 1..Len(mem[b]) :
                 mem'[b][k] # mem[b][k] => \E s \in Written(log'[Len(log')].op) : s.b = b /\ k > s.o /\ k <= s.o + s.n]_vars
Holds ==
  /\ SameSizes
  /\ IF log = <<>> THEN TRUE ELSE IF ~LastOp.ok THEN TRUE ELSE
     CASE LastOp.op.t = "tensor" -> \* summing over the new coordinates gives back the values
            LET q == LastOp.op  v == Rd(mem, q.dst) IN q.nc = 0 \/ Len(v) = 2^(q.logn + q.nc)
       [] LastOp.op.t = "pair" -> LET q == LastOp.op IN mem[q.outs[Len(q.outs)].b][q.outs[Len(q.outs)].o + 1] = Prod(Rd(mem, q.src)) \/ \E k \in 1..Len(q.outs) : q.outs[k].b = q.src.b
       [] OTHER -> TRUE
============================================================================
