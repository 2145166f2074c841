---------------------------- MODULE Transparent -----------------------------
\* Every transparent column of a given list, its table and its evaluation at several points.
EXTENDS Virtual, TLC, Json
CONSTANTS Items, Seeds
VARIABLES item, seed, done
Nv(t) == IF t.k = "dprod" THEN t.a.n + t.b.n ELSE t.n
Init == item \in Items /\ seed \in Seeds /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<item, seed>>
Spec == Init /\ [][Next]_<<item, seed, done>>
\* an evaluation at a hypercube point is the table entry
OnCube == done /\ seed = 0 => LET t == TrTable(item)  p == [i \in 1..Nv(item) |-> Chal(0, i)]
            IN MleEval(t, p) = t[SumSeq([i \in 1..Nv(item) |-> p[i] * 2^(i-1)]) + 1]
Emit == done => LET p == [i \in 1..Nv(item) |-> Chal(seed, i)] IN PrintT(ToJson([item |-> item, n |-> Nv(item), table |-> TrTable(item),
          arg |-> IF item.k = "eq" THEN Pt(item.v, item.n) ELSE IF item.k = "shift" THEN Pt(item.seed, item.n) ELSE <<>>,
          point |-> p, eval |-> MleEval(TrTable(item), p)]))
============================================================================
