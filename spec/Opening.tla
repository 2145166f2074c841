------------------------------ MODULE Opening -------------------------------
(***************************************************************************)
(* Opening of a batch of committed columns in the 128-bit tower: what is     *)
(* claimed, what was committed, what the prover proves with, and the checks  *)
(* of the verifier in their order.  A check passes when the facts it compares*)
(* agree or when the prover adapted the message it is computed from.  Also   *)
(* the sum-of-products layer on its own (mode "piop").                       *)
(* Points lie in the 16-bit field, so a column of wider entries is evaluated *)
(* limb by limb.                                                             *)
(***************************************************************************)
EXTENDS Poly, TLC, Json
CONSTANTS Systems, Kinds
VARIABLES phase, sy, dev, verdict, at
vars == <<phase, sy, dev, verdict, at>>
S == Systems[sy]
Limbs(l) == IF l <= 4 THEN 1 ELSE 2^(l - 4)
\* --- mode "open": columns [n, l], claims [c, p, hi]
Table(c) == [x \in 1..2^S.cols[c].n |-> [j \in 1..Limbs(S.cols[c].l) |->
               LET v == RandVal(sy * 53 + c, x * 9 + j) IN IF S.cols[c].l < 4 THEN v % 2^(2^S.cols[c].l) ELSE v]]
Top == MaxOf({S.cols[c].n : c \in 1..Len(S.cols)})
PointOf(k) == LET n == S.cols[S.claims[k].c].n  off == IF S.claims[k].hi THEN Top - n ELSE 0
              IN [i \in 1..n |-> Chal(S.claims[k].p, 200 + off + i)]
EvAt(c, pt) == LET t == Table(c) IN [j \in 1..Limbs(S.cols[c].l) |-> MleEval([x \in 1..Len(t) |-> t[x][j]], pt)]
\* --- mode "piop": committed tables of the top field [n], transparents [n], claims [c, t]
PTab(what, i, n) == [x \in 1..2^n |-> RandVal(sy * 67 + what * 19 + i, x)]
PSum(k) == LET c == S.claims[k].c  t == S.claims[k].t IN FDot(PTab(1, c, S.cols[c].n), PTab(2, t, S.trans[t].n))
NC == Len(S.claims)
Devs == {[k |-> "none", a |-> 0, b |-> 0]}
   \cup {[k |-> k, a |-> a, b |-> 0] : k \in Kinds \cap {"eval", "point", "data", "switch", "tensor", "row", "sum", "trans", "ptrans", "flip"}, a \in 1..6}
   \cup {[k |-> k, a |-> a, b |-> b] : k \in Kinds \cap {"pair", "swap"}, a \in 1..2, b \in 2..4}
   \cup {[k |-> k, a |-> 0, b |-> 0] : k \in Kinds \cap {"trunc"}}
Init == /\ phase = "start" /\ sy \in 1..Len(Systems) /\ dev \in Devs /\ verdict = "open" /\ at = "-"
\* columns that some claim is about
Used == {S.claims[k].c : k \in 1..NC}
SameKind(i, j) == S.cols[S.claims[i].c].l = S.cols[S.claims[j].c].l
Applies ==
  CASE dev.k \in {"none", "trunc", "flip"} -> TRUE
    [] dev.k \in {"eval", "tensor", "row"} -> S.mode = "open" /\ dev.a <= NC
    [] dev.k = "point" -> S.mode = "open" /\ dev.a <= NC /\ S.cols[S.claims[dev.a].c].n > 0
    [] dev.k \in {"data", "switch"} -> dev.a \in Used
    [] dev.k \in {"pair", "swap"} -> S.mode = "open" /\ dev.a < dev.b /\ dev.b <= NC /\ SameKind(dev.a, dev.b)
    [] dev.k = "sum" -> S.mode = "piop" /\ dev.a <= NC
    [] dev.k \in {"trans", "ptrans"} -> S.mode = "piop" /\ \E k \in 1..NC : S.claims[k].t = dev.a
\* swapping two equal values changes nothing
Vacuous == dev.k = "swap" /\ EvAt(S.claims[dev.a].c, PointOf(dev.a)) = EvAt(S.claims[dev.b].c, PointOf(dev.b))
Start == phase = "start" /\ Applies /\ ~Vacuous /\ phase' = (IF S.mode = "open" THEN "evals" ELSE "sumcheck") /\ UNCHANGED <<sy, dev, verdict, at>>
\* facts: the claimed values are those of the columns the prover works with
ClaimsMatchProver == dev.k \notin {"eval", "tensor", "row", "point", "pair", "swap", "data", "sum"}
TensorsAdapted == dev.k \in {"tensor", "row"}
RowsAdapted == dev.k = "row"
Step(from, ok, to) == /\ phase = from
                      /\ IF ok THEN phase' = to /\ (IF to = "done" THEN verdict' = "accept" /\ at' = at ELSE UNCHANGED <<verdict, at>>)
                         ELSE phase' = "done" /\ verdict' = "reject" /\ at' = from
                      /\ UNCHANGED <<sy, dev>>
Evals == Step("evals", ClaimsMatchProver \/ TensorsAdapted, "rows")                    \* mixed partial evaluations against the claimed values
Rows == Step("rows", ~TensorsAdapted \/ RowsAdapted, "sumcheck")                       \* row-batched sums against the mixed partial evaluations
Sumcheck == Step("sumcheck", ClaimsMatchProver /\ dev.k # "ptrans", "transparent")     \* sums against the columns the prover works with
Transparent == Step("transparent", dev.k # "trans", "fri")                             \* the transparent evaluations against the polynomials
Fri == Step("fri", dev.k # "flip", "piecewise")                                        \* the commitment
Piecewise == Step("piecewise", dev.k # "switch", "end")                                \* column evaluations against the committed word
End == Step("end", dev.k # "trunc", "done")
Next == Start \/ Evals \/ Rows \/ Sumcheck \/ Transparent \/ Fri \/ Piecewise \/ End
Spec == Init /\ [][Next]_vars
Done == phase = "done"
OnlyTruth == Done => (verdict = "accept" <=> dev.k = "none")
Emit == Done => PrintT(ToJson([mode |-> S.mode, rate |-> S.rate, dev |-> dev, verdict |-> verdict, at |-> at, cols |-> S.cols,
   tables |-> IF S.mode = "open" THEN [c \in 1..Len(S.cols) |-> Table(c)] ELSE [c \in 1..Len(S.cols) |-> PTab(1, c, S.cols[c].n)],
   trans |-> IF S.mode = "open" THEN <<>> ELSE [t \in 1..Len(S.trans) |-> PTab(2, t, S.trans[t].n)],
   claims |-> IF S.mode = "open" THEN [k \in 1..NC |-> [c |-> S.claims[k].c, pt |-> PointOf(k), ev |-> EvAt(S.claims[k].c, PointOf(k))]]
              ELSE [k \in 1..NC |-> [c |-> S.claims[k].c, t |-> S.claims[k].t, sum |-> PSum(k)]]]))
============================================================================
