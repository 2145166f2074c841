-------------------------------- MODULE Gpa --------------------------------
(***************************************************************************)
(* Batched grand product argument: a binary tree of products per claim,      *)
(* reduced layer by layer with an equality-indicator sumcheck over all the   *)
(* claims that still have layers.  The prover may deviate at one place.      *)
(***************************************************************************)
EXTENDS Poly, TLC, Json
CONSTANTS Shapes,  \* sequence of sequences of [n, len, kind]: len < 2^n means the rest of the table is 1
          Orders, ChalSeeds, Deviations
VARIABLES phase, ii, order, cs, dev, wit, layer, point, levals, bc, sum, round, tabs, samples, msgs, chals, finals, verdict
vars == <<phase, ii, order, cs, dev, wit, layer, point, levals, bc, sum, round, tabs, samples, msgs, chals, finals, verdict>>
I == Shapes[ii]
NC == Len(I)
MaxN == MaxOf({0} \cup {I[c].n : c \in 1..NC})
\* stable order of claims by descending size
SortedIdx == LET Rank(c) == Cardinality({d \in 1..NC : I[d].n > I[c].n \/ (I[d].n = I[c].n /\ d < c)})
             IN [k \in 1..NC |-> CHOOSE c \in 1..NC : Rank(c) = k - 1]
RECURSIVE Tree(_)
Tree(t) == IF Len(t) = 1 THEN <<t>> ELSE
    LET h == Len(t) \div 2 IN Append(Tree([i \in 1..h |-> FMul(t[i], t[h + i])]), t)
Input(c) == [x \in 1..2^I[c].n |-> IF x > I[c].len THEN 1 ELSE FieldVal(I[c].kind, RandVal(ii * 17 + c, x))]
\* active claims of a layer, in sorted order
Active(l) == SelectSeq(SortedIdx, LAMBDA c : I[c].n > l)
Weighted(b, vals) == FSum([j \in 1..Len(vals) |-> FMul(FPow(b, j), vals[j])])

Devs == {[k |-> "none", a |-> 0, b |-> 0, c |-> 0]}
  \cup {[k |-> k, a |-> a, b |-> 0, c |-> 0] : k \in Deviations \cap {"product", "adapt"}, a \in 1..4}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> 0] : k \in Deviations \cap {"adapteq"}, a \in 1..3, b \in 0..2}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> 0] : k \in Deviations \cap {"eval"}, a \in 0..2, b \in 1..5}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> c] : k \in Deviations \cap {"round"}, a \in 0..2, b \in 0..1, c \in 1..3}
  \cup {[k |-> k, a |-> 0, b |-> 0, c |-> 0] : k \in Deviations \cap {"trunc"}}
\* "adapt": the evaluations are chosen to match a false product; "adapteq": in layer b the equality indicator's is
Lies == {"product", "adapt", "adapteq"}
Meaningful(d) == CASE d.k \in {"product", "adapt"} -> d.a <= NC
   [] d.k = "adapteq" -> d.a <= NC /\ d.b < I[d.a].n
   [] d.k = "eval" -> d.a < MaxN /\ d.b <= 2 * Len(Active(d.a)) + 1
   [] d.k = "round" -> d.a < MaxN /\ d.b < d.a
   [] OTHER -> TRUE
Init == /\ phase = "start" /\ ii \in 1..Len(Shapes) /\ order \in Orders /\ cs \in ChalSeeds /\ dev \in Devs
        /\ wit = <<>> /\ layer = 0 /\ point = <<>> /\ levals = <<>> /\ bc = 0 /\ sum = 0 /\ round = 0 /\ tabs = <<>>
        /\ samples = <<>> /\ msgs = <<>> /\ chals = <<>> /\ finals = <<>> /\ verdict = "open"
Product(c) == LET p == wit[c][1][1] IN IF dev.k \in Lies /\ dev.a = c THEN FAdd(p, 1) ELSE p
Start ==
  /\ phase = "start" /\ Meaningful(dev)
  /\ wit' = [c \in 1..NC |-> Tree(Input(c))]
  /\ phase' = "init"
  /\ UNCHANGED <<ii, order, cs, dev, layer, point, levals, bc, sum, round, tabs, samples, msgs, chals, finals, verdict>>
Begin ==
  /\ phase = "init"
  /\ levals' = [c \in 1..NC |-> Product(c)]
  /\ finals' = [c \in 1..NC |-> [point |-> <<>>, eval |-> IF I[c].n = 0 THEN Product(c) ELSE 0]]
  /\ phase' = "layer"
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, point, bc, sum, round, tabs, samples, msgs, chals, verdict>>
Finish ==
  /\ phase = "layer" /\ layer = MaxN
  /\ phase' = "done" /\ verdict' = (IF dev.k = "trunc" /\ msgs # <<>> THEN "reject" ELSE "accept")
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, point, levals, bc, sum, round, tabs, samples, msgs, chals, finals>>
\* --- one layer: sumcheck of eq * (lower half) * (upper half)
StartLayer ==
  /\ phase = "layer" /\ layer < MaxN
  /\ LET act == Active(layer)  b == Chal(cs, Len(samples) + 1)
     IN /\ bc' = b /\ samples' = Append(samples, b)
        /\ sum' = Weighted(b, [k \in 1..Len(act) |-> levals[act[k]]])
        /\ tabs' = [k \in 1..(2 * Len(act) + 1) |->
              IF k = 2 * Len(act) + 1 THEN EqWeights(point)
              ELSE LET t == wit[act[(k + 1) \div 2]][layer + 2]
                   IN IF k % 2 = 1 THEN SubSeq(t, 1, 2^layer) ELSE SubSeq(t, 2^layer + 1, 2^(layer + 1))]
  /\ round' = 0 /\ chals' = <<>> /\ phase' = "round"
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, point, levals, msgs, finals, verdict>>
NAct == Len(Active(layer))
Recover(msg, s) == Append(msg, FAdd(s, FAdd(msg[1], FSum(msg))))
Round ==
  /\ phase = "round" /\ round < layer
  /\ LET half == Len(tabs[1]) \div 2
         full == PolyPad(PolySumSeq([k \in 1..NAct |-> PolyScale(FPow(bc, k), PolySumSeq([i \in 1..half |->
                   PolyMul(Line(order, tabs[2*NAct+1], i), PolyMul(Line(order, tabs[2*k-1], i), Line(order, tabs[2*k], i)))]))]), 4)
         honest == SubSeq(full, 1, 3)
         msg == IF dev.k = "round" /\ dev.a = layer /\ dev.b = round THEN [honest EXCEPT ![dev.c] = FAdd(@, 1)] ELSE honest
         r == Chal(cs, Len(samples) + 1)
     IN /\ msgs' = msgs \o msg /\ samples' = Append(samples, r) /\ chals' = Append(chals, r)
        /\ sum' = PolyEval(Recover(msg, sum), r)
        /\ tabs' = [k \in 1..Len(tabs) |-> FoldT(order, tabs[k], r)]
  /\ round' = round + 1
  /\ UNCHANGED <<phase, ii, order, cs, dev, wit, layer, point, levals, bc, finals, verdict>>
EndLayer ==
  /\ phase = "round" /\ round = layer
  /\ LET act == Active(layer)
         t == [k \in 1..Len(tabs) |-> tabs[k][1]]
         WS(e) == FMul(e[2*NAct+1], Weighted(bc, [k \in 1..NAct |-> FMul(e[2*k-1], e[2*k])]))
         K == {k \in 1..NAct : act[k] = dev.a}
         adapted == IF K = {} THEN t ELSE
             LET k == CHOOSE x \in K : TRUE
                 m == IF dev.k = "adapteq" /\ dev.b = layer THEN 2*NAct+1 ELSE 2*k-1
                 d == FAdd(WS([t EXCEPT ![m] = 0]), WS([t EXCEPT ![m] = 1]))
             IN IF d = 0 THEN t ELSE [t EXCEPT ![m] = FMul(FAdd(sum, WS([t EXCEPT ![m] = 0])), FInv(d))]
         ev == IF dev.k = "eval" /\ dev.a = layer THEN [t EXCEPT ![dev.b] = FAdd(@, 1)]
               ELSE IF dev.k \in {"adapt", "adapteq"} THEN adapted ELSE t
         mine == IF order = "low" THEN chals ELSE RevSeq(chals)
         ok == WS(ev) = sum /\ ev[2*NAct+1] = MleEval(EqWeights(point), mine)
         g == Chal(cs, Len(samples) + 1)
         np == Append(mine, g)
         nl == [c \in 1..NC |-> IF \E k \in 1..NAct : act[k] = c
                  THEN LET k == CHOOSE k \in 1..NAct : act[k] = c IN FAdd(ev[2*k-1], FMul(g, FAdd(ev[2*k-1], ev[2*k])))
                  ELSE levals[c]]
     IN /\ msgs' = msgs \o ev
        /\ IF ~ok THEN verdict' = "reject" /\ phase' = "done" /\ UNCHANGED <<samples, point, levals, finals>>
           ELSE /\ verdict' = verdict /\ phase' = "layer" /\ samples' = Append(samples, g) /\ point' = np /\ levals' = nl
                /\ finals' = [c \in 1..NC |-> IF I[c].n = layer + 1 THEN [point |-> np, eval |-> nl[c]] ELSE finals[c]]
  /\ layer' = layer + 1
  /\ UNCHANGED <<ii, order, cs, dev, wit, bc, sum, round, tabs, chals>>
Next == Start \/ Begin \/ Finish \/ StartLayer \/ Round \/ EndLayer
Spec == Init /\ [][Next]_vars
Done == phase = "done"
AllTrue == \A c \in 1..NC : finals[c].eval = MleEval(Input(c), finals[c].point)
HonestAccepted == Done /\ dev.k = "none" => verdict = "accept" /\ AllTrue
FalseSurfaces == Done /\ verdict = "accept" /\ dev.k \notin {"none", "trunc"} => ~AllTrue
Emit == Done => PrintT(ToJson([order |-> order, cs |-> cs, dev |-> dev, verdict |-> verdict,
   claims |-> [c \in 1..NC |-> [n |-> I[c].n, len |-> I[c].len, kind |-> I[c].kind, table |-> Input(c), product |-> Product(c), layers |-> wit[c]]],
   samples |-> samples, msgs |-> msgs, finals |-> finals]))
============================================================================
