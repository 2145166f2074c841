------------------------------ MODULE Sumcheck ------------------------------
(***************************************************************************)
(* Batched sumcheck.  A claim is a group of compositions over the same       *)
(* multilinears with a claimed sum each.  proto "back" shares the later      *)
(* challenges between claims of different sizes, "front" the earlier ones.   *)
(* Prover and verifier are both specified; the prover may deviate at one     *)
(* place.  The verifier's verdict and reduced claims are exact.              *)
(***************************************************************************)
EXTENDS Poly, TLC, Json

CONSTANTS Instances,  \* sequence of instances; an instance is a sequence of [n, kinds, comps]
          Protos,     \* subset of {"back","front"} \X {"low","high"}
          ChalSeeds, Deviations

VARIABLES phase, ii, proto, order, cs, dev, round, tabs, bcs, sum, samples, msgs, evals, verdict, chals
vars == <<phase, ii, proto, order, cs, dev, round, tabs, bcs, sum, samples, msgs, evals, verdict, chals>>

Inst == Instances[ii]
EqChal(i) == [x \in 1..MaxOf({0} \cup {Instances[i][c].n : c \in 1..Len(Instances[i])}) |-> Chal(3, 100 + x)]
EqTable(i, n) == LET e == EqChal(i) IN EqWeights(SubSeq(e, Len(e) - n + 1, Len(e)))
BaseTable(i, c, m) == LET n == 2^Instances[i][c].n  k == Instances[i][c].kinds[m] IN
   IF k = "eq" THEN EqTable(i, Instances[i][c].n)
   ELSE [x \in 1..n |-> IF k = "suf" /\ x > (n \div 2) THEN 5 ELSE FieldVal(k, RandVal(i * 31 + c * 7 + m, x))]
Tables(i) == [c \in 1..Len(Instances[i]) |-> [m \in 1..Len(Instances[i][c].kinds) |-> BaseTable(i, c, m)]]
TrueSums(i) == [c \in 1..Len(Instances[i]) |-> [j \in 1..Len(Instances[i][c].comps) |-> CompSum(Instances[i][c].comps[j], Tables(i)[c])]]
ClaimedSums == [c \in 1..Len(Inst) |-> [j \in 1..Len(Inst[c].comps) |->
      IF dev.k \in {"sum", "adapt"} /\ dev.a = c /\ dev.b = j THEN FAdd(TrueSums(ii)[c][j], 9) ELSE TrueSums(ii)[c][j]]]
NClaims == Len(Inst)
NRounds == MaxOf({0} \cup {Inst[c].n : c \in 1..NClaims})
Ordered == IF proto = "back" THEN \A c \in 1..(NClaims - 1) : Inst[c].n >= Inst[c+1].n
           ELSE \A c \in 1..(NClaims - 1) : Inst[c].n <= Inst[c+1].n
ClaimDegree(c) == MaxOf({0} \cup {CompDegree(Inst[c].comps[j]) : j \in 1..Len(Inst[c].comps)})
Weighted(bc, vals) == FSum([j \in 1..Len(vals) |-> FMul(FPow(bc, j), vals[j])])
\* claims taking part in the round numbered r (from 0)
Active(c, r) == IF proto = "back" THEN Inst[c].n >= NRounds - r ELSE Inst[c].n > r
ActiveSet(r) == {c \in 1..NClaims : Active(c, r)}
RoundDegree(r) == MaxOf({0} \cup {ClaimDegree(c) : c \in ActiveSet(r)})
NewClaims(r) == {c \in 1..NClaims : Inst[c].n = NRounds - r}

None == [k |-> "none", a |-> 0, b |-> 0]
DevChoices(i) == LET D(S) == Deviations \cap S  I == Instances[i]
                     R == MaxOf({0} \cup {I[c].n : c \in 1..Len(I)}) IN
  {None}
  \cup {[k |-> k, a |-> c, b |-> j] : k \in D({"sum", "adapt"}), c \in 1..Len(I), j \in 1..3}
  \cup {[k |-> k, a |-> r, b |-> j] : k \in D({"round"}), r \in 0..(R - 1), j \in 1..4}
  \cup {[k |-> k, a |-> c, b |-> j] : k \in D({"eval"}), c \in 1..Len(I), j \in 1..3}
  \cup {[k |-> k, a |-> 0, b |-> 0] : k \in D({"trunc"})}
\* deviations that exist for this instance and protocol
Meaningful(d) == CASE d.k \in {"sum", "adapt"} -> d.b <= Len(Inst[d.a].comps)
                   [] d.k = "round" -> d.b <= RoundDegree(d.a)
                   [] d.k = "eval" -> d.b <= Len(Inst[d.a].kinds)
                   [] OTHER -> TRUE

Init == /\ phase = "start" /\ ii \in 1..Len(Instances) /\ \E p \in Protos : proto = p[1] /\ order = p[2]
        /\ cs \in ChalSeeds /\ dev \in DevChoices(ii) /\ round = 0 /\ tabs = <<>> /\ bcs = <<>>
        /\ sum = 0 /\ samples = <<>> /\ msgs = <<>> /\ evals = <<>> /\ verdict = "open" /\ chals = <<>>

Draw(k) == [i \in 1..k |-> Chal(cs, Len(samples) + i)]
Start ==
  /\ phase = "start" /\ Meaningful(dev)
  /\ tabs' = Tables(ii)
  /\ IF ~Ordered THEN verdict' = "refuse" /\ phase' = "done" /\ UNCHANGED <<bcs, sum, samples>>
     ELSE /\ phase' = "round" /\ verdict' = verdict
          /\ IF proto = "front"
             THEN LET b == Draw(NClaims) IN bcs' = b /\ samples' = samples \o b
                      /\ sum' = FSum([c \in 1..NClaims |-> Weighted(b[c], ClaimedSums[c])])
             ELSE UNCHANGED <<bcs, sum, samples>>
  /\ UNCHANGED <<ii, proto, order, cs, dev, round, msgs, evals, chals>>

\* front: claims with n = round are finished before the round; back: new claims join
FinalEvals(c) == [m \in 1..Len(Inst[c].kinds) |-> tabs[c][m][1]]
LinearIn(c, m) == \A j \in 1..Len(Inst[c].comps) : \A k \in 1..Len(Inst[c].comps[j]) :
     Cardinality({x \in 1..Len(Inst[c].comps[j][k].e) : Inst[c].comps[j][k].e[x] = m}) <= 1
EvalW(c, b, ev) == Weighted(b, [j \in 1..Len(Inst[c].comps) |-> CompEval(Inst[c].comps[j], ev)])
\* the evaluations a prover sends for claim c; `target` is the value the check wants for that claim
SentEvals(c, b, target) ==
  LET ev == FinalEvals(c) IN
  IF dev.k = "eval" /\ dev.a = c THEN [ev EXCEPT ![dev.b] = FAdd(@, 1)]
  ELSE IF dev.k = "adapt" /\ dev.a = c THEN
       LET M == {m \in 1..Len(ev) : LinearIn(c, m) /\ EvalW(c, b, [ev EXCEPT ![m] = 0]) # EvalW(c, b, [ev EXCEPT ![m] = 1])}
       IN IF M = {} THEN ev
          ELSE LET m == MaxOf(M)
                   y0 == EvalW(c, b, [ev EXCEPT ![m] = 0])
                   y1 == EvalW(c, b, [ev EXCEPT ![m] = 1])
               IN [ev EXCEPT ![m] = FMul(FAdd(target, y0), FInv(FAdd(y0, y1)))]
  ELSE ev

RoundMsg(r, b) == \* the truncated round polynomial of the honest prover, from the folded tables
  LET ps == [c \in 1..NClaims |-> IF ~Active(c, r) THEN <<0>> ELSE
               LET half == Len(tabs[c][1]) \div 2
               IN PolySumSeq([j \in 1..Len(Inst[c].comps) |-> PolyScale(FPow(b[c], j),
                    PolySumSeq([i \in 1..half |-> CompPoly(Inst[c].comps[j],
                         [m \in 1..Len(tabs[c]) |-> Line(order, tabs[c][m], i)])]))])]
      full == PolyPad(PolySumSeq(ps), RoundDegree(r) + 1)
      honest == SubSeq(full, 1, RoundDegree(r))
  IN IF dev.k = "round" /\ dev.a = r THEN [honest EXCEPT ![dev.b] = FAdd(@, 3)] ELSE honest
Recover(msg, s) == LET h == IF msg = <<>> THEN 0 ELSE msg[1] IN Append(msg, FAdd(s, FAdd(h, FSum(msg))))

\* front-loaded: finishing every claim whose variables are used up
FinishClaim ==
  /\ phase = "round" /\ proto = "front" /\ Len(evals) < NClaims /\ Inst[Len(evals) + 1].n = round
  /\ LET c == Len(evals) + 1
         \* what a cheating prover has to hit: whatever makes the rest of the sum true
         rest == FSum([d \in 1..NClaims |-> IF d <= c THEN 0 ELSE
                   Weighted(bcs[d], [j \in 1..Len(Inst[d].comps) |-> CompSum(Inst[d].comps[j], tabs[d])])])
         ev == SentEvals(c, bcs[c], FAdd(sum, rest))
     IN /\ evals' = Append(evals, ev) /\ msgs' = msgs \o ev
        /\ sum' = FAdd(sum, EvalW(c, bcs[c], ev))
  /\ UNCHANGED <<phase, ii, proto, order, cs, dev, round, tabs, bcs, samples, verdict, chals>>
CanRound == phase = "round" /\ round < NRounds /\ (proto = "front" => Len(evals) < NClaims /\ Inst[Len(evals) + 1].n > round)
Round ==
  /\ CanRound
  /\ LET b0 == IF proto = "back" THEN Draw(Cardinality(NewClaims(round))) ELSE <<>>
         b == bcs \o b0
         s0 == IF proto = "back"
               THEN FAdd(sum, FSum([k \in 1..Len(b0) |-> Weighted(b0[k], ClaimedSums[Len(bcs) + k])]))
               ELSE sum
         msg == RoundMsg(round, b)
         r == Chal(cs, Len(samples) + Len(b0) + 1)
     IN /\ bcs' = b /\ samples' = (samples \o b0) \o <<r>> /\ msgs' = msgs \o msg
        /\ sum' = PolyEval(Recover(msg, s0), r) /\ chals' = Append(chals, r)
        /\ tabs' = [c \in 1..NClaims |-> IF Active(c, round)
                       THEN [m \in 1..Len(tabs[c]) |-> FoldT(order, tabs[c][m], r)] ELSE tabs[c]]
  /\ round' = round + 1
  /\ UNCHANGED <<phase, ii, proto, order, cs, dev, evals, verdict>>
FinishBack ==
  /\ phase = "round" /\ proto = "back" /\ round = NRounds
  /\ LET b0 == Draw(NClaims - Len(bcs))
         b == bcs \o b0
         s == FAdd(sum, FSum([k \in 1..Len(b0) |-> Weighted(b0[k], ClaimedSums[Len(bcs) + k])]))
         others(c) == FSum([d \in 1..NClaims |-> IF d = c THEN 0 ELSE EvalW(d, b[d], FinalEvals(d))])
         ev == [c \in 1..NClaims |-> SentEvals(c, b[c], FAdd(s, others(c)))]
         want == FSum([c \in 1..NClaims |-> EvalW(c, b[c], ev[c])])
     IN /\ bcs' = b /\ samples' = samples \o b0 /\ evals' = ev
        /\ msgs' = FoldLeft(LAMBDA acc, e : acc \o e, msgs, ev)
        /\ verdict' = (IF s = want /\ ~(dev.k = "trunc" /\ msgs' # <<>>) THEN "accept" ELSE "reject")
        /\ sum' = FAdd(s, want)
  /\ phase' = "done" /\ UNCHANGED <<ii, proto, order, cs, dev, round, tabs, chals>>
FinishFront ==
  /\ phase = "round" /\ proto = "front" /\ Len(evals) = NClaims
  /\ verdict' = (IF sum = 0 /\ ~(dev.k = "trunc" /\ msgs # <<>>) THEN "accept" ELSE "reject")
  /\ phase' = "done"
  /\ UNCHANGED <<ii, proto, order, cs, dev, round, tabs, bcs, sum, samples, msgs, evals, chals>>
Next == Start \/ FinishClaim \/ Round \/ FinishBack \/ FinishFront
Spec == Init /\ [][Next]_vars

Done == phase = "done"
\* the point at which claim c's multilinears are evaluated, variable 0 first
PointOf(c) == LET mine == IF proto = "back" THEN SubSeq(chals, NRounds - Inst[c].n + 1, NRounds) ELSE SubSeq(chals, 1, Inst[c].n)
              IN IF order = "low" THEN mine ELSE RevSeq(mine)
TrueEval(c, m) == MleEval(Tables(ii)[c][m], PointOf(c))
AllEvalsTrue == \A c \in 1..NClaims : \A m \in 1..Len(Inst[c].kinds) : evals[c][m] = TrueEval(c, m)
AllSumsTrue == ClaimedSums = TrueSums(ii)
HonestAccepted == Done /\ dev.k = "none" /\ Ordered => verdict = "accept" /\ AllEvalsTrue
\* random challenges (seed > 0): a false sum or a false round message surfaces as a rejection or as a false evaluation
FalseSurfaces == Done /\ verdict = "accept" /\ cs > 0 /\ ~AllSumsTrue => ~AllEvalsTrue
EvalLiesCaught == Done /\ verdict = "accept" /\ dev.k \in {"eval", "round"} /\ cs > 0 => ~AllEvalsTrue
IsEq == NClaims > 0 /\ \A c \in 1..NClaims : Inst[c].kinds # <<>> /\ Inst[c].kinds[Len(Inst[c].kinds)] = "eq"
\* the equality indicator's evaluation is checked by the verifier itself
EqAccepts == verdict = "accept" /\ \A c \in 1..NClaims : LET m == Len(Inst[c].kinds) IN evals[c][m] = TrueEval(c, m)
OutPoint == IF proto = "back" /\ order = "high" THEN RevSeq(chals) ELSE chals
Emit == Done => PrintT(ToJson([proto |-> proto, order |-> order, dev |-> dev, cs |-> cs,
   claims |-> [c \in 1..NClaims |-> [n |-> Inst[c].n, kinds |-> Inst[c].kinds, comps |-> Inst[c].comps,
                                     tables |-> Tables(ii)[c], sums |-> ClaimedSums[c]]],
   eq |-> IF IsEq THEN EqChal(ii) ELSE <<>>, eqok |-> IF IsEq /\ Ordered THEN EqAccepts ELSE FALSE, samples |-> samples, msgs |-> msgs, verdict |-> verdict, point |-> OutPoint, evals |-> evals]))

============================================================================
