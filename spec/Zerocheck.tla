----------------------------- MODULE Zerocheck -----------------------------
(***************************************************************************)
(* Batched zerocheck with a univariate round in place of the first `skip`    *)
(* variables: univariate round, front-loaded sumcheck with the equality      *)
(* indicator (high variables first), then the reduction that turns           *)
(* univariatised evaluations into multilinear ones.                          *)
(***************************************************************************)
EXTENDS Poly, TLC, Json
CONSTANTS Instances, \* sequence of sequences of [n, kinds, comps]
          Skips, ChalSeeds, Deviations

VARIABLES phase, ii, skip, cs, dev, z, bcs, u, sum, round, tabs, samples, msgs, evals, chals,
          rtabs, rb, rsum, rround, rchals, revals, verdict, wit
vars == <<phase, ii, skip, cs, dev, z, bcs, u, sum, round, tabs, samples, msgs, evals, chals,
          rtabs, rb, rsum, rround, rchals, revals, verdict, wit>>

I == Instances[ii]
NC == Len(I)
N == MaxOf({0} \cup {I[c].n : c \in 1..NC})
\* --- witness tables: base kinds, then kinds derived from earlier columns
BaseVal(i, c, m, x) == LET k == Instances[i][c].kinds[m] IN FieldVal(k, RandVal(i * 29 + c * 11 + m, x))
ColVal(i, c, m, x) == LET k == Instances[i][c].kinds[m]
                          a == BaseVal(i, c, 1, x)  b == IF Len(Instances[i][c].kinds) > 1 THEN BaseVal(i, c, 2, x) ELSE 0 IN
   CASE k = "p12" -> FMul(a, b)
     [] k = "p112" -> FMul(a, FMul(a, b))
     [] k = "z1" -> IF a = 0 THEN RandVal(m, x) ELSE 0
     [] k = "s12" -> FAdd(a, b)
     [] OTHER -> BaseVal(i, c, m, x)
Tables(i) == [c \in 1..Len(Instances[i]) |-> [m \in 1..Len(Instances[i][c].kinds) |->
                [x \in 1..2^Instances[i][c].n |->
                   IF dev.k \in {"witness", "adapt", "adapteq", "adaptred"} /\ dev.a = c /\ m = Len(Instances[i][c].kinds)
                         /\ x = 1 + ((dev.b * 5) % (2^Instances[i][c].n))
                   THEN FAdd(ColVal(i, c, m, x), 1) ELSE ColVal(i, c, m, x)]]]
Vanishes == \A c \in 1..NC : \A j \in 1..Len(I[c].comps) : \A x \in 1..2^I[c].n :
               CompEval(I[c].comps[j], [m \in 1..Len(I[c].kinds) |-> wit[c][m][x]]) = 0
Ordered == \A c \in 1..(NC - 1) : I[c].n <= I[c+1].n
Admissible == Ordered /\ N >= skip
ClaimDegree(c) == MaxOf({0} \cup {CompDegree(I[c].comps[j]) : j \in 1..Len(I[c].comps)})
DomainSize == MaxOf({0} \cup {ClaimDegree(c) * 2^skip : c \in 1..NC})
ZerosLen == IF 2^skip < DomainSize THEN 2^skip ELSE DomainSize
Rem(c) == IF I[c].n > skip THEN I[c].n - skip ELSE 0
NR == IF N > skip THEN N - skip ELSE 0
Padded(t) == [x \in 1..(IF Len(t) < 2^skip THEN 2^skip ELSE Len(t)) |-> t[1 + ((x - 1) % Len(t))]]
\* Lagrange basis polynomials of the points 0..n-1
Lagrange(n, x) == [i \in 1..n |->
    FProd([j \in 1..n |-> IF j = i THEN 1 ELSE FMul(FAdd(x, j - 1), FInv(FAdd(i - 1, j - 1)))])]
Univ(t, x) == LET L == Lagrange(2^skip, x)  p == Padded(t)
              IN [y \in 1..(Len(p) \div 2^skip) |-> FDot(L, SubSeq(p, (y-1) * 2^skip + 1, y * 2^skip))]
EqOf(c) == EqWeights(SubSeq(z, Len(z) - Rem(c) + 1, Len(z)))
Weighted(bc, vals) == FSum([j \in 1..Len(vals) |-> FMul(FPow(bc, j), vals[j])])

Devs == {[k |-> "none", a |-> 0, b |-> 0]}
  \cup {[k |-> k, a |-> a, b |-> b] : k \in Deviations \cap {"witness", "adapt", "adapteq", "adaptred"}, a \in 1..3, b \in 0..3}
  \cup {[k |-> k, a |-> a, b |-> 0] : k \in Deviations \cap {"uni"}, a \in 1..6}
  \cup {[k |-> k, a |-> a, b |-> b] : k \in Deviations \cap {"round", "eval", "redround"}, a \in 1..3, b \in 1..3}
  \cup {[k |-> k, a |-> a, b |-> 0] : k \in Deviations \cap {"redeval"}, a \in 1..5}
  \cup {[k |-> k, a |-> 0, b |-> 0] : k \in Deviations \cap {"trunc"}}
NMul == SumSeq([c \in 1..NC |-> Len(I[c].kinds)])
RoundDegree(r) == MaxOf({0} \cup {ClaimDegree(c) + 1 : c \in {d \in 1..NC : Rem(d) > r /\ I[d].comps # <<>>}})
Meaningful(d) == CASE d.k \in {"witness", "adapt", "adapteq", "adaptred"} -> d.a <= NC /\ I[d.a].kinds # <<>> /\ d.b < 2^I[d.a].n
  [] d.k = "uni" -> d.a <= DomainSize - ZerosLen
  [] d.k = "round" -> d.a <= NR /\ d.b <= RoundDegree(d.a - 1)
  [] d.k = "eval" -> d.a <= NC /\ d.b <= Len(I[d.a].kinds) + 1
  [] d.k = "redround" -> d.a <= skip /\ d.b <= 2
  [] d.k = "redeval" -> d.a <= NMul + 1
  [] OTHER -> TRUE

Init == /\ phase = "start" /\ ii \in 1..Len(Instances) /\ skip \in Skips /\ cs \in ChalSeeds /\ dev \in Devs
        /\ z = <<>> /\ bcs = <<>> /\ u = 0 /\ sum = 0 /\ round = 0 /\ tabs = <<>> /\ samples = <<>> /\ msgs = <<>>
        /\ evals = <<>> /\ chals = <<>> /\ rtabs = <<>> /\ rb = 0 /\ rsum = 0 /\ rround = 0 /\ rchals = <<>>
        /\ revals = <<>> /\ verdict = "open" /\ wit = <<>>
Draw(k) == [i \in 1..k |-> Chal(cs, Len(samples) + i)]

Start ==
  /\ phase = "start" /\ Meaningful(dev) /\ wit' = Tables(ii)
  /\ IF ~Admissible THEN verdict' = "refuse" /\ phase' = "done" /\ UNCHANGED <<z, bcs, samples>>
     ELSE LET d == Draw(NR + NC) IN
          /\ z' = SubSeq(d, 1, NR) /\ bcs' = SubSeq(d, NR + 1, NR + NC) /\ samples' = d /\ phase' = "uni" /\ verdict' = verdict
  /\ UNCHANGED <<ii, skip, cs, dev, u, sum, round, tabs, msgs, evals, chals, rtabs, rb, rsum, rround, rchals, revals>>
\* value of the batched round polynomial at x
UniAt(x) == FSum([c \in 1..NC |->
   LET e == EqOf(c)  t == wit[c]  h == [m \in 1..Len(t) |-> Univ(t[m], x)]
   IN Weighted(bcs[c], [j \in 1..Len(I[c].comps) |->
        FSum([y \in 1..Len(e) |-> FMul(e[y], CompEval(I[c].comps[j], [m \in 1..Len(h) |-> h[m][y]]))])])])
Univariate ==
  /\ phase = "uni"
  /\ LET m0 == [k \in 1..(DomainSize - ZerosLen) |-> UniAt(ZerosLen + k - 1)]
         m == IF dev.k = "uni" THEN [m0 EXCEPT ![dev.a] = FAdd(@, 1)] ELSE m0
         x == Chal(cs, Len(samples) + 1)
         L == Lagrange(DomainSize, x)
     IN /\ msgs' = m /\ samples' = Append(samples, x) /\ u' = x
        /\ sum' = FSum([k \in 1..Len(m) |-> FMul(m[k], L[ZerosLen + k])])
        /\ tabs' = [c \in 1..NC |-> [k \in 1..Len(I[c].kinds) |-> Univ(wit[c][k], x)] \o <<EqOf(c)>>]
  /\ phase' = "round"
  /\ UNCHANGED <<ii, skip, cs, dev, z, bcs, round, evals, chals, rtabs, rb, rsum, rround, rchals, revals, verdict, wit>>

\* --- the equality-indicator sumcheck, front loaded, high variables first
EqComp(c, j) == [k \in 1..Len(I[c].comps[j]) |-> [c |-> I[c].comps[j][k].c, e |-> Append(I[c].comps[j][k].e, Len(I[c].kinds) + 1)]]
Comps(c) == [j \in 1..Len(I[c].comps) |-> EqComp(c, j)]
EvalW(c, ev) == Weighted(bcs[c], [j \in 1..Len(I[c].comps) |-> CompEval(EqComp(c, j), ev)])
Recover(msg, s) == LET h == IF msg = <<>> THEN 0 ELSE msg[1] IN Append(msg, FAdd(s, FAdd(h, FSum(msg))))
RoundMsg(r) ==
  LET ps == [c \in 1..NC |-> IF Rem(c) <= r THEN <<0>> ELSE
              LET half == Len(tabs[c][1]) \div 2
              IN PolySumSeq([j \in 1..Len(I[c].comps) |-> PolyScale(FPow(bcs[c], j),
                   PolySumSeq([i \in 1..half |-> CompPoly(EqComp(c, j), [m \in 1..Len(tabs[c]) |-> Line("high", tabs[c][m], i)])]))])]
      honest == SubSeq(PolyPad(PolySumSeq(ps), RoundDegree(r) + 1), 1, RoundDegree(r))
  IN IF dev.k = "round" /\ dev.a = r + 1 THEN [honest EXCEPT ![dev.b] = FAdd(@, 3)] ELSE honest
AdaptOne(c, ev, target) == \* change one evaluation so that claim c contributes `target`, if possible
  LET W0(m) == EvalW(c, [ev EXCEPT ![m] = 0])  W1(m) == EvalW(c, [ev EXCEPT ![m] = 1])
      Lin(m) == \A j \in 1..Len(I[c].comps) : \A k \in 1..Len(I[c].comps[j]) :
                   Cardinality({x \in 1..Len(I[c].comps[j][k].e) : I[c].comps[j][k].e[x] = m}) <= 1
      M == {m \in (IF dev.k = "adapteq" THEN {Len(ev)} ELSE 1..(Len(ev) - 1)) : Lin(m) /\ W0(m) # W1(m)}
  IN IF M = {} THEN ev ELSE LET m == MaxOf(M) IN [ev EXCEPT ![m] = FMul(FAdd(target, W0(m)), FInv(FAdd(W0(m), W1(m))))]
FinishClaim ==
  /\ phase = "round" /\ Len(evals) < NC /\ Rem(Len(evals) + 1) = round
  /\ LET c == Len(evals) + 1
         rest == FSum([d \in 1..NC |-> IF d <= c THEN 0 ELSE
                   Weighted(bcs[d], [j \in 1..Len(I[d].comps) |-> CompSum(EqComp(d, j), tabs[d])])])
         t == [m \in 1..Len(tabs[c]) |-> tabs[c][m][1]]
         ev == IF dev.k = "eval" /\ dev.a = c THEN [t EXCEPT ![dev.b] = FAdd(@, 1)]
               ELSE IF dev.k \in {"adapt", "adapteq", "adaptred"} /\ dev.a = c THEN AdaptOne(c, t, FAdd(sum, rest)) ELSE t
     IN evals' = Append(evals, ev) /\ msgs' = msgs \o ev /\ sum' = FAdd(sum, EvalW(c, ev))
  /\ UNCHANGED <<phase, ii, skip, cs, dev, z, bcs, u, round, tabs, samples, chals, rtabs, rb, rsum, rround, rchals, revals, verdict, wit>>
Round ==
  /\ phase = "round" /\ Len(evals) < NC /\ Rem(Len(evals) + 1) > round
  /\ LET msg == RoundMsg(round)  r == Chal(cs, Len(samples) + 1)
     IN /\ msgs' = msgs \o msg /\ samples' = Append(samples, r) /\ chals' = Append(chals, r)
        /\ sum' = PolyEval(Recover(msg, sum), r)
        /\ tabs' = [c \in 1..NC |-> IF Rem(c) > round THEN [m \in 1..Len(tabs[c]) |-> FoldHigh(tabs[c][m], r)] ELSE tabs[c]]
  /\ round' = round + 1
  /\ UNCHANGED <<phase, ii, skip, cs, dev, z, bcs, u, evals, rtabs, rb, rsum, rround, rchals, revals, verdict, wit>>
Unskipped == RevSeq(chals)
ClaimUnskipped(c) == SubSeq(Unskipped, Len(Unskipped) - Rem(c) + 1, Len(Unskipped))
EqTrue(c) == MleEval(EqOf(c), ClaimUnskipped(c))
\* multilinears partially evaluated at the unskipped part of the point
Project(c, m) == LET p == Padded(wit[c][m])  w == EqWeights(ClaimUnskipped(c))
   IN [x \in 1..2^skip |-> FSum([y \in 1..Len(w) |-> FMul(w[y], p[(y-1) * 2^skip + x])])]
ConcatSeq(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
EqCheck ==
  /\ phase = "round" /\ Len(evals) = NC
  /\ IF sum # 0 \/ \E c \in 1..NC : evals[c][Len(evals[c])] # EqTrue(c)
     THEN phase' = "done" /\ verdict' = "reject" /\ UNCHANGED <<rtabs, rb, rsum, samples>>
     ELSE LET b == Chal(cs, Len(samples) + 1)
              claimed == ConcatSeq([c \in 1..NC |-> SubSeq(evals[c], 1, Len(evals[c]) - 1)])
          IN /\ phase' = "red" /\ verdict' = verdict /\ rb' = b /\ samples' = Append(samples, b)
             /\ rsum' = Weighted(b, claimed)
             /\ rtabs' = ConcatSeq([c \in 1..NC |-> [m \in 1..Len(I[c].kinds) |-> Project(c, m)]]) \o <<Lagrange(2^skip, u)>>
  /\ UNCHANGED <<ii, skip, cs, dev, z, bcs, u, sum, round, tabs, msgs, evals, chals, rround, rchals, revals, wit>>

\* --- univariatising reduction: sum over the skipped cube of multilinear times Lagrange
RedRound ==
  /\ phase = "red" /\ rround < skip
  /\ LET nm == Len(rtabs) - 1
         half == Len(rtabs[1]) \div 2
         full == PolyPad(PolySumSeq([m \in 1..nm |-> PolyScale(FPow(rb, m), PolySumSeq([i \in 1..half |->
                     PolyMul(Line("high", rtabs[m], i), Line("high", rtabs[nm + 1], i))]))]), 3)
         honest == SubSeq(full, 1, 2)
         msg == IF nm = 0 THEN <<>> ELSE IF dev.k = "redround" /\ dev.a = rround + 1 THEN [honest EXCEPT ![dev.b] = FAdd(@, 2)] ELSE honest
         r == Chal(cs, Len(samples) + 1)
     IN /\ msgs' = msgs \o msg /\ samples' = Append(samples, r) /\ rchals' = Append(rchals, r)
        /\ rsum' = PolyEval(Recover(msg, rsum), r)
        /\ rtabs' = [m \in 1..(nm + 1) |-> FoldHigh(rtabs[m], r)]
  /\ rround' = rround + 1
  /\ UNCHANGED <<phase, ii, skip, cs, dev, z, bcs, u, sum, round, tabs, evals, chals, rb, revals, verdict, wit>>
Skipped == RevSeq(rchals)
RedFinish ==
  /\ phase = "red" /\ rround = skip
  /\ LET nm == Len(rtabs) - 1
         t == [m \in 1..(nm + 1) |-> rtabs[m][1]]
         WSum(ev) == FSum([m \in 1..nm |-> FMul(FPow(rb, m), FMul(ev[m], ev[nm + 1]))])
         d == FAdd(WSum([t EXCEPT ![1] = 0]), WSum([t EXCEPT ![1] = 1]))
         one == WSum([t EXCEPT ![nm + 1] = 1])
         ev == IF dev.k = "adaptred" /\ one # 0 THEN [t EXCEPT ![nm + 1] = FMul(rsum, FInv(one))] ELSE IF dev.k = "redeval" THEN [t EXCEPT ![dev.a] = FAdd(@, 1)]
               ELSE IF dev.k = "adapt" /\ nm > 0 /\ d # 0
               THEN [t EXCEPT ![1] = FMul(FAdd(rsum, WSum([t EXCEPT ![1] = 0])), FInv(d))] ELSE t
     IN /\ revals' = SubSeq(ev, 1, nm) /\ msgs' = msgs \o ev
        /\ verdict' = (IF WSum(ev) = rsum /\ ev[nm + 1] = MleEval(Lagrange(2^skip, u), Skipped) /\ dev.k # "trunc"
                       THEN "accept" ELSE "reject")
  /\ phase' = "done"
  /\ UNCHANGED <<ii, skip, cs, dev, z, bcs, u, sum, round, tabs, samples, evals, chals, rtabs, rb, rsum, rround, rchals, wit>>
Next == Start \/ Univariate \/ FinishClaim \/ Round \/ EqCheck \/ RedRound \/ RedFinish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
PointOf(c) == SubSeq(Skipped, 1, IF I[c].n < skip THEN I[c].n ELSE skip) \o ClaimUnskipped(c)
TrueEvals == ConcatSeq([c \in 1..NC |-> [m \in 1..Len(I[c].kinds) |-> MleEval(wit[c][m], PointOf(c))]])
HonestAccepted == Done /\ dev.k = "none" /\ Admissible /\ Vanishes => verdict = "accept" /\ revals = TrueEvals
FalseSurfaces == Done /\ verdict = "accept" /\ cs > 0 /\ ~Vanishes => revals # TrueEvals
LiesSurface == Done /\ verdict = "accept" /\ cs > 0 /\ dev.k \in {"uni", "round", "eval", "redround", "redeval"} => revals # TrueEvals
Emit == Done => PrintT(ToJson([skip |-> skip, cs |-> cs, dev |-> dev, vanishes |-> Vanishes, verdict |-> verdict,
   claims |-> [c \in 1..NC |-> [n |-> I[c].n, kinds |-> I[c].kinds, comps |-> I[c].comps, tables |-> wit[c],
                                sums |-> [j \in 1..Len(I[c].comps) |-> 0]]],
   samples |-> samples, msgs |-> msgs, z |-> z, skipped |-> Skipped, unskipped |-> Unskipped, evals |-> revals]))
============================================================================
