-------------------------------- MODULE Exp --------------------------------
(***************************************************************************)
(* Batched argument for column = base ^ exponent, the exponent given by bit  *)
(* columns (least significant first), the base a constant or a column.       *)
(* Square-and-multiply circuits are reduced layer by layer; in each layer    *)
(* the claims that share an evaluation point form one claim of a sumcheck    *)
(* with an equality indicator.  The prover may deviate at one place.         *)
(***************************************************************************)
EXTENDS Poly, TLC, Json
CONSTANTS Shapes,  \* sequence of sequences of [n, w, dyn, g, kind, p]: p numbers the initial evaluation point
          Orders, ChalSeeds, Deviations
VARIABLES phase, ii, order, cs, dev, wit, layer, pts, evs, grp, bcs, sum, round, tabs, samples, msgs, chals, outs, verdict
vars == <<phase, ii, order, cs, dev, wit, layer, pts, evs, grp, bcs, sum, round, tabs, samples, msgs, chals, outs, verdict>>
I == Shapes[ii]
NC == Len(I)
MaxW == MaxOf({0} \cup {I[c].w : c \in 1..NC})
Sorted == \A c \in 1..(NC - 1) : I[c].n >= I[c+1].n
\* --- witness
BitTable(c, k) == [x \in 1..2^I[c].n |-> CASE I[c].kind = "zero" -> 0 [] I[c].kind = "one" -> 1
                                             [] OTHER -> (RandVal(ii * 29 + c * 5 + k, x) \div 8) % 2]
BaseTable(c) == [x \in 1..2^I[c].n |-> IF I[c].dyn THEN (IF x = 2 THEN 0 ELSE RandVal(ii * 31 + c, x + 40)) ELSE I[c].g]
(* Raising to 2^k and to 2^(k mod 16) is the same on the 16-bit subfield, so exponents of any width stay small. *)
P2(k) == 2^(k % 16)
Exponent(c, x) == SumSeq([k \in 1..I[c].w |-> wit[c].bits[k][x] * P2(k-1)])
Result(c) == [x \in 1..2^I[c].n |-> FPow(wit[c].base[x], Exponent(c, x))]
\* values of circuit layer number k from the input side (1..w); the last is the result
LayerTab(c, k) == [x \in 1..2^I[c].n |->
    IF I[c].dyn THEN FPow(wit[c].base[x], SumSeq([j \in 1..k |-> wit[c].bits[I[c].w - k + j][x] * P2(j-1)]))
    ELSE FPow(I[c].g, SumSeq([j \in 1..k |-> wit[c].bits[j][x] * P2(j-1)]))]
StartPoint(c) == [x \in 1..I[c].n |-> Chal(5 + I[c].p, 200 + x)]
\* --- deviations.  "adapt": every later message is chosen to match a false claim; "adapteq": so is, in layer b, the equality indicator
Lies == {"claim", "adapt", "adapteq"}
Devs == {[k |-> "none", a |-> 0, b |-> 0, c |-> 0]}
  \cup {[k |-> k, a |-> a, b |-> 0, c |-> 0] : k \in Deviations \cap {"claim", "adapt"}, a \in 1..3}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> 0] : k \in Deviations \cap {"adapteq"}, a \in 1..3, b \in 0..2}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> c] : k \in Deviations \cap {"eval"}, a \in 0..3, b \in 1..2, c \in 1..4}
  \cup {[k |-> k, a |-> a, b |-> b, c |-> c] : k \in Deviations \cap {"round"}, a \in 0..3, b \in 0..1, c \in 1..4}
  \cup {[k |-> k, a |-> 0, b |-> 0, c |-> 0] : k \in Deviations \cap {"trunc"}}
Init == /\ phase = "start" /\ ii \in 1..Len(Shapes) /\ order \in Orders /\ cs \in ChalSeeds /\ dev \in Devs
        /\ wit = <<>> /\ layer = 0 /\ pts = <<>> /\ evs = <<>> /\ grp = <<>> /\ bcs = <<>> /\ sum = 0 /\ round = 0 /\ tabs = <<>>
        /\ samples = <<>> /\ msgs = <<>> /\ chals = <<>> /\ outs = <<>> /\ verdict = "open"
Start ==
  /\ phase = "start" /\ (dev.k \in Lies => dev.a <= NC) /\ (dev.k = "adapteq" => dev.b < MaxW) /\ (dev.k \in {"eval", "round"} => dev.a < MaxW)
  /\ wit' = [c \in 1..NC |-> [bits |-> [k \in 1..I[c].w |-> BitTable(c, k)], base |-> BaseTable(c)]]
  /\ pts' = [c \in 1..NC |-> StartPoint(c)]
  /\ phase' = "init"
  /\ UNCHANGED <<ii, order, cs, dev, layer, evs, grp, bcs, sum, round, tabs, samples, msgs, chals, outs, verdict>>
ClaimedEval(c) == LET v == MleEval(Result(c), StartPoint(c)) IN IF dev.k \in Lies /\ dev.a = c THEN FAdd(v, 1) ELSE v
Begin ==
  /\ phase = "init"
  /\ evs' = [c \in 1..NC |-> ClaimedEval(c)]
  /\ IF Sorted THEN phase' = "layer" /\ verdict' = verdict ELSE phase' = "done" /\ verdict' = "refuse"
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, pts, grp, bcs, sum, round, tabs, samples, msgs, chals, outs>>
\* --- one layer
LastOf(c) == layer = I[c].w - 1
NMult(c) == IF I[c].dyn THEN (IF LastOf(c) THEN 2 ELSE 3) ELSE (IF LastOf(c) THEN 0 ELSE 2)
BitNo(c) == IF I[c].dyn THEN layer + 1 ELSE I[c].w - layer
LayerTables(c) ==
  IF NMult(c) = 0 THEN <<>>
  ELSE IF ~I[c].dyn THEN <<LayerTab(c, I[c].w - layer - 1), wit[c].bits[BitNo(c)]>>
  ELSE IF LastOf(c) THEN <<wit[c].base, wit[c].bits[BitNo(c)]>>
  ELSE <<LayerTab(c, I[c].w - layer - 1), wit[c].bits[BitNo(c)], wit[c].base>>
\* consecutive active claims with the same point
Groups(act) == LET
    Step(acc, c) == IF acc # <<>> /\ pts[Last(acc)[1]] = pts[c] THEN [acc EXCEPT ![Len(acc)] = Append(@, c)] ELSE Append(acc, <<c>>)
  IN SelectSeq(FoldLeft(Step, <<>>, act), LAMBDA g : \E i \in 1..Len(g) : NMult(g[i]) > 0)
NG == Len(grp)
GN(g) == I[grp[g][1]].n
Offset(g, i) == SumSeq([j \in 1..(i - 1) |-> NMult(grp[g][j])])
EqIx(g) == Offset(g, Len(grp[g]) + 1) + 1
CompsOf(g) == LET
    mem == SelectSeq([i \in 1..Len(grp[g]) |-> i], LAMBDA i : NMult(grp[g][i]) > 0)
    One(i) == LET c == grp[g][i]  o == Offset(g, i)  q == EqIx(g)
      IN IF ~I[c].dyn THEN <<[c |-> 1, e |-> <<o+1, q>>], [c |-> FAdd(1, FPow(I[c].g, P2(I[c].w - 1 - layer))), e |-> <<o+1, o+2, q>>]>>
         ELSE IF LastOf(c) THEN <<[c |-> 1, e |-> <<q>>], [c |-> 1, e |-> <<o+2, q>>], [c |-> 1, e |-> <<o+1, o+2, q>>]>>
         ELSE <<[c |-> 1, e |-> <<o+1, o+1, q>>], [c |-> 1, e |-> <<o+1, o+1, o+2, q>>], [c |-> 1, e |-> <<o+1, o+1, o+2, o+3, q>>]>>
  IN [k \in 1..Len(mem) |-> One(mem[k])]
MemClaims(g) == SelectSeq(grp[g], LAMBDA c : NMult(c) > 0)
\* degrees the verifier expects (that of the compositions as such, whatever the coefficients)
DegOf(g) == MaxOf({IF ~I[c].dyn \/ LastOf(c) THEN 3 ELSE 5 : c \in {MemClaims(g)[k] : k \in 1..Len(MemClaims(g))}})
Weighted(b, vals) == FSum([j \in 1..Len(vals) |-> FMul(FPow(b, j), vals[j])])
StartLayer ==
  /\ phase = "layer" /\ layer < MaxW
  /\ grp' = Groups(SelectSeq([c \in 1..NC |-> c], LAMBDA c : I[c].w > layer))
  /\ phase' = "tabs" /\ round' = 0 /\ chals' = <<>> /\ bcs' = <<>> /\ sum' = 0
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, pts, evs, tabs, samples, msgs, outs, verdict>>
MakeTabs ==
  /\ phase = "tabs"
  /\ (dev.k = "eval" /\ dev.a = layer => dev.b <= NG /\ dev.c <= EqIx(dev.b))
  /\ (dev.k = "round" /\ dev.a = layer => NG > 0 /\ dev.b < GN(1) /\ dev.c <= DegOf(1))
  /\ tabs' = [g \in 1..NG |-> Append(FoldLeft(LAMBDA acc, c : acc \o LayerTables(c), <<>>, grp[g]), EqWeights(pts[grp[g][1]]))]
  /\ phase' = "round"
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, pts, evs, grp, bcs, sum, round, samples, msgs, chals, outs, verdict>>
NR == IF NG = 0 THEN 0 ELSE GN(1)
Active(g) == GN(g) >= NR - round
GSum(g, b) == Weighted(b, [k \in 1..Len(MemClaims(g)) |-> evs[MemClaims(g)[k]]])
Draw(k) == [i \in 1..k |-> Chal(cs, Len(samples) + i)]
Recover(msg, s) == Append(msg, FAdd(s, FAdd(msg[1], FSum(msg))))
Round ==
  /\ phase = "round" /\ round < NR
  /\ LET b0 == Draw(Cardinality({g \in 1..NG : GN(g) = NR - round}))
         b == bcs \o b0
         s0 == FAdd(sum, FSum([k \in 1..Len(b0) |-> GSum(Len(bcs) + k, b0[k])]))
         deg == MaxOf({DegOf(g) : g \in {x \in 1..NG : Active(x)}})
         ps == [g \in 1..NG |-> IF ~Active(g) THEN <<0>> ELSE
                  LET half == Len(tabs[g][1]) \div 2  comps == CompsOf(g)
                  IN PolySumSeq([j \in 1..Len(comps) |-> PolyScale(FPow(b[g], j), PolySumSeq([i \in 1..half |->
                       CompPoly(comps[j], [m \in 1..Len(tabs[g]) |-> Line(order, tabs[g][m], i)])]))])]
         honest == SubSeq(PolyPad(PolySumSeq(ps), deg + 1), 1, deg)
         msg == IF dev.k = "round" /\ dev.a = layer /\ dev.b = round THEN [honest EXCEPT ![dev.c] = FAdd(@, 1)] ELSE honest
         r == Chal(cs, Len(samples) + Len(b0) + 1)
     IN /\ bcs' = b /\ samples' = (samples \o b0) \o <<r>> /\ msgs' = msgs \o msg /\ chals' = Append(chals, r)
        /\ sum' = PolyEval(Recover(msg, s0), r)
        /\ tabs' = [g \in 1..NG |-> IF Active(g) THEN [m \in 1..Len(tabs[g]) |-> FoldT(order, tabs[g][m], r)] ELSE tabs[g]]
  /\ round' = round + 1
  /\ UNCHANGED <<phase, ii, order, cs, dev, wit, layer, pts, evs, grp, outs, verdict>>
PtOf(n, r) == IF order = "low" THEN SubSeq(r, Len(r) - n + 1, Len(r)) ELSE RevSeq(SubSeq(r, Len(r) - n + 1, Len(r)))
EndLayer ==
  /\ phase = "round" /\ round = NR
  /\ LET b0 == Draw(NG - Len(bcs))
         b == bcs \o b0
         s == FAdd(sum, FSum([k \in 1..Len(b0) |-> GSum(Len(bcs) + k, b0[k])]))
         EvalG(g, ev) == LET comps == CompsOf(g) IN Weighted(b[g], [j \in 1..Len(comps) |-> CompEval(comps[j], ev)])
         Total(ev) == FSum([g \in 1..NG |-> EvalG(g, ev[g])])
         t == [g \in 1..NG |-> [m \in 1..Len(tabs[g]) |-> tabs[g][m][1]]]
         \* where the lied-about claim sits, and the evaluation that enters linearly
         At == {p \in (1..NG) \X (1..NC) : p[2] <= Len(grp[p[1]]) /\ grp[p[1]][p[2]] = dev.a /\ NMult(dev.a) > 0}
         adapted == IF At = {} THEN t ELSE
            LET p == CHOOSE x \in At : TRUE
                m == IF dev.k = "adapteq" /\ dev.b = layer THEN EqIx(p[1]) ELSE Offset(p[1], p[2]) + (IF I[dev.a].dyn THEN 2 ELSE 1)
                With(v) == [t EXCEPT ![p[1]] = [@ EXCEPT ![m] = v]]
                d == FAdd(Total(With(0)), Total(With(1)))
            IN IF d = 0 THEN t ELSE With(FMul(FAdd(s, Total(With(0))), FInv(d)))
         ev == IF dev.k = "eval" /\ dev.a = layer THEN [t EXCEPT ![dev.b] = [@ EXCEPT ![dev.c] = FAdd(@, 1)]]
               ELSE IF dev.k \in {"adapt", "adapteq"} THEN adapted ELSE t
         ok == Total(ev) = s /\ \A g \in 1..NG : ev[g][EqIx(g)] = MleEval(EqWeights(pts[grp[g][1]]), PtOf(GN(g), chals))
         Pos(c) == CHOOSE p \in (1..NG) \X (1..NC) : p[2] <= Len(grp[p[1]]) /\ grp[p[1]][p[2]] = c
         EvOf(c, m) == ev[Pos(c)[1]][Offset(Pos(c)[1], Pos(c)[2]) + m]
         act == SelectSeq([c \in 1..NC |-> c], LAMBDA c : I[c].w > layer)
         Out(c) == IF NMult(c) = 0 THEN <<[c |-> c, m |-> BitNo(c), point |-> pts[c], eval |-> FDiv(FAdd(evs[c], 1), FAdd(I[c].g, 1))]>>
                   ELSE LET q == PtOf(I[c].n, chals)
                            bit == [c |-> c, m |-> BitNo(c), point |-> q, eval |-> EvOf(c, 2)]
                        IN IF ~I[c].dyn THEN <<bit>> ELSE <<bit, [c |-> c, m |-> 0, point |-> q, eval |-> EvOf(c, IF LastOf(c) THEN 1 ELSE 3)]>>
     IN /\ samples' = samples \o b0 /\ bcs' = b
        /\ msgs' = FoldLeft(LAMBDA acc, e : acc \o e, msgs, ev)
        /\ IF ~ok THEN verdict' = "reject" /\ phase' = "done" /\ UNCHANGED <<pts, evs, outs>>
           ELSE /\ verdict' = verdict /\ phase' = "layer"
                /\ outs' = Append(outs, FoldLeft(LAMBDA acc, c : acc \o Out(c), <<>>, act))
                /\ pts' = [c \in 1..NC |-> IF I[c].w > layer + 1 THEN PtOf(I[c].n, chals) ELSE pts[c]]
                /\ evs' = [c \in 1..NC |-> IF I[c].w > layer + 1 THEN EvOf(c, 1) ELSE evs[c]]
  /\ layer' = layer + 1
  /\ UNCHANGED <<ii, order, cs, dev, wit, grp, sum, round, tabs, chals>>
Finish ==
  /\ phase = "layer" /\ layer = MaxW
  /\ phase' = "done" /\ verdict' = (IF dev.k = "trunc" /\ msgs # <<>> THEN "reject" ELSE "accept")
  /\ UNCHANGED <<ii, order, cs, dev, wit, layer, pts, evs, grp, bcs, sum, round, tabs, samples, msgs, chals, outs>>
Next == Start \/ Begin \/ StartLayer \/ MakeTabs \/ Round \/ EndLayer \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"
TrueOut(o) == o.eval = MleEval(IF o.m = 0 THEN wit[o.c].base ELSE wit[o.c].bits[o.m], o.point)
AllTrue == \A l \in 1..Len(outs) : \A k \in 1..Len(outs[l]) : TrueOut(outs[l][k])
HonestAccepted == Done /\ dev.k = "none" /\ Sorted => verdict = "accept" /\ AllTrue
FalseSurfaces == Done /\ verdict = "accept" /\ dev.k \notin {"none", "trunc"} => ~AllTrue
Emit == Done => PrintT(ToJson([order |-> order, cs |-> cs, dev |-> dev, verdict |-> verdict,
   claims |-> [c \in 1..NC |-> [n |-> I[c].n, w |-> I[c].w, dyn |-> I[c].dyn, g |-> I[c].g, point |-> StartPoint(c), eval |-> ClaimedEval(c),
                               bits |-> wit[c].bits, base |-> wit[c].base, result |-> Result(c)]],
   samples |-> samples, msgs |-> msgs, outs |-> outs]))
============================================================================
