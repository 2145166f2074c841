----------------------------- MODULE RingSwitch -----------------------------
(***************************************************************************)
(* Reduction of evaluation claims on committed small-field columns to sums   *)
(* of products with the packed columns, in a tower whose top is the 16-bit   *)
(* field.  A column of level l with n variables is packed 2^k to a field     *)
(* element, k = 4 - l.  The prover may lie about one or two claims and adapt *)
(* the following messages to the lie.                                        *)
(***************************************************************************)
EXTENDS Poly, TLC, Json
CONSTANTS Systems,    \* sequence of [cols, claims]: cols of [n, l], claims of [c, p] (column, point number)
          Strategies
VARIABLES phase, sy, strat, vert, sent, rows, verdict
vars == <<phase, sy, strat, vert, sent, rows, verdict>>
Cols == Systems[sy].cols
Cl == Systems[sy].claims
N == Len(Cl)
Max2(a, b) == IF a > b THEN a ELSE b
Kap(c) == 4 - Cols[c].l
NV(c) == Cols[c].n
Sub(c) == 2^Cols[c].l                         \* bits of a column's entries
Table(c) == [x \in 1..2^NV(c) |-> RandVal(sy * 41 + c, x) % 2^Sub(c)]
PointOf(k) == [i \in 1..NV(Cl[k].c) |-> Chal(Cl[k].p, 100 + i)]
Prefix(k) == LET ka == Kap(Cl[k].c) IN [i \in 1..ka |-> IF i <= NV(Cl[k].c) THEN PointOf(k)[i] ELSE 0]
Suffix(k) == SubSeq(PointOf(k), Kap(Cl[k].c) + 1, NV(Cl[k].c))
TrueEv(k) == MleEval(Table(Cl[k].c), PointOf(k))
Delta == 29
Ev(k) == IF strat.k # "none" /\ (k = strat.a \/ (strat.k = "pair" /\ k = strat.b)) THEN FAdd(TrueEv(k), Delta) ELSE TrueEv(k)
\* --- the tensor algebra: an element is the sequence of its 2^kappa vertical field elements
Limb(x, j, w) == (x \div 2^(j * w)) % 2^w      \* j-th subfield coordinate, w bits each
Transpose(v, w) == [j \in 1..Len(v) |-> FSum([i \in 1..Len(v) |-> Limb(v[i], j - 1, w) * 2^((i - 1) * w)])]
FoldVertical(v, w, coeffs) == LET t == Transpose(v, w) IN FSum([j \in 1..Len(v) |-> FMul(t[j], coeffs[j])])
ScaleV(v, s) == [i \in 1..Len(v) |-> FMul(v[i], s)]
AddV(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
\* partial evaluation at the suffix, one vertical element per lane
Vertical(k) == LET t == Table(Cl[k].c)  ka == Kap(Cl[k].c)
                   lane(u) == [x \in 1..2^Len(Suffix(k)) |-> t[((((x - 1) * 2^ka) + (u - 1)) % Len(t)) + 1]]
               IN [u \in 1..2^ka |-> MleEval(lane(u), Suffix(k))]
NMix == CHOOSE m \in 0..6 : 2^m >= N /\ (m = 0 \/ 2^(m-1) < N)
Mix == EqWeights([i \in 1..NMix |-> Chal(7, i)])
MaxKap == MaxOf({Kap(Cl[k].c) : k \in 1..N})
RowC == EqWeights([i \in 1..MaxKap |-> Chal(8, i)])
PrefixSet == {<<Kap(Cl[k].c), Prefix(k)>> : k \in 1..N}
Of(p) == {k \in 1..N : <<Kap(Cl[k].c), Prefix(k)>> = p}
SumF(S, f(_)) == FoldSet(LAMBDA k, acc : FAdd(acc, f(k)), 0, S)
\* --- the packed column and the transparent it is multiplied with
Packed(c) == LET t == Table(c) IN [x \in 1..2^Max2(NV(c) - Kap(c), 0) |->
   FSum([u \in 1..2^Kap(c) |-> t[((((x - 1) * 2^Kap(c)) + (u - 1)) % Len(t)) + 1] * 2^((u - 1) * Sub(c))])]
EqInd(k) == LET e == EqWeights(Suffix(k))  w == Sub(Cl[k].c) IN
   [x \in 1..Len(e) |-> FSum([j \in 1..2^Kap(Cl[k].c) |-> FMul(RowC[j], Limb(FMul(Mix[k], e[x]), j - 1, w))])]
TrueSum(k) == FDot(Packed(Cl[k].c), EqInd(k))

Strats == {[k |-> "none", a |-> 0, b |-> 0]} \cup {[k |-> s, a |-> a, b |-> 0] : s \in Strategies \ {"pair", "none"}, a \in 1..3}
          \cup {[k |-> s, a |-> 1, b |-> b] : s \in Strategies \cap {"pair"}, b \in 2..3}
Init == /\ phase = "tensor" /\ sy \in 1..Len(Systems) /\ strat \in Strats /\ vert = <<>> /\ sent = <<>> /\ rows = <<>> /\ verdict = "open"
Reject == verdict' = "reject" /\ phase' = "done"
\* the prover sends, per prefix, the mix of the claims' partial evaluations
Tensor ==
  /\ phase = "tensor" /\ strat.a <= N /\ strat.b <= N
  /\ LET v == [k \in 1..N |-> ScaleV(Vertical(k), Mix[k])]
         mixed(p) == FoldSet(LAMBDA k, acc : AddV(acc, v[k]), [i \in 1..2^p[1] |-> 0], Of(p))
         hit(p) == strat.k \in {"tensor", "row"} /\ strat.a \in Of(p)
         \* adapted: the first vertical element with a nonzero weight absorbs the lie
         adapt(p, m) == LET e == EqWeights(p[2])  i == CHOOSE i \in 1..Len(e) : e[i] # 0
                        IN [m EXCEPT ![i] = FAdd(@, FMul(FMul(Mix[strat.a], Delta), FInv(e[i])))]
         sn == [p \in PrefixSet |-> IF hit(p) THEN adapt(p, mixed(p)) ELSE mixed(p)]
     IN /\ vert' = v /\ sent' = sn
        /\ IF \E p \in PrefixSet : MleEval(sn[p], p[2]) # SumF(Of(p), LAMBDA k : FMul(Ev(k), Mix[k])) THEN Reject
           ELSE phase' = "row" /\ UNCHANGED verdict
  /\ UNCHANGED <<sy, strat, rows>>
\* ... and, per claim, its row-batched sum
Row ==
  /\ phase = "row"
  /\ LET w(p) == 2^(4 - p[1])
         hon == [k \in 1..N |-> FoldVertical(vert[k], Sub(Cl[k].c), RowC)]
         p0 == <<Kap(Cl[strat.a].c), Prefix(strat.a)>>
         r == IF strat.k # "row" THEN hon
              ELSE [hon EXCEPT ![strat.a] = FAdd(@, FAdd(FoldVertical(sent[p0], w(p0), RowC), SumF(Of(p0), LAMBDA k : hon[k])))]
     IN /\ rows' = r
        /\ IF \E p \in PrefixSet : FoldVertical(sent[p], w(p), RowC) # SumF(Of(p), LAMBDA k : r[k]) THEN Reject
           ELSE phase' = "done" /\ verdict' = "accept"
  /\ UNCHANGED <<sy, strat, vert, sent>>
Next == Tensor \/ Row
Spec == Init /\ [][Next]_vars
Done == phase = "done"
AllTrue == \A k \in 1..N : rows[k] = TrueSum(k)
HonestAccepted == Done /\ strat.k = "none" => verdict = "accept" /\ AllTrue
FalseSurfaces == Done /\ verdict = "accept" /\ strat.k # "none" => ~AllTrue
TransposeInvolutive == phase = "row" => \A k \in 1..N : LET w == Sub(Cl[k].c) IN Transpose(Transpose(vert[k], w), w) = vert[k]
Emit == Done /\ strat.k = "none" => \A k \in 1..N : LET w == Sub(Cl[k].c)  s == RandVal(sy, 5 * k) IN PrintT(ToJson(
   [l |-> Cols[Cl[k].c].l, kappa |-> Kap(Cl[k].c), a |-> vert[k], b |-> Vertical(k), s |-> s, coeffs |-> SubSeq(RowC, 1, 2^Kap(Cl[k].c)),
    transpose |-> Transpose(vert[k], w), fold |-> FoldVertical(vert[k], w, RowC), add |-> AddV(vert[k], Vertical(k)),
    scale |-> ScaleV(vert[k], s), hscale |-> Transpose(ScaleV(Transpose(vert[k], w), s), w),
    tensor |-> [i \in 1..2^Kap(Cl[k].c) |-> FMul(Mix[k], Limb(s, i - 1, w))], m |-> Mix[k]]))
============================================================================
