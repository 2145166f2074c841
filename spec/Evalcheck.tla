----------------------------- MODULE Evalcheck ------------------------------
(***************************************************************************)
(* Reduction of evaluation claims on the columns of a graph: one round of    *)
(* the verifier, a machine with a stack of frames, and the prover's messages *)
(* (hints, sub-evaluations, positions), which may deviate at one place.      *)
(* Results: claims on committed columns, sum claims (shifted and packed      *)
(* columns) and composition claims grouped by evaluation point.              *)
(***************************************************************************)
EXTENDS Virtual, TLC, Json
CONSTANTS Graphs,      \* sequence of [nodes, claims]; a claim is [id, p] with p the number of a point
          Deviations
VARIABLES phase, gi, dev, tabs, stack, rcl, com, sums, mles, msgs, nlc, nhint, npos, verdict
vars == <<phase, gi, dev, tabs, stack, rcl, com, sums, mles, msgs, nlc, nhint, npos, verdict>>
G == Graphs[gi].nodes
Claims == Graphs[gi].claims
NVars(i) == Log2(Len(tabs[i]))
TrueEval(i, pt) == MleEval(tabs[i], pt)
\* a claim's point: the first coordinates of point number p
PtOf(c) == [i \in 1..NVars(c.id) |-> Chal(c.p, 500 + i)]
\* "reuse": the evaluation claimed for claim a is one that an earlier claim j would support if the verifier took a
\* repeated claim at another point (b = 1, 2) or on another column (b = 3, 4) for the same one; a claim as a whole
\* (b = 1, 3) or the terms of a linear combination (b = 2, 4)
Partners(k, b) == {j \in 1..(k - 1) : NVars(Claims[j].id) = NVars(Claims[k].id)
                     /\ (b <= 2 <=> PtOf(Claims[j]) # PtOf(Claims[k])) /\ (b = 1 => Claims[j].id = Claims[k].id) /\ (b >= 3 => Claims[j].id # Claims[k].id)
                     /\ (b \in {2, 4} => G[Claims[k].id].t = "lc" /\ G[Claims[k].id].in # <<>>)}
Partner == CHOOSE j \in Partners(dev.a, dev.b) : \A i \in Partners(dev.a, dev.b) : j <= i
ReuseEval == LET c == Claims[dev.a]  j == Claims[Partner] IN
   CASE dev.b \in {1, 2} -> TrueEval(c.id, PtOf(j))
     [] dev.b = 3 -> TrueEval(j.id, PtOf(c))
     [] dev.b = 4 -> LET nd == G[c.id] IN FAdd(nd.off, FSum([i \in 1..Len(nd.in) |-> FMul(nd.in[i].c, TrueEval(j.id, PtOf(c)))]))
TopEval(k) == LET v == TrueEval(Claims[k].id, PtOf(Claims[k]))
              IN IF dev.k \in {"top", "adapt"} /\ dev.a = k THEN FAdd(v, 1) ELSE IF dev.k = "reuse" /\ dev.a = k THEN ReuseEval ELSE v
D(S) == Deviations \cap S
Devs == {[k |-> "none", a |-> 0, b |-> 0]}
   \cup {[k |-> k, a |-> a, b |-> 0] : k \in D({"top", "adapt"}), a \in 1..3}
   \cup {[k |-> k, a |-> a, b |-> b] : k \in D({"reuse"}), a \in 2..4, b \in 1..4}
   \cup {[k |-> k, a |-> a, b |-> 0] : k \in D({"lceval"}), a \in 1..4}
   \cup {[k |-> k, a |-> a, b |-> b] : k \in D({"hint"}), a \in 1..5, b \in {0, 1, 2, 7, 99}}
   \cup {[k |-> k, a |-> a, b |-> b] : k \in D({"pos"}), a \in 1..3, b \in 0..2}
   \cup {[k |-> k, a |-> 0, b |-> 0] : k \in D({"trunc"})}
Init == /\ phase = "start" /\ gi \in 1..Len(Graphs) /\ dev \in Devs /\ tabs = <<>> /\ stack = <<>> /\ rcl = <<>> /\ com = <<>>
        /\ sums = <<>> /\ mles = <<>> /\ msgs = <<>> /\ nlc = 0 /\ nhint = 0 /\ npos = 0 /\ verdict = "open"
Start ==
  /\ phase = "start" /\ (dev.k \in {"top", "adapt"} => dev.a <= Len(Claims))
  /\ tabs' = GraphTables(G, gi) /\ phase' = "top" /\ (dev.k = "reuse" => dev.a <= Len(Claims))
  /\ UNCHANGED <<gi, dev, stack, rcl, com, sums, mles, msgs, nlc, nhint, npos, verdict>>
Frame(f, id, pt, ev) == [f |-> f, id |-> id, pt |-> pt, ev |-> ev, k |-> 0, acc |-> 0]
Top ==
  /\ phase = "top" /\ (dev.k = "reuse" => Partners(dev.a, dev.b) # {})
  /\ stack' = [k \in 1..Len(Claims) |-> Frame("v", Claims[k].id, PtOf(Claims[k]), TopEval(k))]  \* head is the top
  /\ phase' = "run"
  /\ UNCHANGED <<gi, dev, tabs, rcl, com, sums, mles, msgs, nlc, nhint, npos, verdict>>
Reject == verdict' = "reject" /\ phase' = "done" /\ stack' = <<>>
\* index from 0 of an earlier claim on the same column and point, or -1
Earlier(id, pt) == LET S == {j \in 1..Len(rcl) : rcl[j].id = id /\ rcl[j].pt = pt}
                   IN IF S = {} THEN -1 ELSE (CHOOSE j \in S : \A i \in S : j <= i) - 1
\* the hint the prover sends for a claim: -1 is "new"
RF == stack[1]
First(S) == IF S = {} THEN -1 ELSE (CHOOSE j \in S : \A i \in S : j <= i) - 1
Reused(id, pt) ==
  CASE RF.f = "v" /\ dev.b = 1 -> First({j \in 1..Len(rcl) : rcl[j].id = id /\ Len(rcl[j].pt) = Len(pt) /\ rcl[j].ev = RF.ev})
    [] RF.f = "v" /\ dev.b = 3 -> First({j \in 1..Len(rcl) : rcl[j].pt = pt /\ rcl[j].ev = RF.ev})
    [] RF.f = "lc" /\ dev.b = 2 /\ RF.id = Claims[dev.a].id /\ RF.pt = PtOf(Claims[dev.a]) ->
           First({j \in 1..Len(rcl) : rcl[j].id = id /\ rcl[j].pt = PtOf(Claims[Partner])})
    [] RF.f = "lc" /\ dev.b = 4 /\ RF.id = Claims[dev.a].id /\ RF.pt = PtOf(Claims[dev.a]) ->
           First({j \in 1..Len(rcl) : rcl[j].id = Claims[Partner].id /\ rcl[j].pt = pt})
    [] OTHER -> -1
Hint(id, pt) == IF dev.k = "hint" /\ dev.a = nhint + 1 THEN (IF dev.b = 7 THEN -1 ELSE dev.b)
                ELSE IF dev.k = "reuse" /\ Reused(id, pt) >= 0 THEN Reused(id, pt) ELSE Earlier(id, pt)
HintMsg(h) == IF h < 0 THEN <<[m |-> "new", v |-> 0]>> ELSE <<[m |-> "dup", v |-> h]>>
Pop == Tail(stack)
\* a claim that comes with a hint
Visit ==
  /\ phase = "run" /\ stack # <<>> /\ RF.f = "v"
  /\ LET h == Hint(RF.id, RF.pt) IN
     /\ msgs' = msgs \o HintMsg(h) /\ nhint' = nhint + 1
     /\ IF h >= 0
        THEN IF h < Len(rcl) /\ rcl[h+1] = [id |-> RF.id, pt |-> RF.pt, ev |-> RF.ev] THEN stack' = Pop /\ UNCHANGED <<phase, verdict>>
             ELSE Reject
        ELSE stack' = <<Frame("p", RF.id, RF.pt, RF.ev)>> \o Pop /\ UNCHANGED <<phase, verdict>>
  /\ UNCHANGED <<gi, dev, tabs, rcl, com, sums, mles, nlc, npos>>
Push(f) == stack' = <<f>> \o Pop /\ UNCHANGED <<phase, verdict>>
Process ==
  /\ phase = "run" /\ stack # <<>> /\ RF.f = "p"
  /\ rcl' = Append(rcl, [id |-> RF.id, pt |-> RF.pt, ev |-> RF.ev])
  /\ LET nd == G[RF.id]  pt == RF.pt  ev == RF.ev IN
     CASE nd.t \in {"tr", "st"} ->
            (IF TrueEval(RF.id, pt) = ev THEN stack' = Pop /\ UNCHANGED <<phase, verdict>> ELSE Reject) /\ UNCHANGED <<com, sums, mles, msgs, npos>>
       [] nd.t = "com" -> com' = Append(com, [id |-> RF.id, pt |-> pt, ev |-> ev]) /\ stack' = Pop /\ UNCHANGED <<phase, verdict, sums, mles, msgs, npos>>
       [] nd.t = "rep" -> Push(Frame("v", nd.id, SubSeq(pt, 1, Len(pt) - nd.d), ev)) /\ UNCHANGED <<com, sums, mles, msgs, npos>>
       [] nd.t = "proj" -> Push(Frame("v", nd.id, (SubSeq(pt, 1, nd.s) \o Pt(nd.seed, nd.d)) \o SubSeq(pt, nd.s + 1, Len(pt)), ev))
                           /\ UNCHANGED <<com, sums, mles, msgs, npos>>
       [] nd.t \in {"shift", "pack"} -> sums' = Append(sums, [n |-> IF nd.t = "shift" THEN nd.b ELSE nd.d, id |-> RF.id, pt |-> pt, ev |-> ev])
                           /\ stack' = Pop /\ UNCHANGED <<phase, verdict, com, mles, msgs, npos>>
       [] nd.t = "lc" -> Push([Frame("lc", RF.id, pt, ev) EXCEPT !.k = 1, !.acc = nd.off]) /\ UNCHANGED <<com, sums, mles, msgs, npos>>
       [] nd.t = "zp" ->
            LET sel == EqWeights(SubSeq(pt, nd.s + 1, nd.s + nd.d))[nd.nz + 1]
            IN (IF sel # 0 THEN Push(Frame("v", nd.id, SubSeq(pt, 1, nd.s) \o SubSeq(pt, nd.s + nd.d + 1, Len(pt)), FMul(ev, FInv(sel))))
                ELSE IF ev = 0 THEN stack' = Pop /\ UNCHANGED <<phase, verdict>> ELSE Reject)
               /\ UNCHANGED <<com, sums, mles, msgs, npos>>
       [] nd.t = "comp" ->
            LET S == {j \in 1..Len(mles) : mles[j].pt = pt}
                honest == IF S = {} THEN Len(mles) ELSE (CHOOSE j \in S : \A i \in S : j <= i) - 1
                pos == IF dev.k = "pos" /\ dev.a = npos + 1 THEN dev.b ELSE honest
                item == [id |-> RF.id, ev |-> ev]
            IN /\ npos' = npos + 1 /\ msgs' = Append(msgs, [m |-> "pos", v |-> pos])
               /\ IF pos < Len(mles) /\ mles[pos+1].pt # pt THEN Reject /\ UNCHANGED mles
                  ELSE /\ stack' = Pop /\ UNCHANGED <<phase, verdict>>
                       /\ mles' = IF pos < Len(mles) THEN [mles EXCEPT ![pos+1].items = Append(@, item)]
                                  ELSE Append(mles, [pt |-> pt, items |-> <<item>>])
               /\ UNCHANGED <<com, sums>>
  /\ UNCHANGED <<gi, dev, tabs, nlc, nhint>>
LinComb ==
  /\ phase = "run" /\ stack # <<>> /\ RF.f = "lc"
  /\ LET nd == G[RF.id]  k == RF.k IN
     IF k > Len(nd.in)
     THEN (IF RF.acc = RF.ev THEN stack' = Pop /\ UNCHANGED <<phase, verdict>> ELSE Reject) /\ UNCHANGED <<msgs, nlc, nhint>>
     ELSE LET sub == nd.in[k]  h == Hint(sub.id, RF.pt) IN
          IF h >= 0
          THEN /\ msgs' = msgs \o HintMsg(h) /\ nhint' = nhint + 1 /\ UNCHANGED nlc
               /\ IF h < Len(rcl) /\ rcl[h+1].id = sub.id /\ rcl[h+1].pt = RF.pt
                  THEN Push([RF EXCEPT !.k = k + 1, !.acc = FAdd(@, FMul(sub.c, rcl[h+1].ev))])
                  ELSE Reject
          ELSE LET true == TrueEval(sub.id, RF.pt)
                   v == IF dev.k = "lceval" /\ dev.a = nlc + 1 THEN FAdd(true, 1)
                        ELSE IF dev.k = "adapt" /\ k = Len(nd.in) /\ sub.c # 0 THEN FMul(FAdd(RF.ev, RF.acc), FInv(sub.c))
                        ELSE true
               IN /\ msgs' = (msgs \o HintMsg(-1)) \o <<[m |-> "eval", v |-> v]>> /\ nhint' = nhint + 1 /\ nlc' = nlc + 1
                  /\ stack' = <<Frame("p", sub.id, RF.pt, v), [RF EXCEPT !.k = k + 1, !.acc = FAdd(@, FMul(sub.c, v))]>> \o Pop
                  /\ UNCHANGED <<phase, verdict>>
  /\ UNCHANGED <<gi, dev, tabs, rcl, com, sums, mles, npos>>
Finish ==
  /\ phase = "run" /\ stack = <<>>
  /\ phase' = "done" /\ verdict' = (IF dev.k = "trunc" THEN "reject" ELSE "accept")
  /\ UNCHANGED <<gi, dev, tabs, stack, rcl, com, sums, mles, msgs, nlc, nhint, npos>>
Next == Start \/ Top \/ Visit \/ Process \/ LinComb \/ Finish
Spec == Init /\ [][Next]_vars
Done == phase = "done"
TrueItem(x) == x.ev = TrueEval(x.id, x.pt)
AllTrue == /\ \A i \in 1..Len(com) : TrueItem(com[i])
           /\ \A i \in 1..Len(sums) : TrueItem(sums[i])
           /\ \A i \in 1..Len(mles) : \A j \in 1..Len(mles[i].items) :
                 TrueItem([id |-> mles[i].items[j].id, pt |-> mles[i].pt, ev |-> mles[i].items[j].ev])
TopTrue == \A k \in 1..Len(Claims) : TopEval(k) = TrueEval(Claims[k].id, PtOf(Claims[k]))
HonestAccepted == Done /\ dev.k = "none" => verdict = "accept" /\ AllTrue
FalseSurfaces == Done /\ verdict = "accept" /\ ~TopTrue => ~AllTrue
LiesCaught == Done /\ verdict = "accept" /\ dev.k = "lceval" /\ nlc >= dev.a => ~AllTrue
Emit == Done => PrintT(ToJson([dev |-> dev, verdict |-> verdict, nodes |-> G, tables |-> tabs,
   proj |-> [i \in 1..Len(G) |-> IF G[i].t = "proj" THEN Pt(G[i].seed, G[i].d) ELSE <<>>],
   eqpt |-> [i \in 1..Len(G) |-> IF G[i].t = "tr" /\ G[i].p.k = "eq" THEN Pt(G[i].p.v, G[i].p.n) ELSE <<>>],
   claims |-> [k \in 1..Len(Claims) |-> [id |-> Claims[k].id, pt |-> PtOf(Claims[k]), ev |-> TopEval(k)]],
   msgs |-> msgs, com |-> com, sums |-> [k \in 1..Len(sums) |-> [n |-> sums[k].n, ev |-> sums[k].ev, actual |-> TrueEval(sums[k].id, sums[k].pt)]],
   mles |-> [k \in 1..Len(mles) |-> [pt |-> mles[k].pt, items |-> [j \in 1..Len(mles[k].items) |->
               [ev |-> mles[k].items[j].ev, actual |-> TrueEval(mles[k].items[j].id, mles[k].pt)]]]]]))
============================================================================
