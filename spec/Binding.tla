------------------------------ MODULE Binding ------------------------------
(***************************************************************************)
(* What a proof is bound to.  The verifier of a constraint system absorbs    *)
(* the statement (digest of the system, boundaries), then reads messages,    *)
(* absorbing each before it draws the next challenge, and finally reads      *)
(* advice (openings of what was committed before).  Challenges are an ideal  *)
(* hash: the history absorbed so far, itself.                                *)
(*                                                                           *)
(* Traces are recorded from the real prover and verifier, one per system:    *)
(* [p, v |-> events [k |-> "o"/"s", n |-> bytes, h |-> fingerprint],         *)
(*  slices |-> fingerprints of the proof cut where the trace observed it,    *)
(*  stmt |-> bytes of the statement, shash |-> their fingerprint, len, ...]. *)
(* A behaviour follows one trace event by event (this is the check of the    *)
(* recorded trace against the protocol), then somebody alters one thing and  *)
(* the model says what the verifier must do with it.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS TraceFile, Stride, Masks
VARIABLES tr, t, i, pos, absorbed, challenges, alt
vars == <<tr, t, i, pos, absorbed, challenges, alt>>

T == tr[t]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Observed(x) == SelectSeq(x.v, LAMBDA e : e.k = "o")
MsgLen(x) == Sum([k \in 1..Len(Observed(x)) |-> Observed(x)[k].n]) - x.stmt

\* ---- what the conversation begins with, as far as the shape of the system fixes it
FirstLen(x) == x.stmt + 4 * x.tables + 32 + IF x.exps = 0 THEN 16 * x.nz ELSE 0
FirstSample(x) == IF x.exps = 0 THEN 16 * (1 + x.nch) ELSE 16 * x.expvars
SecondLen(x) == 16 * (IF x.exps = 0 THEN x.fl ELSE x.exps)
Beginning(x) == /\ x.v[1].k = "o"
                /\ \/ x.exps > 0 /\ x.expvars = 0 /\ x.v[1].n >= FirstLen(x) + 16 * x.exps
                   \/ /\ x.v[1].n = FirstLen(x) /\ x.v[2].k = "s" /\ x.v[2].n >= FirstSample(x)
                      /\ SecondLen(x) > 0 => x.v[3].n >= SecondLen(x) /\ x.v[2].n = FirstSample(x)
\* ---- the number of queries for the security level asked for: each query misses with probability (1 + 2^-rate)/2
MicroBits(rate) == CASE rate = 1 -> 415037 [] rate = 2 -> 678072 [] rate = 3 -> 830075 [] rate = 4 -> 912537
Queries(rate, security) == (security * 1000000 + MicroBits(rate) - 1) \div MicroBits(rate)
Enough(x) == LET e == x.v[Len(x.v)] IN e.k = "s" /\ e.n \div 4 >= Queries(x.rate, x.security)
QueryTable == [k \in 1..(4 * 12) |-> LET r == ((k - 1) \div 12) + 1  s == 8 * (((k - 1) % 12) + 1) IN [rate |-> r, security |-> s, n |-> Queries(r, s)]]
ASSUME PrintT(ToJson([queries |-> QueryTable]))

Init == /\ tr = ndJsonDeserialize(TraceFile) /\ t \in 1..Len(tr)
        /\ i = 0 /\ pos = 0 /\ absorbed = <<>> /\ challenges = <<>> /\ alt = [k |-> "none"]
\* the prover's and the verifier's next event are the same; what the verifier absorbs is what lies in the proof
Observe == /\ i < Len(T.v) /\ alt.k = "none"
           /\ T.v[i + 1].k = "o" /\ i < Len(T.p) /\ T.p[i + 1] = T.v[i + 1]
           /\ LET k == Cardinality({j \in 1..i : T.v[j].k = "o"}) + 1 IN T.slices[k] = T.v[i + 1].h
           /\ i' = i + 1 /\ absorbed' = Append(absorbed, T.v[i + 1].h)
           /\ pos' = pos + T.v[i + 1].n - (IF i = 0 THEN T.stmt ELSE 0)
           /\ UNCHANGED <<tr, t, challenges, alt>>
Sample == /\ i < Len(T.v) /\ alt.k = "none" /\ i > 0
          /\ T.v[i + 1].k = "s" /\ i < Len(T.p) /\ T.p[i + 1] = T.v[i + 1]
          /\ i' = i + 1 /\ challenges' = Append(challenges, absorbed)
          /\ UNCHANGED <<tr, t, pos, absorbed, alt>>
\* ---- alterations
Ends(x) == LET o == Observed(x) IN {Sum([j \in 1..k |-> o[j].n]) - x.stmt : k \in 1..Len(o)}
Near(x) == UNION {{e - 1, e} : e \in Ends(x)}
Positions(x) == {p \in 0..(x.len - 1) : p % Stride = t % Stride \/ p \in Near(x) \/ p < 4 * x.tables \/ p = x.len - 1}
Alts(x) == {[k |-> "byte", p |-> p, m |-> m] : p \in Positions(x), m \in Masks}
   \cup {[k |-> "cut", p |-> p] : p \in {q \in Positions(x) : q % (4 * Stride) = t % (4 * Stride)} \cup Near(x) \cup {x.len - 1, x.len - 4, x.len - 16, x.len - 32}}
   \cup {[k |-> "extend", n |-> n] : n \in {1, 2, 3, 4, 16, 32}}
   \cup {[k |-> "digest", p |-> p, m |-> m] : p \in 0..31, m \in {1, 128}}
   \cup {[k |-> "addpair", ch |-> c, m |-> m] : c \in 0..(x.nch - 1), m \in {1, 5}}
   \cup {[k |-> "addnone", ch |-> c] : c \in 0..(x.nch - 1)}
   \cup UNION {{[k |-> "value", b |-> b, w |-> w] : w \in 0..(x.widths[b] - 1)} : b \in 1..Len(x.widths)}
   \cup {[k |-> kk, b |-> b] : b \in 1..Len(x.widths), kk \in {"mult", "dir", "drop", "split", "chan"}}
   \cup {[k |-> "rate", v |-> v] : v \in {1, 2, 3} \ {x.rate}}
   \* (queries leave no trace in a proof that contains the whole codeword)
   \cup {[k |-> "security", v |-> v] : v \in IF x.elems >= 64 THEN {10, 40, 60} \ {x.security} ELSE {}}
   \cup {[k |-> "system", o |-> o] : o \in {u \in 1..Len(tr) : tr[u].sysid # x.sysid}}
Alter == /\ i = Len(T.v) /\ Len(T.p) = i /\ alt.k = "none"
         /\ alt' \in Alts(T)
         /\ UNCHANGED <<tr, t, i, pos, absorbed, challenges>>
Next == Observe \/ Sample \/ Alter
Spec == Init /\ [][Next]_vars

\* ---- the ideal verifier on the altered proof: its first event that is not that of the honest run
\* (event number, 0 when no event needs to differ: advice, lengths and parameters are checked instead of absorbed)
Obs == {k \in 1..Len(T.v) : T.v[k].k = "o"}
EndOf(k) == Sum([j \in 1..k |-> IF T.v[j].k = "o" THEN T.v[j].n ELSE 0]) - T.stmt
Diverges == CASE alt.k = "byte" /\ alt.p < pos -> CHOOSE k \in Obs : EndOf(k) > alt.p /\ \A j \in Obs : EndOf(j) > alt.p => j >= k
              [] alt.k \in {"digest", "addpair", "addnone", "value", "mult", "dir", "drop", "split", "chan"} -> 1
              [] OTHER -> 0
\* the challenges the ideal verifier draws: a challenge after the divergence is made from another history
Altered(k) == Diverges > 0 /\ k > Diverges
Verdict == IF alt.k = "none" THEN "acc" ELSE "rej"

\* ---- properties
NotStuck == ENABLED Next \/ alt.k # "none"
TraceConforms == i = Len(T.v) => Beginning(T) /\ Enough(T) /\ T.slices[Len(Observed(T)) + 1] = "" /\ pos = MsgLen(T) /\ pos <= T.len
\* every challenge is drawn after all messages that precede it in the proof
Bound == \A k \in 1..Len(challenges) : challenges[k] = SubSeq(absorbed, 1, Len(challenges[k])) /\ Len(challenges[k]) > 0
\* messages come first: what is not absorbed is advice, at the end
AdviceLast == i = Len(T.v) => T.advice = T.len - pos
\* changing an absorbed byte changes a challenge: no message follows the last challenge
EveryMessageCounts == alt.k # "none" /\ Diverges > 0 => \E k \in 1..Len(T.v) : T.v[k].k = "s" /\ Altered(k)
DistinctStatements == \A a, b \in 1..Len(tr) : a # b => tr[a].shash # tr[b].shash
OnlyTheHonestProof == Verdict = "acc" <=> alt.k = "none"
Emit == alt.k # "none" => PrintT(ToJson([t |-> T.case, alt |-> alt, div |-> Diverges, other |-> IF alt.k = "system" THEN tr[alt.o].case ELSE 0]))
============================================================================
