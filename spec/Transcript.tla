---------------------------- MODULE Transcript -----------------------------
(***************************************************************************)
(* The Fiat-Shamir transcript: prover and verifier transcripts over one proof*)
(* tape, with the hash modelled as an ideal sponge.                          *)
(*                                                                           *)
(* The sponge state is the normal form of the history it absorbed: a sequence*)
(* of <<"A", byte, count>> runs (observed bytes, run-length encoded, so that *)
(* how bytes were split into calls is invisible) and <<"S", n>> items (bytes *)
(* squeezed).  A challenge is named by the sponge state at the last absorb   *)
(* and its offset in the squeezed stream: two challenges of the real code    *)
(* must be equal iff their names are equal.                                  *)
(*                                                                           *)
(* A behaviour is: the prover performs any script of operations; a fault is  *)
(* injected in the tape or in the verifier's statement; the verifier performs*)
(* the same script.  Terminal states are emitted with the predicted outcome. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Depth,       \* number of operations in a script
          Lens,        \* lengths of messages
          Vals,        \* byte values
          SampleKinds, \* set of <<kind, bytes>>
          Modes,       \* call granularities used for writing and reading
          Faults,      \* kinds of fault explored
          Sim          \* simulation: draw one choice at random instead of exploring all

VARIABLES phase, script, tape, sponge, chal, fault, vtape, vsponge, vchal, pc, verdict
vars == <<phase, script, tape, sponge, chal, fault, vtape, vsponge, vchal, pc, verdict>>

Absorb(s, byte, n) ==
  IF s # <<>> /\ s[Len(s)][1] = "A" /\ s[Len(s)][2] = byte
  THEN [s EXCEPT ![Len(s)] = <<"A", byte, @[3] + n>>]
  ELSE Append(s, <<"A", byte, n>>)
RECURSIVE AbsorbRuns(_, _)
AbsorbRuns(s, rs) == IF rs = <<>> THEN s ELSE AbsorbRuns(Absorb(s, rs[1][1], rs[1][2]), Tail(rs))
Squeeze(s, n) ==
  IF s # <<>> /\ s[Len(s)][1] = "S" THEN [s EXCEPT ![Len(s)] = <<"S", @[2] + n>>]
  ELSE Append(s, <<"S", n>>)
\* name of the challenge squeezed next
Name(s, n) ==
  IF s # <<>> /\ s[Len(s)][1] = "S" THEN <<SubSeq(s, 1, Len(s) - 1), s[Len(s)][2], n>>
  ELSE <<s, 0, n>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
MsgOps == [op : {"msg", "obs", "dec"}, len : Lens, val : Vals, wm : Modes, rm : Modes]
SmpOps == [op : {"smp"}, kind : SampleKinds]
Runs(o) == << <<o.val, o.len>> >>

Init == /\ phase = "prove" /\ script = <<>> /\ tape = <<>> /\ sponge = <<>> /\ chal = <<>>
        /\ fault = [k |-> "none", i |-> 0] /\ vtape = <<>> /\ vsponge = <<>> /\ vchal = <<>>
        /\ pc = 1 /\ verdict = "open"

ProverWrite ==
  /\ phase = "prove" /\ Len(script) < Depth
  /\ \E o \in Pick(MsgOps) :
       /\ script' = Append(script, o)
       /\ tape' = IF o.op = "obs" THEN tape ELSE Append(tape, Runs(o))
       /\ sponge' = IF o.op = "dec" THEN sponge ELSE AbsorbRuns(sponge, Runs(o))
  /\ UNCHANGED <<phase, chal, fault, vtape, vsponge, vchal, pc, verdict>>
ProverSample ==
  /\ phase = "prove" /\ Len(script) < Depth
  /\ \E o \in Pick(SmpOps) :
       /\ script' = Append(script, o)
       /\ chal' = Append(chal, Name(sponge, o.kind[2]))
       /\ sponge' = Squeeze(sponge, o.kind[2])
  /\ UNCHANGED <<phase, tape, fault, vtape, vsponge, vchal, pc, verdict>>

\* every script ends with a 16-byte probe of the sponge
ProverFinalize ==
  /\ phase = "prove" /\ Len(script) = Depth
  /\ LET o == [op |-> "smp", kind |-> <<"B128", 16>>] IN
       /\ script' = Append(script, o)
       /\ chal' = Append(chal, Name(sponge, 16))
       /\ sponge' = Squeeze(sponge, 16)
  /\ phase' = "fault"
  /\ UNCHANGED <<tape, fault, vtape, vsponge, vchal, pc, verdict>>

FlipFirst(rs) == IF rs[1][2] = 1 THEN <<<<rs[1][1] + 128, 1>>>>
                 ELSE << <<rs[1][1] + 128, 1>>, <<rs[1][1], rs[1][2] - 1>> >>
FlipLast(rs)  == IF rs[1][2] = 1 THEN <<<<rs[1][1] + 128, 1>>>>
                 ELSE << <<rs[1][1], rs[1][2] - 1>>, <<rs[1][1] + 128, 1>> >>

FaultChoices ==
  {[k |-> "none", i |-> 0]}
  \cup {[k |-> f, i |-> i] : f \in Faults \cap {"flipfirst", "fliplast"}, i \in 1..Len(tape)}
  \cup {[k |-> "obsflip", i |-> i] : i \in {j \in 1..Len(script) : "obsflip" \in Faults /\ script[j].op = "obs"}}
  \cup {[k |-> f, i |-> 0] : f \in Faults \cap {"trunc", "extra"}}
  \cup {[k |-> "skip", i |-> i] : i \in {j \in 1..Len(script) : "skip" \in Faults /\ script[j].op \in {"msg", "dec"}}}

Inject ==
  /\ phase = "fault"
  /\ \E f \in Pick(FaultChoices) :
      /\ f.k = "trunc" => tape # <<>>
      /\ fault' = f
      /\ vtape' = [i \in 1..Len(tape) |->
                     IF f.i = i /\ f.k = "flipfirst" THEN FlipFirst(tape[i])
                     ELSE IF f.i = i /\ f.k = "fliplast" THEN FlipLast(tape[i]) ELSE tape[i]]
  /\ phase' = "verify"
  /\ UNCHANGED <<script, tape, sponge, chal, vsponge, vchal, pc, verdict>>

TapeIdx == Len(SelectSeq(SubSeq(script, 1, pc), LAMBDA o : o.op \in {"msg", "dec"}))

VerifierStep ==
  /\ phase = "verify" /\ pc <= Len(script) /\ verdict = "open"
  /\ LET o == script[pc] IN
     CASE o.op = "smp" ->
            /\ vchal' = Append(vchal, Name(vsponge, o.kind[2]))
            /\ vsponge' = Squeeze(vsponge, o.kind[2])
            /\ UNCHANGED verdict
       [] o.op = "obs" ->
            /\ vsponge' = AbsorbRuns(vsponge, IF fault.k = "obsflip" /\ fault.i = pc
                                              THEN FlipFirst(Runs(o)) ELSE Runs(o))
            /\ UNCHANGED <<vchal, verdict>>
       [] OTHER ->
            IF fault.k = "skip" /\ fault.i = pc THEN UNCHANGED <<vsponge, vchal>> /\ verdict' = "desync"
            ELSE IF fault.k = "trunc" /\ TapeIdx = Len(tape)
            THEN verdict' = "short" /\ UNCHANGED <<vsponge, vchal>>
            ELSE /\ vsponge' = IF o.op = "dec" THEN vsponge ELSE AbsorbRuns(vsponge, vtape[TapeIdx])
                 /\ UNCHANGED <<vchal, verdict>>
  /\ pc' = pc + 1
  /\ UNCHANGED <<phase, script, tape, sponge, chal, fault, vtape>>

\* "skip" models a verifier that stops reading: the tape cannot be finalized
VerifierFinalize ==
  /\ phase = "verify" /\ (pc > Len(script) \/ verdict # "open")
  /\ phase' = "done"
  /\ verdict' = IF verdict # "open" THEN verdict ELSE IF fault.k = "extra" THEN "leftover" ELSE "ok"
  /\ UNCHANGED <<script, tape, sponge, chal, fault, vtape, vsponge, vchal, pc>>

Next == ProverWrite \/ ProverSample \/ ProverFinalize \/ Inject \/ VerifierStep \/ VerifierFinalize
Spec == Init /\ [][Next]_vars

(* ---- design properties --------------------------------------------------- *)
Done == phase = "done"
Lockstep == Done /\ fault.k = "none" => vchal = chal /\ verdict = "ok"
AdviceIsNotAbsorbed ==
  Done /\ fault.k \in {"flipfirst", "fliplast"} =>
    LET pos == CHOOSE j \in 1..Len(script) :
                 /\ script[j].op \in {"msg", "dec"}
                 /\ Len(SelectSeq(SubSeq(script, 1, j), LAMBDA o : o.op \in {"msg", "dec"})) = fault.i
    IN  /\ script[pos].op = "dec" => vchal = chal
        \* binding: no challenge after a changed message survives
        /\ script[pos].op = "msg" =>
             \A c \in 1..Len(chal) :
               LET q == CHOOSE j \in 1..Len(script) : script[j].op = "smp"
                          /\ Len(SelectSeq(SubSeq(script, 1, j), LAMBDA o : o.op = "smp")) = c
               IN (vchal[c] = chal[c]) <=> q < pos
StatementBound ==
  Done /\ fault.k = "obsflip" =>
    \A c \in 1..Len(chal) :
       LET q == CHOOSE j \in 1..Len(script) : script[j].op = "smp"
                  /\ Len(SelectSeq(SubSeq(script, 1, j), LAMBDA o : o.op = "smp")) = c
       IN (vchal[c] = chal[c]) <=> q < fault.i

Emit == Done => PrintT(ToJson([script |-> script, fault |-> fault, verdict |-> verdict,
                               chal |-> [i \in 1..Len(chal) |-> ToString(chal[i])],
                               vchal |-> [i \in 1..Len(vchal) |-> ToString(vchal[i])]]))
============================================================================
