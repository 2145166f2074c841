--------------------------- MODULE SumcheckCalls ---------------------------
(***************************************************************************)
(* Call protocol of the round-by-round front-loaded sumcheck verifier: which *)
(* sequences of calls are admissible.  A call out of order is refused.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Shapes, MaxLen
VARIABLES shape, idx, round, mode, calls, results, over
vars == <<shape, idx, round, mode, calls, results, over>>
Init == /\ shape \in Shapes /\ idx = 1 /\ round = 0 /\ mode = "sum" /\ calls = <<>> /\ results = <<>> /\ over = FALSE
Rec(c, r) == calls' = Append(calls, c) /\ results' = Append(results, r) /\ over' = (r = "err" \/ c = "finish") /\ UNCHANGED shape
Left == idx <= Len(shape)
TryFinish == /\ IF Left /\ shape[idx] = round
                THEN IF mode = "sum" THEN Rec("try", "some") /\ idx' = idx + 1 ELSE Rec("try", "err") /\ idx' = idx
                ELSE Rec("try", "none") /\ idx' = idx
             /\ UNCHANGED <<round, mode>>
Receive == /\ IF mode = "coeffs" \/ (Left /\ shape[idx] = round)
              THEN Rec("receive", "err") /\ mode' = mode ELSE Rec("receive", "ok") /\ mode' = "coeffs"
           /\ UNCHANGED <<idx, round>>
FinishRound == /\ IF mode = "coeffs" THEN Rec("round", "ok") /\ mode' = "sum" /\ round' = round + 1
                  ELSE Rec("round", "err") /\ UNCHANGED <<mode, round>>
               /\ UNCHANGED idx
Finish == /\ Rec("finish", IF ~Left /\ mode = "sum" THEN "ok" ELSE "err") /\ UNCHANGED <<idx, round, mode>>
Next == ~over /\ Len(calls) < MaxLen /\ (TryFinish \/ Receive \/ FinishRound \/ Finish)
Spec == Init /\ [][Next]_vars
\* a verifier that finishes has run every round of every claim
FinishedMeansDone == over /\ results[Len(results)] = "ok" =>
   ~Left /\ mode = "sum" /\ \A i \in 1..Len(shape) : shape[i] <= round
Emit == over \/ Len(calls) = MaxLen => PrintT(ToJson([shape |-> shape, calls |-> calls, results |-> results]))
============================================================================
