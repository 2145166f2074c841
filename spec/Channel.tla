------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* One channel: pushes and pulls of tuples with multiplicities, in any       *)
(* order.  It is balanced when every tuple was pushed as often as pulled.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tuples, Mults, Depth
VARIABLES hist, net
vars == <<hist, net>>
Init == hist = <<>> /\ net = [t \in Tuples |-> 0]
Push(t, m) == /\ net' = [net EXCEPT ![t] = @ + m]
              /\ hist' = Append(hist, [ch |-> 1, v |-> t, dir |-> "push", mult |-> m])
Pull(t, m) == /\ net' = [net EXCEPT ![t] = @ - m]
              /\ hist' = Append(hist, [ch |-> 1, v |-> t, dir |-> "pull", mult |-> m])
Next == Len(hist) < Depth /\ \E t \in Tuples, m \in Mults : Push(t, m) \/ Pull(t, m)
Spec == Init /\ [][Next]_vars
Widths == {Len(hist[k].v) : k \in 1..Len(hist)}
Balanced == \A t \in Tuples : net[t] = 0
\* the other way to say it: the multisets of pushes and pulls are equal
RECURSIVE Count(_, _, _)
Count(h, t, d) == IF h = <<>> THEN 0 ELSE (IF Head(h).v = t /\ Head(h).dir = d THEN Head(h).mult ELSE 0) + Count(Tail(h), t, d)
MultisetsEqual == Balanced <=> \A t \in Tuples : Count(hist, t, "push") = Count(hist, t, "pull")
OneIsNever == Len(hist) = 1 /\ hist[1].mult > 0 => ~Balanced
Emit == PrintT(ToJson([bounds |-> hist, balanced |-> Balanced, mixed |-> Cardinality(Widths) > 1]))
============================================================================
