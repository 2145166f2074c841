------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* The Merkle tree vector commitment with an ideal (symbolic) hash: a digest *)
(* is the term that produced it.  A prover commits to a vector; openings,    *)
(* layers and full vectors are then presented to the verifier, either as the *)
(* prover made them or altered in some way, and the verifier's verdict is    *)
(* the recomputation of the term.  Binding is checked as an invariant of the *)
(* specification; every terminal state is replayed in the real code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS LogLens, Batches, DataKinds, MaxTampers

VARIABLES phase, n, batch, kind, data, what, q, tampers, verdict
vars == <<phase, n, batch, kind, data, what, q, tampers, verdict>>

Leaf(vals) == <<"L", vals>>
Node(l, r) == <<"N", l, r>>
Junk(k) == <<"J", k>>

Elem(k, i) == CASE k = "distinct" -> i [] k = "equal" -> 7 [] k = "pairs" -> i \div (2 * batch)
DataOf(k) == [i \in 1..(2^n * batch) |-> Elem(k, i - 1)]
LeafAt(d, b, i) == Leaf(SubSeq(d, i * b + 1, (i + 1) * b))      \* i from 0
RECURSIVE LayerUp(_)
LayerUp(s) == [i \in 1..(Len(s) \div 2) |-> Node(s[2*i - 1], s[2*i])]
RECURSIVE LayerAt(_, _)
LayerAt(s, d) == IF Len(s) <= 2^d THEN s ELSE LayerAt(LayerUp(s), d)
Leaves(d, b) == [i \in 1..(Len(d) \div b) |-> LeafAt(d, b, i - 1)]
RootOf(s) == LayerAt(s, 0)[1]
Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Branch(i, d) == \* from the leaf up to (excluding) layer d
  [j \in 1..(n - d) |-> LayerAt(Leaves(data, batch), n - j + 1)[Sib(i \div 2^(j-1)) + 1]]

RECURSIVE Climb(_, _, _)
Climb(t, i, br) == IF br = <<>> THEN <<t, i>>
  ELSE Climb(IF i % 2 = 0 THEN Node(t, br[1]) ELSE Node(br[1], t), i \div 2, Tail(br))

\* the verifier's opening check on a query record
OpeningOk(x) ==
  /\ Len(x.layer) = 2^x.ld
  /\ x.index < 2^x.td
  /\ x.td >= x.ld
  /\ Len(x.branch) >= x.td - x.ld
  /\ LET c == Climb(Leaf(x.values), x.index, SubSeq(x.branch, 1, x.td - x.ld))
     IN  c[1] = x.layer[c[2] + 1]
LayerOk(x) == Len(x.layer) = 2^x.ld /\ RootOf(x.layer) = x.root
IsPow2(m) == \E k \in 0..8 : m = 2^k
VectorOk(x) == /\ x.batch > 0 /\ Len(x.data) > 0 /\ Len(x.data) % x.batch = 0
               /\ IsPow2(Len(x.data) \div x.batch)
               /\ RootOf(Leaves(x.data, x.batch)) = x.root

Init == /\ phase = "commit" /\ n \in LogLens /\ batch \in Batches /\ kind \in DataKinds
        /\ data = DataOf(kind) /\ what = "none" /\ q = <<>> /\ tampers = <<>> /\ verdict = "open"

Honest == \* what an honest prover presents
  {[w |-> "opening", x |-> [index |-> i, values |-> SubSeq(data, i * batch + 1, (i + 1) * batch),
                            ld |-> d, td |-> n, layer |-> LayerAt(Leaves(data, batch), d),
                            branch |-> Branch(i, d)]] : i \in 0..(2^n - 1), d \in 0..n}
  \cup {[w |-> "layer", x |-> [ld |-> d, layer |-> LayerAt(Leaves(data, batch), d),
                               root |-> RootOf(Leaves(data, batch))]] : d \in 0..n}
  \cup {[w |-> "vector", x |-> [data |-> data, batch |-> batch, root |-> RootOf(Leaves(data, batch))]]}

Present == phase = "commit" /\ \E h \in Honest : what' = h.w /\ q' = h.x
           /\ phase' = "tamper" /\ UNCHANGED <<n, batch, kind, data, tampers, verdict>>

SwapAt(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
\* alterations: <<description, altered query>>
OpeningTampers(x) ==
  {[t |-> <<"index", i>>, x |-> [x EXCEPT !.index = i]] : i \in (0..2^n) \ {x.index}}
  \cup {[t |-> <<"value", p>>, x |-> [x EXCEPT !.values[p] = @ + 100]] : p \in 1..Len(x.values)}
  \cup {[t |-> <<"valdrop">>, x |-> [x EXCEPT !.values = SubSeq(@, 1, Len(@) - 1)]]}
  \cup {[t |-> <<"valadd">>, x |-> [x EXCEPT !.values = Append(@, 0)]]}
  \cup {[t |-> <<"valswap", p>>, x |-> [x EXCEPT !.values = SwapAt(@, 1, p)]] : p \in 2..Len(x.values)}
  \cup {[t |-> <<"branch", p>>, x |-> [x EXCEPT !.branch[p] = Junk(1)]] : p \in 1..Len(x.branch)}
  \cup {[t |-> <<"brswap", p>>, x |-> [x EXCEPT !.branch = SwapAt(@, p, p + 1)]] : p \in 1..(Len(x.branch) - 1)}
  \cup (IF x.branch = <<>> THEN {} ELSE {[t |-> <<"brdrop">>, x |-> [x EXCEPT !.branch = SubSeq(@, 1, Len(@) - 1)]]})
  \cup {[t |-> <<"layer", p>>, x |-> [x EXCEPT !.layer[p] = Junk(2)]] : p \in 1..Len(x.layer)}
  \cup {[t |-> <<"layswap", p>>, x |-> [x EXCEPT !.layer = SwapAt(@, p, p + 1)]] : p \in 1..(Len(x.layer) - 1)}
  \cup {[t |-> <<"laydrop">>, x |-> [x EXCEPT !.layer = SubSeq(@, 1, Len(@) - 1)]]}
  \cup {[t |-> <<"layadd">>, x |-> [x EXCEPT !.layer = Append(@, Junk(3))]]}
  \cup {[t |-> <<"laydepth", d>>, x |-> [x EXCEPT !.layer = LayerAt(Leaves(data, batch), d)]] : d \in (0..n) \ {x.ld}}
  \cup {[t |-> <<"depth">>, x |-> [x EXCEPT !.td = @ + 1, !.branch = Append(@, Junk(4))]]}
\* digests in a proof that opens k indices against layer d
ProofDigests(k, d) == k * (n - d) + 2^d
LayerTampers(x) ==
  {[t |-> <<"laydepth", d>>, x |-> [x EXCEPT !.layer = LayerAt(Leaves(data, batch), d)]] : d \in (0..n) \ {x.ld}} \cup
  {[t |-> <<"layer", p>>, x |-> [x EXCEPT !.layer[p] = Junk(2)]] : p \in 1..Len(x.layer)}
  \cup {[t |-> <<"layswap", p>>, x |-> [x EXCEPT !.layer = SwapAt(@, p, p + 1)]] : p \in 1..(Len(x.layer) - 1)}
  \cup {[t |-> <<"laydrop">>, x |-> [x EXCEPT !.layer = SubSeq(@, 1, Len(@) - 1)]]}
  \cup {[t |-> <<"laydouble">>, x |-> [x EXCEPT !.layer = @ \o @]]}
  \cup {[t |-> <<"root">>, x |-> [x EXCEPT !.root = Junk(5)]]}
VectorTampers(x) ==
  {[t |-> <<"value", p>>, x |-> [x EXCEPT !.data[p] = @ + 100]] : p \in 1..Len(x.data)}
  \cup {[t |-> <<"valswap", p>>, x |-> [x EXCEPT !.data = SwapAt(@, p, p + 1)]] : p \in 1..(Len(x.data) - 1)}
  \cup {[t |-> <<"valdrop">>, x |-> [x EXCEPT !.data = SubSeq(@, 1, Len(@) - x.batch)]]}
  \cup {[t |-> <<"valdouble">>, x |-> [x EXCEPT !.data = @ \o @]]}
  \cup {[t |-> <<"batch">>, x |-> [x EXCEPT !.batch = 2 * @]]}
  \cup {[t |-> <<"root">>, x |-> [x EXCEPT !.root = Junk(5)]]}

Tamper == phase = "tamper" /\ Len(tampers) < MaxTampers
  /\ \E a \in (CASE what = "opening" -> OpeningTampers(q) [] what = "layer" -> LayerTampers(q)
                 [] what = "vector" -> VectorTampers(q)) :
       q' = a.x /\ tampers' = Append(tampers, a.t)
  /\ UNCHANGED <<phase, n, batch, kind, data, what, verdict>>

Verify == phase = "tamper"
  /\ verdict' = (IF (CASE what = "opening" -> OpeningOk(q) [] what = "layer" -> LayerOk(q)
                       [] what = "vector" -> VectorOk(q)) THEN "accept" ELSE "reject")
  /\ phase' = "done"
  /\ UNCHANGED <<n, batch, kind, data, what, q, tampers>>

Next == Present \/ Tamper \/ Verify
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Complete == Done /\ tampers = <<>> => verdict = "accept"
\* an accepted opening against a true layer shows the committed values at that index
Binding == Done /\ verdict = "accept" =>
  CASE what = "opening" ->
         q.layer = LayerAt(Leaves(data, batch), q.ld) /\ q.td = n =>
           q.values = SubSeq(data, q.index * batch + 1, (q.index + 1) * batch)
    [] what = "layer" -> q.root = RootOf(Leaves(data, batch)) => q.layer = LayerAt(Leaves(data, batch), q.ld)
    [] what = "vector" -> q.root = RootOf(Leaves(data, batch)) => q.data = data
SizeOk == Done /\ tampers = <<>> /\ what = "opening" => ProofDigests(1, q.ld) = Len(q.branch) + Len(q.layer)
Emit == Done => PrintT(ToJson([n |-> n, batch |-> batch, kind |-> kind, data |-> data, what |-> what,
                               q |-> q, tampers |-> tampers, verdict |-> verdict,
                               sizes |-> IF what = "opening" THEN [k \in 1..3 |-> ProofDigests(k, q.ld)] ELSE <<>>]))
============================================================================
