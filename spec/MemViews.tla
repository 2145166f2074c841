------------------------------ MODULE MemViews ------------------------------
(***************************************************************************)
(* Views of one block of memory.  The memory is a sequence of cells; a view is *)
(* an interval of them.  Views live in frames: an operation that consumes a    *)
(* view replaces it, in its frame, by the views it yields (split, halves,       *)
(* chunks); an operation that borrows a view opens a new frame over it, and the  *)
(* borrowed view is usable again when that frame ends.  Reading a view gives the  *)
(* cells of its interval, writing changes just those cells, whichever way the view *)
(* came about.  Bounds are multiples of the alignment W of the memory, except that  *)
(* halving may go below it.  An operation that names cells outside its view is       *)
(* refused, ends the history, and leaves every cell as it was.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Jobs
VARIABLES j, mem, fr, hist, stop
vars == <<j, mem, fr, hist, stop>>

Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
Q == Jobs[j]
W == Q.w
Size == Q.blocks * W
Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
Aligned(n) == { i \in 0..n : i % W = 0 }
View(o, n) == [o |-> o, n |-> n]
Cells(m, v) == [i \in 1..v.n |-> m[v.o + i]]
Top == fr[Len(fr)]
See(m, f) == [k \in 1..Len(f) |-> Cells(m, f[k])]

Op(o, k, a, b, f) == [o |-> o, k |-> k, a |-> a, b |-> b, f |-> f]

\* ---- operations on view k of the top frame, by category ----
Forms(a, b, n) == {"ab"} \cup (IF a = 0 THEN {"to"} ELSE {"excl"}) \cup (IF b = n THEN {"from"} ELSE {}) \cup (IF b > a THEN {"incl"} ELSE {}) \cup (IF a = 0 /\ b = n THEN {"full"} ELSE {})
Writes(k) == LET n == Top[k].n IN IF n = 0 THEN {} ELSE {Op("write", k, i, 0, "") : i \in {0, n - 1, n \div 2, n \div 3}} \cup {Op("fill", k, 0, 0, "")}
Splits(k) == LET n == Top[k].n
             IN (IF n >= W \/ n = 0 THEN {Op("split", k, m, 0, "") : m \in Aligned(n)} ELSE {})
                \cup (IF n > 1 /\ Pow2(n) THEN {Op("half", k, 0, 0, "")} ELSE {})
                \cup {Op("chunks", k, c, 0, "") : c \in {d \in 1..n : n % d = 0 /\ n \div d <= 8 /\ (d % W = 0 \/ d = n)}}
                \cup {Op("narrow", k, 0, 0, "")}
(* A view of a part of one aligned block that does not start the block: borrowing it is kept apart, see known_findings.json. *)
Lanes(k) == Top[k].n > 0 /\ Top[k].n < W /\ Top[k].o % W # 0
Borrows(k) == LET n == Top[k].n
              IN (IF n >= W \/ n = 0 THEN UNION { {Op("slice", k, a, b, f) : f \in Forms(a, b, n)} : <<a, b>> \in {p \in Aligned(n) \X Aligned(n) : p[1] <= p[2]} } ELSE {})
                 \cup (IF Lanes(k) /\ ~ (Q.all \/ Q.lane) THEN {} ELSE {Op("slice", k, 0, n, "full"), Op("owned", k, 0, 0, "")}
                       \cup (IF n > 0 THEN {Op("pow2", k, m, 0, "") : m \in {p \in 1..(2 * n) : Pow2(p)}} ELSE {}))
                 \cup (IF n >= W THEN {Op("bsplit", k, m, 0, "") : m \in Aligned(n)} ELSE {})
Consts(k) == {Op("look", k, s, 0, "") : s \in 1..4} \cup (IF Len(Top) > 1 THEN {Op("toconst", k, 0, 0, "")} ELSE {})
Bads(k) == LET n == Top[k].n
           IN IF n < W THEN (IF n = 1 THEN {Op("half", k, 0, 0, "bad"), Op("lookhalf", k, 0, 0, "bad")} ELSE {})
              ELSE {Op("split", k, n + W, 0, "bad"), Op("slice", k, 0, n + W, "bad"), Op("slice", k, n + W, n + 2 * W, "bad"), Op("bsplit", k, n + W, 0, "bad"), Op("lookslice", k, 0, n + W, "bad")}
                   \cup {Op("slice", k, 0, n * W, "bad") : w \in IF W > 1 THEN {1} ELSE {}} \cup {Op("lookslice", k, 0, n * W, "bad") : w \in IF W > 1 THEN {1} ELSE {}}
                   \cup (IF n >= W THEN {Op("slice", k, W, 0, "bad"), Op("lookslice", k, W, 0, "bad")} ELSE {})
                   \cup (IF ~ Pow2(n) THEN {Op("half", k, 0, 0, "bad"), Op("lookhalf", k, 0, 0, "bad")} ELSE {})
                   \cup {Op(o, k, d, 0, "bad") : o \in {"chunks", "lookchunks"}, d \in {c \in Aligned(n) : c > 0 /\ n % c # 0}}
Over(C(_)) == UNION {C(k) : k \in 1..Len(Top)}
Leaves == IF Len(fr) > 1 THEN {Op("leave", 1, 0, 0, f) : f \in {"fwd", "rev"}} ELSE {}
Every == Over(Writes) \cup Over(Splits) \cup Over(Borrows) \cup Over(Consts) \cup Over(Bads) \cup Leaves

\* ---- looking through a chain of constant views ----
Look(v, s, i) == \* one link of the chain
  LET r == H(s * 31 + i, 5)
      al == {p \in Aligned(v.n) \X Aligned(v.n) : p[1] <= p[2]}
      half == v.n > 1 /\ Pow2(v.n)
      x == SetToSeq(al)[(H(s, i + 9) % Cardinality(al)) + 1]
      fs == SetToSeq(Forms(x[1], x[2], v.n))
      ds == SetToSeq({d \in 1..v.n : v.n % d = 0 /\ (d % W = 0 \/ d = v.n)})
  IN IF v.n = 0 THEN [v |-> v, l |-> [o |-> "narrow", a |-> 0, b |-> 0, f |-> ""]]
     ELSE CASE half /\ (v.n <= W \/ r % 4 = 0) -> [v |-> IF r % 2 = 0 THEN View(v.o, v.n \div 2) ELSE View(v.o + v.n \div 2, v.n \div 2), l |-> [o |-> "half", a |-> r % 2, b |-> 0, f |-> ""]]
            [] r % 4 = 1 /\ v.n >= W -> LET m == x[2] IN [v |-> IF (r \div 8) % 2 = 0 THEN View(v.o, m) ELSE View(v.o + m, v.n - m), l |-> [o |-> "at", a |-> m, b |-> (r \div 8) % 2, f |-> ""]]
            [] r % 4 = 2 /\ v.n >= W -> [v |-> View(v.o + x[1], x[2] - x[1]), l |-> [o |-> "slice", a |-> x[1], b |-> x[2], f |-> fs[(r % Len(fs)) + 1]]]
            [] r % 4 = 3 /\ v.n >= W -> LET d == ds[(r % Len(ds)) + 1] c == (r \div 16) % (v.n \div d) IN [v |-> View(v.o + c * d, d), l |-> [o |-> "chunk", a |-> d, b |-> c, f |-> ""]]
            [] OTHER -> [v |-> v, l |-> [o |-> "narrow", a |-> 0, b |-> 0, f |-> ""]]
Chain(v, s) == FoldLeft(LAMBDA acc, i : LET x == Look(acc.v, s, i) IN [v |-> x.v, ls |-> Append(acc.ls, x.l)], [v |-> v, ls |-> <<>>], [i \in 1..((s % 5) + 1) |-> i])

\* ---- effect ----
Swap(f, k, new) == SubSeq(f, 1, k - 1) \o new \o SubSeq(f, k + 1, Len(f))
Bits(n) == CHOOSE i \in 0..10 : 2 ^ i = n
SplitAt(v, m) == <<View(v.o, m), View(v.o + m, v.n - m)>>
Chunks(v, c) == [i \in 1..(v.n \div c) |-> View(v.o + (i - 1) * c, c)]
Tick == Len(hist) + 1
Paint(t) == Size + t
Put(m, v, i, x) == [m EXCEPT ![v.o + i + 1] = x]
PutAll(m, v, x) == [c \in 1..Len(m) |-> IF c > v.o /\ c <= v.o + v.n THEN x ELSE m[c]]
NewMem(op) == LET v == Top[op.k] IN CASE op.o = "write" -> Put(mem, v, op.a, Paint(Tick)) [] op.o = "fill" -> PutAll(mem, v, Paint(Tick)) [] OTHER -> mem
Below == SubSeq(fr, 1, Len(fr) - 1)
NewFr(op) == LET v == Top[op.k] IN
  CASE op.f = "bad" -> fr
    [] op.o = "split" -> Append(Below, Swap(Top, op.k, SplitAt(v, op.a)))
    [] op.o = "half" -> Append(Below, Swap(Top, op.k, SplitAt(v, v.n \div 2)))
    [] op.o = "chunks" -> Append(Below, Swap(Top, op.k, Chunks(v, op.a)))
    [] op.o = "toconst" -> Append(Below, Swap(Top, op.k, <<>>))
    [] op.o = "slice" -> Append(fr, <<View(v.o + op.a, op.b - op.a)>>)
    [] op.o = "owned" -> Append(fr, <<v>>)
    [] op.o = "pow2" -> Append(fr, <<View(v.o, IF v.n < op.a THEN v.n ELSE op.a)>>)
    [] op.o = "bsplit" -> Append(fr, SplitAt(v, op.a))
    [] op.o = "leave" -> Below
    [] OTHER -> fr
Record(op) ==
  LET v == Top[op.k]
      c == Chain(v, (Q.seed * 7 + Len(hist) * 13 + op.a) % 65537)
      m == NewMem(op)
      f == NewFr(op)
  IN [o |-> op.o, k |-> op.k - 1, a |-> op.a, b |-> op.b, f |-> op.f, x |-> Paint(Tick),
      lane |-> op.o \in {"slice", "owned", "pow2"} /\ Lanes(op.k), see |-> See(m, f[Len(f)])]
     @@ (IF op.o = "look" THEN [chain |-> c.ls, got |-> Cells(mem, c.v)] ELSE IF op.o = "toconst" THEN [got |-> Cells(mem, v)] ELSE <<>>)

Pick(S, r) == LET q == SetToSeq(S) IN q[(r % Len(q)) + 1]
Drawn ==
  LET s == (Q.seed * 37 + Tick * 101) % 65537
      r == H(s, 1) % 20
      S == CASE r < 6 -> Over(Writes) [] r < 10 -> Over(Splits) [] r < 14 -> Over(Borrows) [] r < 16 -> Over(Consts)
             [] r < 19 -> Leaves [] OTHER -> IF Tick = Q.depth THEN Over(Bads) ELSE Over(Writes)
      T == IF S # {} THEN S ELSE IF Over(Writes) # {} THEN Over(Writes) ELSE Over(Borrows)
      U == IF Tick = Q.depth /\ H(s, 2) % 2 = 0 /\ Over(Bads) # {} THEN Over(Bads) ELSE T
  IN {Pick(U, H(s, 3))}
Report == [w |-> Q.w, blocks |-> Q.blocks, hist |-> hist, mem |-> mem, lane |-> \E i \in 1..Len(hist) : hist[i].lane]
Init ==
  /\ j \in 1..Len(Jobs)
  /\ mem = [i \in 1..(Jobs[j].blocks * Jobs[j].w) |-> i]
  /\ fr = <<<<View(0, Jobs[j].blocks * Jobs[j].w)>>>>
  /\ hist = <<>>
  /\ stop = 0
Go ==
  /\ stop = 0
  /\ Len(hist) < Q.depth
  /\ Len(Top) > 0
  /\ \E op \in (IF Q.all THEN Every ELSE Drawn) :
       /\ hist' = Append(hist, Record(op))
       /\ mem' = NewMem(op)
       /\ fr' = NewFr(op)
       /\ stop' = (IF op.f = "bad" THEN 1 ELSE 0)
       /\ j' = j
Ended == stop = 1 \/ Len(hist) = Q.depth \/ Len(Top) = 0
Emit ==
  /\ PrintT(ToJson(Report))
  /\ stop' = 2
  /\ UNCHANGED <<j, mem, fr, hist>>
Next == IF stop = 2 THEN FALSE ELSE IF Ended THEN Emit ELSE Go
Spec == Init /\ [][Next]_vars
(* Views of one frame never share a cell, and lie inside the view they were taken from. *)
Apart == \A f \in 1..Len(fr) : \A a, b \in 1..Len(fr[f]) : a < b => fr[f][a].o + fr[f][a].n <= fr[f][b].o
Inside == \A f \in 1..Len(fr) : \A a \in 1..Len(fr[f]) : LET v == fr[f][a] IN /\ v.o >= 0 /\ v.n >= 0
            /\ (IF f = 1 THEN v.o + v.n <= Size ELSE \E p \in 1..Len(fr[f - 1]) : LET u == fr[f - 1][p] IN u.o <= v.o /\ v.o + v.n <= u.o + u.n)
=============================================================================
