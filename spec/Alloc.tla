------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* A bump allocator over a block of memory, with nested scopes.  A request of  *)
(* n elements (a multiple of the alignment W, or a power of two below it) takes *)
(* the next n cells, rounded up to the alignment, or fails for lack of room and  *)
(* changes nothing.  A nested scope hands out the cells its parent has left and   *)
(* gives them back when it ends.  A block is written with its own value; whatever  *)
(* happens afterwards in its scope or in scopes nested in it, its cells keep it.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Jobs
VARIABLES j, mem, sc, hist, out
vars == <<j, mem, sc, hist, out>>
Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
Q == Jobs[j]
W == Q.w
Size == Q.blocks * W
Up(n) == ((n + W - 1) \div W) * W
Top == sc[Len(sc)]         \* [o: first free cell, blocks: Seq of [o, n]]
Left(s) == Size - s.o
Sizes == {n \in 0..(Size + W) : n % W = 0 \/ (n < W /\ n \in {1, 2, 4, 8, 16, 32})}
Ops == {[o |-> "alloc", n |-> n, t |-> 0] : n \in Sizes} \cup {[o |-> "sub", n |-> 0, t |-> 0]}
       \cup (IF Len(sc) > 1 THEN {[o |-> "end", n |-> 0, t |-> 0]} ELSE {})
       \cup {[o |-> "write", n |-> k, t |-> 0] : k \in {b \in 1..Len(Top.blocks) : Top.blocks[b].n > 0 /\ ~Top.blocks[b].p}}
       \cup {[o |-> "par", n |-> n, t |-> t] : t \in {2, 4, 7}, n \in {m \in Sizes : m > 0 /\ m <= 2 * W}}
Tick == Len(hist) + 1
PutAll(m, v, x) == [c \in 1..Len(m) |-> IF c > v.o /\ c <= v.o + v.n THEN x ELSE m[c]]
Below == SubSeq(sc, 1, Len(sc) - 1)
\* n elements taken t times: the blocks
Take(s, n, t) == LET got == IF n = 0 THEN t ELSE LET room == Left(s) \div Up(n) IN IF room < t THEN room ELSE t
                 IN [i \in 1..got |-> [o |-> s.o + (i - 1) * Up(n), n |-> n, p |-> t > 1]]
Result(op) ==
  LET s == Top
      new == Take(s, op.n, IF op.o = "par" THEN op.t ELSE 1)
      all == FoldLeft(LAMBDA m, b : PutAll(m, b, Size + Tick), mem, new)
  IN CASE op.o \in {"alloc", "par"} -> [m |-> all, sc |-> Append(Below, [o |-> s.o + Len(new) * Up(op.n), blocks |-> s.blocks \o new]), got |-> Len(new)]
       [] op.o = "write" -> [m |-> PutAll(mem, s.blocks[op.n], Size + Tick), sc |-> sc, got |-> 0]
       [] op.o = "sub" -> [m |-> mem, sc |-> Append(sc, [o |-> s.o, blocks |-> <<>>]), got |-> 0]
       [] OTHER -> [m |-> mem, sc |-> [Below EXCEPT ![Len(Below)].blocks = <<>>], got |-> 0]
See(m, s) == [k \in 1..Len(s.blocks) |-> [i \in 1..s.blocks[k].n |-> m[s.blocks[k].o + i]]]
Record(op, r) == [o |-> op.o, n |-> op.n, t |-> op.t, got |-> r.got, x |-> Size + Tick, cap |-> Left(r.sc[Len(r.sc)]), see |-> See(r.m, r.sc[Len(r.sc)])]
Pick(S, r) == LET q == SetToSeq(S) IN q[(r % Len(q)) + 1]
Drawn == LET s == (Q.seed * 37 + Tick * 101) % 65537
             r == H(s, 1) % 10
             small == {op \in Ops : op.o = "alloc" /\ op.n <= Size \div 3}
             S == CASE r < 4 -> small [] r < 5 -> {op \in Ops : op.o = "alloc"} [] r < 6 -> {op \in Ops : op.o = "write"} [] r < 7 -> {op \in Ops : op.o = "par"}
                    [] r < 9 -> {op \in Ops : op.o = "sub"} [] OTHER -> {op \in Ops : op.o = "end"}
         IN {Pick(IF S = {} THEN small ELSE S, H(s, 3))}
Init ==
  /\ j \in 1..Len(Jobs)
  /\ mem = [i \in 1..(Jobs[j].blocks * Jobs[j].w) |-> i]
  /\ sc = <<[o |-> 0, blocks |-> <<>>]>>
  /\ hist = <<>>
  /\ out = FALSE
Go ==
  /\ Len(hist) < Q.depth
  /\ \E op \in (IF Q.all THEN {o \in Ops : o.o # "par"} ELSE Drawn) : LET r == Result(op) IN
       /\ hist' = Append(hist, Record(op, r))
       /\ mem' = r.m
       /\ sc' = r.sc
       /\ UNCHANGED <<j, out>>
Emit ==
  /\ PrintT(ToJson([w |-> Q.w, blocks |-> Q.blocks, ref |-> Q.seed % 2, hist |-> hist, mem |-> mem]))
  /\ out' = TRUE
  /\ UNCHANGED <<j, mem, sc, hist>>
Next == IF out THEN FALSE ELSE IF Len(hist) = Q.depth THEN Emit ELSE Go
Spec == Init /\ [][Next]_vars
AllBlocks == FoldLeft(LAMBDA acc, s : acc \o s.blocks, <<>>, sc)
Apart == \A a, b \in 1..Len(AllBlocks) : a < b => AllBlocks[a].o + AllBlocks[a].n <= AllBlocks[b].o
Fits == \A a \in 1..Len(AllBlocks) : AllBlocks[a].o + AllBlocks[a].n <= Size /\ AllBlocks[a].o % W = 0
=============================================================================
