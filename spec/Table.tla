------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* Tables of the arithmetisation (M3): a table has rows; a column holds a    *)
(* cell of V values of a field per row; derived columns are defined row by   *)
(* row.  A table of n rows is stored with 2^ceil(log n) rows, and the rows   *)
(* from n on repeat rows of the table.  A behaviour chooses a system, sizes  *)
(* and row contents, splits the rows into segments in some way, fills, and   *)
(* then changes at most one cell.  The witness is valid when constraints     *)
(* and definitions hold on every stored row and channels balance over the    *)
(* rows below n.                                                             *)
(***************************************************************************)
EXTENDS Virtual, Json, TLC
CONSTANTS Systems,   \* sequence of [sy |-> [tabs, cols, cons, nz, fl, nch], sizes |-> set of size vectors]
          Kinds, Seeds, MaxCells, Segments
VARIABLES st, sy, sizes, seed, seg, wit, bounds, dev
vars == <<st, sy, sizes, seed, seg, wit, bounds, dev>>

CLog2(n) == CHOOSE k \in 0..20 : 2^k >= n /\ \A j \in 0..20 : 2^j >= n => k <= j
Cap(n) == IF n = 0 THEN 0 ELSE 2^CLog2(n)
FV(f, x) == CASE f = 0 -> x % 2 [] f = 3 -> x % 256 [] OTHER -> x
V(c) == 2^c.v
\* ---- the event a stored row is filled from: segments of 2^s rows; the rows of the last segment that are beyond the table repeat its
\* last row, and the segments after it repeat it as a whole
EventOf(n, s, r) == LET S == 2^s  last == (n - 1) \div S  j == r \div S IN
   IF j < last THEN r ELSE LET e == last * S + (r % S) IN IF e < n THEN e ELSE n - 1
\* ---- a derived cell, from the cells of the same row
Block(x, b) == (x \div 2^b) * 2^b
Cell(S, i, row, cells, sd) == LET c == S.cols[i] IN
  CASE c.k = "com" -> (CASE c.g.k = "rand" -> [x \in 1..V(c) |-> FV(c.f, RandVal(sd * 41 + i, row * V(c) + x))]
                         [] c.g.k = "row" -> [x \in 1..V(c) |-> FV(c.f, row \div c.g.d)]
                         [] c.g.k = "nz" -> [x \in 1..V(c) |-> LET v == FV(c.f, RandVal(sd * 41 + i, row * V(c) + x)) IN IF v = 0 THEN 1 ELSE v]
                         [] c.g.k = "comp" -> [x \in 1..V(c) |-> CompEval(c.g.c, [k \in 1..Len(c.g.in) |-> cells[c.g.in[k]][x]])])
    [] c.k = "shift" -> LET in == cells[c.id]  B == 2^c.b IN
         [x \in 1..V(c) |-> LET p == (x - 1) % B  base == (x - 1) - p IN
            CASE c.var = "circ" -> in[base + ((p - c.o + B) % B) + 1]
              [] c.var = "left" -> IF p >= c.o THEN in[base + p - c.o + 1] ELSE 0
              [] c.var = "right" -> IF p + c.o < B THEN in[base + p + c.o + 1] ELSE 0]
    [] c.k = "pack" -> LET in == cells[c.id]  w == 2^(S.cols[c.id].f)  d == Len(in) \div V(c) IN
         [x \in 1..V(c) |-> SumSeq([k \in 1..d |-> in[(x - 1) * d + k] * 2^((k - 1) * w)])]
    [] c.k = "calc" -> [x \in 1..V(c) |-> CompEval(c.c, [k \in 1..Len(c.in) |-> cells[c.in[k]][x]])]
    [] c.k = "sel" -> <<cells[c.id][c.idx + 1]>>
    [] c.k = "blk" -> SubSeq(cells[c.id], c.idx * V(c) + 1, (c.idx + 1) * V(c))
    [] c.k = "zp" -> LET in == cells[c.id] IN
         [x \in 1..V(c) |-> IF (x - 1) \div Len(in) = c.idx THEN in[((x - 1) % Len(in)) + 1] ELSE 0]
    [] c.k = "const" -> c.vals
    [] c.k = "inc" -> <<row>>
    [] c.k = "fixed" -> <<CompEval(c.c, [k \in 1..c.n |-> (row \div 2^(k - 1)) % 2])>>
RowCells(S, t, row, sd) == FoldLeft(LAMBDA acc, j : Append(acc, IF S.cols[j + 1].tab = t THEN Cell(S, j + 1, row, acc, sd) ELSE <<>>), <<>>, Range0(Len(S.cols)))
Rows(S, z, sd) == [t \in 1..Len(S.tabs) |-> [r \in 1..z[t] |-> RowCells(S, t, r - 1, sd)]]
\* a column of the filled table
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Fill(S, z, sd, s) == LET rows == TLCEval(Rows(S, z, sd)) IN
  [i \in 1..Len(S.cols) |-> LET t == S.cols[i].tab IN Flat([r \in 1..Cap(z[t]) |-> rows[t][EventOf(z[t], s, r - 1) + 1][i]])]
CellAt(S, w, i, r) == SubSeq(w[i], r * V(S.cols[i]) + 1, (r + 1) * V(S.cols[i]))
Derived(c) == c.k # "com"
\* definitions hold on all stored rows
DefsOK(S, z, w) == \A t \in 1..Len(S.tabs) : \A r \in 0..(Cap(z[t]) - 1) :
   LET cells == TLCEval([i \in 1..Len(S.cols) |-> IF S.cols[i].tab = t THEN CellAt(S, w, i, r) ELSE <<>>]) IN
   \A i \in 1..Len(S.cols) : S.cols[i].tab = t /\ Derived(S.cols[i]) => cells[i] = Cell(S, i, r, cells, 0)
ZeroOK(S, z, w) == \A q \in 1..Len(S.cons) : LET c == S.cons[q] IN
   \A x \in 1..(Cap(z[c.tab]) * 2^c.v) : CompEval(c.c, [k \in 1..Len(c.in) |-> w[c.in[k]][x]]) = 0
NzOK(S, w) == \A k \in 1..Len(S.nz) : \A x \in 1..Len(w[S.nz[k]]) : w[S.nz[k]][x] # 0
SizeOK(S, z) == \A t \in 1..Len(z) : CASE S.tabs[t].k = "arb" -> TRUE [] S.tabs[t].k = "po2" -> z[t] = Cap(z[t]) /\ z[t] > 0 [] S.tabs[t].k = "fix" -> z[t] = 2^S.tabs[t].log
\* ---- channels
Sgn(dir) == IF dir = "push" THEN 1 ELSE -1
FlushAll(S, z, w, ch) == FoldLeft(LAMBDA acc, f : IF f.ch # ch THEN acc ELSE
     LET m == z[f.tab] * 2^f.v
         rows == SelectSeq([x \in 1..m |-> x], LAMBDA x : \A k \in 1..Len(f.sel) : w[f.sel[k]][x] # 0)
     IN acc \o [k \in 1..Len(rows) |-> [v |-> [j \in 1..Len(f.cols) |-> w[f.cols[j]][rows[k]]], m |-> Sgn(f.dir) * f.mult]], <<>>, S.fl)
BoundSeq(bs, ch) == LET own == SelectSeq(bs, LAMBDA b : b.ch = ch) IN [k \in 1..Len(own) |-> [v |-> own[k].v, m |-> Sgn(own[k].dir) * own[k].mult]]
Net(es, v) == FoldLeft(LAMBDA a, e : a + IF e.v = v THEN e.m ELSE 0, 0, es)
Values(es) == {es[k].v : k \in 1..Len(es)}
Balance(S, z, w, bs) == \A ch \in 1..S.nch : LET es == FlushAll(S, z, w, ch) \o BoundSeq(bs, ch) IN \A v \in Values(es) : Net(es, v) = 0
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET v == CHOOSE v \in s : TRUE IN <<v>> \o SetSeq(s \ {v})
AutoBounds(S, z, w) == FoldLeft(LAMBDA acc, c : LET ch == c + 1  es == FlushAll(S, z, w, ch)
                                                  un == SetSeq({v \in Values(es) : Net(es, v) # 0}) IN
     acc \o [k \in 1..Len(un) |-> LET n == Net(es, un[k]) IN [ch |-> ch, v |-> un[k], dir |-> IF n > 0 THEN "pull" ELSE "push", mult |-> IF n > 0 THEN n ELSE -n]],
     <<>>, Range0(S.nch))
Valid(S, z, w, bs) == SizeOK(S, z) /\ DefsOK(S, z, w) /\ ZeroOK(S, z, w) /\ NzOK(S, w) /\ Balance(S, z, w, bs)

\* ---- behaviours
Init == /\ st = "start"
        /\ \E i \in 1..Len(Systems) : sy = Systems[i].sy /\ sizes \in Systems[i].sizes
        /\ seed \in Seeds /\ seg \in Segments
        /\ wit = <<>> /\ bounds = <<>> /\ dev = [k |-> "none", i |-> 0, x |-> 0]
FillAll == /\ st = "start"
           /\ st' = "filled"
           /\ LET w == Fill(sy, sizes, seed, seg) IN wit' = w /\ bounds' = AutoBounds(sy, sizes, w)
           /\ UNCHANGED <<sy, sizes, seed, seg, dev>>
Bump(f, v) == IF f = 0 THEN 1 - v ELSE IF f = 3 THEN (v + 29) % 256 ELSE (v + 29) % 65536
SomeCells(n, i) == IF n <= MaxCells THEN 1..n ELSE {1, n, (n \div 2) + 1} \cup {(RandVal(i, k) % n) + 1 : k \in 1..(MaxCells - 3)}
Nothing == /\ st = "filled" /\ "none" \in Kinds
           /\ st' = "done" /\ UNCHANGED <<sy, sizes, seed, seg, wit, bounds, dev>>
Alter == /\ st = "filled" /\ "cell" \in Kinds /\ seg = 0
         /\ st' = "done"
         /\ \E i \in {j \in 1..Len(sy.cols) : sy.cols[j].k # "pack"} : \E x \in SomeCells(Len(wit[i]), i) :
              /\ wit' = [wit EXCEPT ![i][x] = Bump(sy.cols[i].f, @)]
              /\ dev' = [k |-> "cell", i |-> i, x |-> x]
         /\ UNCHANGED <<sy, sizes, seed, seg, bounds>>
\* a packed column is the same memory as the column it packs
Fixed == TLCEval([i \in 1..Len(sy.cols) |-> IF sy.cols[i].k = "pack" THEN LET c == sy.cols[i]  in == wit[c.id]  w == 2^(sy.cols[c.id].f)  d == 2^(sy.cols[c.id].v - c.v)
            IN [x \in 1..(Len(in) \div d) |-> SumSeq([k \in 1..d |-> in[(x - 1) * d + k] * 2^((k - 1) * w)])] ELSE wit[i]])
Next == FillAll \/ Nothing \/ Alter
Spec == Init /\ [][Next]_vars
\* what the committed columns say: the others are what they are defined to be, whatever the prover is told (computed columns of higher degree are committed)
Committed(c) == c.k = "com" \/ (c.k = "calc" /\ CompDegree(c.c) > 1)
Implied(S, z, w) == LET cells(t, r) == FoldLeft(LAMBDA acc, j : LET i == j + 1 IN Append(acc, IF S.cols[i].tab # t THEN <<>> ELSE IF Committed(S.cols[i]) THEN CellAt(S, w, i, r) ELSE Cell(S, i, r, acc, 0)), <<>>, Range0(Len(S.cols)))
      rows == TLCEval([t \in 1..Len(S.tabs) |-> [r \in 1..Cap(z[t]) |-> cells(t, r - 1)]])
  IN TLCEval([i \in 1..Len(S.cols) |-> LET t == S.cols[i].tab IN Flat([r \in 1..Cap(z[t]) |-> rows[t][r][i]])])
ProofVerdict == IF Valid(sy, sizes, Fixed, bounds) THEN "acc" ELSE IF Valid(sy, sizes, Implied(sy, sizes, Fixed), bounds) THEN "any" ELSE "rej"
Verdict == IF Valid(sy, sizes, Fixed, bounds) THEN "acc" ELSE "rej"

\* ---- properties
HonestIsValid == st = "done" /\ dev.k = "none" => Valid(sy, sizes, wit, bounds)
\* stored rows repeat rows of the table, and the first ones are the rows themselves
RowsInOrder == st = "filled" => \A t \in 1..Len(sizes) : \A r \in 0..(Cap(sizes[t]) - 1) : LET e == EventOf(sizes[t], seg, r) IN e \in 0..(sizes[t] - 1) /\ (r < sizes[t] => e = r)
\* segments make no difference to the rows of the table
SegmentsAgree == st = "filled" /\ seg > 0 => LET w0 == Fill(sy, sizes, seed, 0) IN
   \A i \in 1..Len(sy.cols) : LET n == sizes[sy.cols[i].tab] * V(sy.cols[i]) IN SubSeq(wit[i], 1, n) = SubSeq(w0[i], 1, n)
\* row by row, or as polynomials over all rows: the same derived columns
AsPolynomials == st = "filled" => \A i \in 1..Len(sy.cols) : LET c == sy.cols[i] IN Len(wit[i]) > 0 =>
   CASE c.k = "shift" -> wit[i] = NodeTable(<<[t |-> "com", n |-> 0, kind |-> "b16"], [t |-> "shift", id |-> 1, o |-> c.o, b |-> c.b, var |-> c.var]>>, 2, <<wit[c.id]>>, 0)
     [] c.k = "zp" -> wit[i] = NodeTable(<<[t |-> "com", n |-> 0, kind |-> "b16"], [t |-> "zp", id |-> 1, d |-> c.v - sy.cols[c.id].v, nz |-> c.idx, s |-> sy.cols[c.id].v]>>, 2, <<wit[c.id]>>, 0)
     [] OTHER -> TRUE
Emit == st = "done" => PrintT(ToJson([sy |-> sy, sizes |-> sizes, seg |-> seg, wit |-> wit, bounds |-> bounds, dev |-> dev, want |-> Verdict, proof |-> ProofVerdict]))
============================================================================
