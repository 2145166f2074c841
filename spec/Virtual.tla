------------------------------ MODULE Virtual -------------------------------
(***************************************************************************)
(* The definitions of transparent and virtual multilinears: every column is  *)
(* a table over the hypercube, index bit 0 is variable 0.                    *)
(***************************************************************************)
EXTENDS Poly

\* --- transparent columns; t.k names the kind, t.n the variables, t.v a parameter
Pt(seed, n) == [i \in 1..n |-> Chal(seed, 300 + i)]
ShiftTarget(var, b, o, x) == \* row of a block a row moves to; -1 when shifted out
  CASE var = "circ" -> (x + o) % 2^b
    [] var = "left" -> IF x + o < 2^b THEN x + o ELSE -1
    [] var = "right" -> x - o
EqTab(pt) == EqWeights(pt)
RECURSIVE TrTable(_)
TrTable(t) == CASE t.k = "const" -> [x \in 1..2^t.n |-> t.v]
   [] t.k = "powers" -> FPowers(t.v, 2^t.n)
   [] t.k = "stepdown" -> [x \in 1..2^t.n |-> IF x - 1 < t.v THEN 1 ELSE 0]
   [] t.k = "stepup" -> [x \in 1..2^t.n |-> IF x - 1 < t.v THEN 0 ELSE 1]
   [] t.k = "select" -> [x \in 1..2^t.n |-> IF x - 1 = t.v THEN 1 ELSE 0]
   [] t.k = "eq" -> EqTab(Pt(t.v, t.n))
   [] t.k = "tower" -> [x \in 1..2^t.n |-> 2^((x - 1) * 2^t.v)]
   [] t.k = "mle" -> [x \in 1..2^t.n |-> FieldVal(t.kind, RandVal(t.v, x))]
   [] t.k = "shift" -> LET e == EqTab(Pt(t.seed, t.n)) IN
        [x \in 1..2^t.n |-> LET y == ShiftTarget(t.var, t.n, t.v, x - 1) IN IF y < 0 THEN 0 ELSE e[y + 1]]
   [] t.k = "dprod" -> LET a == TrTable(t.a)  b == TrTable(t.b) IN
        [x \in 1..2^(t.a.n + t.b.n) |-> FMul(a[((x - 1) % 2^t.a.n) + 1], b[((x - 1) \div 2^t.a.n) + 1])]

\* --- columns of a graph; g is the sequence of nodes, tabs the tables of the earlier ones
RECURSIVE Lvl(_, _)
Lvl(g, i) == CASE g[i].t = "com" -> (CASE g[i].kind = "b1" -> 0 [] g[i].kind = "b8" -> 3 [] OTHER -> 4)
    [] g[i].t = "pack" -> Lvl(g, g[i].id) + g[i].d
    [] g[i].t \in {"rep", "shift", "proj", "zp"} -> Lvl(g, g[i].id)
    [] OTHER -> 4
Log2(n) == CHOOSE k \in 0..16 : 2^k = n
\* insert, at bit position s of x, the d bits of v
InsertBits(x, s, d, v) == ((x % 2^s) + v * 2^s) + (x \div 2^s) * 2^(s + d)
RemoveBits(x, s, d) == (x % 2^s) + (x \div 2^(s + d)) * 2^s
MidBits(x, s, d) == (x \div 2^s) % 2^d
NodeTable(g, i, tabs, seed) == LET nd == g[i] IN
  CASE nd.t = "com" -> [x \in 1..2^nd.n |-> FieldVal(nd.kind, RandVal(seed * 37 + i, x))]
    [] nd.t = "tr" -> TrTable(nd.p)
    [] nd.t = "st" -> [x \in 1..2^nd.n |-> CompEval(nd.c, [b \in 1..nd.n |-> Bit(x - 1, b - 1)])]
    [] nd.t = "rep" -> LET in == tabs[nd.id] IN [x \in 1..(Len(in) * 2^nd.d) |-> in[((x - 1) % Len(in)) + 1]]
    [] nd.t = "proj" -> LET in == tabs[nd.id]  vs == Pt(nd.seed, nd.d)  w == EqWeights(vs) IN
         [x \in 1..(Len(in) \div 2^nd.d) |-> FSum([v \in 1..2^nd.d |-> FMul(w[v], in[InsertBits(x - 1, nd.s, nd.d, v - 1) + 1])])]
    [] nd.t = "shift" -> LET in == tabs[nd.id]  b == 2^nd.b IN
         [x \in 1..Len(in) |-> LET base == ((x - 1) \div b) * b
                                   src == {y \in 0..(b - 1) : ShiftTarget(nd.var, nd.b, nd.o, y) = (x - 1) % b}
                               IN IF src = {} THEN 0 ELSE in[base + (CHOOSE y \in src : TRUE) + 1]]
    [] nd.t = "pack" -> LET in == tabs[nd.id]  l == Lvl(g, nd.id) IN
         [x \in 1..(Len(in) \div 2^nd.d) |-> FSum([j \in 1..2^nd.d |-> FMul(in[(x - 1) * 2^nd.d + j], 2^((j - 1) * 2^l))])]
    [] nd.t = "lc" -> [x \in 1..2^nd.n |-> FAdd(nd.off, FSum([k \in 1..Len(nd.in) |-> FMul(nd.in[k].c, tabs[nd.in[k].id][x])]))]
    [] nd.t = "zp" -> LET in == tabs[nd.id] IN
         [x \in 1..(Len(in) * 2^nd.d) |-> IF MidBits(x - 1, nd.s, nd.d) = nd.nz THEN in[RemoveBits(x - 1, nd.s, nd.d) + 1] ELSE 0]
    [] nd.t = "comp" -> [x \in 1..2^nd.n |-> CompEval(nd.c, [k \in 1..Len(nd.in) |-> tabs[nd.in[k]][x]])]
GraphTables(g, seed) == FoldLeft(LAMBDA acc, i : Append(acc, NodeTable(g, i + 1, acc, seed)), <<>>, Range0(Len(g)))
============================================================================
