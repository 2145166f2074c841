-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Univariate polynomials (sequences of coefficients, constant term first),  *)
(* multilinear tables and compositions (sums of monomials over multilinears),*)
(* all over the 16-bit field.                                                *)
(***************************************************************************)
EXTENDS Subspace, FiniteSets

PolyAdd(p, q) == LET n == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
  IN [i \in 1..n |-> FAdd(IF i <= Len(p) THEN p[i] ELSE 0, IF i <= Len(q) THEN q[i] ELSE 0)]
PolyScale(c, p) == [i \in 1..Len(p) |-> FMul(c, p[i])]
PolyMul(p, q) == [i \in 1..(Len(p) + Len(q) - 1) |->
    FSum([k \in 1..Len(p) |-> IF i + 1 - k \in 1..Len(q) THEN FMul(p[k], q[i + 1 - k]) ELSE 0])]
PolyEval(p, x) == FoldLeft(LAMBDA acc, i : FAdd(FMul(acc, x), p[Len(p) - i]), 0, Range0(Len(p)))
PolyPad(p, n) == [i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE 0]
PolySumSeq(ps) == FoldLeft(PolyAdd, <<0>>, ps)

\* --- multilinear tables
FoldLow(t, r) == [i \in 1..(Len(t) \div 2) |-> FAdd(t[2*i-1], FMul(r, FAdd(t[2*i-1], t[2*i])))]
FoldHigh(t, r) == LET h == Len(t) \div 2 IN [i \in 1..h |-> FAdd(t[i], FMul(r, FAdd(t[i], t[h + i])))]
FoldT(order, t, r) == IF order = "low" THEN FoldLow(t, r) ELSE FoldHigh(t, r)
\* the line through the two values of pair number i (i from 1) of the variable bound next
Line(order, t, i) == LET a == IF order = "low" THEN t[2*i-1] ELSE t[i]
                         b == IF order = "low" THEN t[2*i] ELSE t[Len(t) \div 2 + i]
                     IN <<a, FAdd(a, b)>>
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* --- compositions: a sequence of monomials [c |-> coefficient, e |-> sequence of argument numbers]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
CompDegree(c) == MaxOf({0} \cup {Len(c[k].e) : k \in 1..Len(c)})
CompEval(c, args) == FSum([k \in 1..Len(c) |-> FMul(c[k].c, FProd([j \in 1..Len(c[k].e) |-> args[c[k].e[j]]]))])
\* composition of lines: a univariate polynomial
CompPoly(c, lines) == PolySumSeq([k \in 1..Len(c) |->
    FoldLeft(LAMBDA acc, j : PolyMul(acc, lines[j]), <<c[k].c>>, c[k].e)])
CompSum(c, tables) == FSum([i \in 1..Len(tables[1]) |-> CompEval(c, [m \in 1..Len(tables) |-> tables[m][i]])])

\* --- pseudo-random test values
Lcg(x) == (x * 75 + 74) % 65537
RandVal(seed, i) == LET a == Lcg((seed * 9173 + i * 541 + 77) % 65537) b == Lcg(a) c == Lcg(b) d == Lcg(c) IN (d + i) % 65536
Chal(seed, i) == IF seed = 0 THEN i % 2 ELSE RandVal(seed + 50, i)
FieldVal(kind, v) == CASE kind = "b1" -> v % 2 [] kind = "b8" -> v % 256 [] kind = "zero" -> 0 [] kind = "one" -> 1 [] OTHER -> v
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
============================================================================
