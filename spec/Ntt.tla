-------------------------------- MODULE Ntt --------------------------------
(***************************************************************************)
(* The additive transform and the Reed-Solomon code built on it.             *)
(* A transform has a domain of dimension L given by a basis that starts with *)
(* one; the domain of dimension d it uses for shorter transforms is the      *)
(* image of the domain under the normalised vanishing polynomial of the      *)
(* first L - d basis elements.  Coefficient number j of a message belongs to *)
(* the product, over the set bits i of j, of the normalised vanishing        *)
(* polynomials of the first i basis elements; the transform of a message is  *)
(* its values at consecutive points of a coset.  Everything is computed from *)
(* these definitions, no butterflies are involved.                           *)
(***************************************************************************)
EXTENDS Subspace, TLC, Json, FiniteSets
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>

Lcg(x) == (x * 75 + 74) % 65537
RECURSIVE LcgN(_, _)
LcgN(x, k) == IF k = 0 THEN x ELSE LcgN(Lcg(x), k - 1)
RandVal(seed, i, m) == LcgN((seed * 91 + i * 7 + 13) % 65537, 5) % m
Vals(seed, n, m) == TLCEval([i \in 1..n |-> RandVal(seed, i, m)])
Top(q) == IF q.lv = 3 THEN 256 ELSE 65536

\* a basis that starts with one: the canonical one, or one that is triangular over it
BasisOf(q) == TLCEval([i \in 1..q.L |-> IF q.basis = 0 \/ i = 1 THEN 2^(i - 1) ELSE 2^(i - 1) + RandVal(q.basis, i, 2^(i - 1))])

\* the values of W_k at the basis elements, for k = 0..Len - 1
WTable(b) == TLCEval(FoldLeft(LAMBDA t, k : Append(t, TLCEval([i \in 1..Len(b) |-> LET y == t[k][i] IN FMul(y, FAdd(y, t[k][k]))])), <<b>>, [k \in 1..(Len(b) - 1) |-> k]))
\* the values of the normalised ones
HTable(b) == LET t == WTable(b) IN TLCEval([k \in 1..Len(b) |-> LET n == FInv(t[k][k]) IN TLCEval([i \in 1..Len(b) |-> FMul(t[k][i], n)])])
\* the domain of dimension d
SubBasis(b, d) == LET r == Len(b) - d IN IF d = 0 THEN <<>> ELSE LET h == HTable(b) IN TLCEval([k \in 1..d |-> h[r + 1][r + k]])

Linear(row, p) == FoldLeft(LAMBDA a, i : IF Bit(p, i) = 1 THEN FAdd(a, row[i + 1]) ELSE a, 0, Range0(Len(row)))
\* the values of the first 2^m basis polynomials at point p
Weights(h, m, p) == FoldLeft(LAMBDA acc, i : LET w == Linear(h[i], p) IN acc \o TLCEval([k \in 1..Len(acc) |-> FMul(acc[k], w)]), <<1>>, [i \in 1..m |-> i])
\* a table of weights for points 0 .. n - 1 from point p0
WeightsAt(b, m, p0, n) == LET h == TLCEval(IF b = <<>> THEN <<>> ELSE HTable(b)) IN TLCEval([i \in 1..n |-> Weights(h, m, p0 + i - 1)])

\* the transform of a tensor of 2^z blocks of 2^y rows of 2^x entries, which leaves out the first `skip` rounds: the rows are then 2^skip
\* messages for adjacent cosets
Transform(b, x, y, z, c, cb, skip, data) ==
  LET m == y - skip
      T == WeightsAt(SubBasis(b, y + cb), m, c * 2^y, 2^y)
      X == 2^x
  IN TLCEval([n \in 1..Len(data) |->
       LET i == n - 1  l == i % X  r == (i \div X) % 2^y  zz == i \div (X * 2^y)
           blk == r \div 2^m
       IN FDot(TLCEval([k \in 1..2^m |-> data[(zz * 2^y + blk * 2^m + k - 1) * X + l + 1]]), T[r + 1])])
\* len: scalars given to the transform; w: how many of them an element of the buffer holds
Admissible(q) == /\ q.skip <= q.y
                 /\ q.c < 2^q.cb
                 /\ q.y + q.cb <= q.L
                 /\ q.len = 2^(q.x + q.y + q.z)

Case(q) ==
  CASE q.k = "ntt" ->
        LET b == BasisOf(q)  d == Vals(q.seed, 2^(q.x + q.y + q.z), Top(q))
        IN q @@ [b |-> b, in |-> d, out |-> Transform(b, q.x, q.y, q.z, q.c, q.cb, q.skip, d)]
    [] q.k = "rs" ->
        LET b == BasisOf(q)  m == Vals(q.seed, 2^(q.dim + q.batch), Top(q))
            rep == TLCEval([i \in 1..2^(q.dim + q.rate + q.batch) |-> m[((i - 1) % Len(m)) + 1]])
        IN q @@ [b |-> b, dom |-> SubBasis(b, q.dim + q.rate), msg |-> m, code |-> Transform(b, q.batch, q.dim + q.rate, 0, 0, 0, q.rate, rep)]
    [] q.k = "odd" ->
        LET b == BasisOf(q)  n == q.d * 2^q.ell  co == Vals(q.seed, n, Top(q))
            D == SubBasis(b, q.ell + q.cb)
            full == TLCEval([i \in 1..2^(q.ell + q.cb) |-> IF i <= n THEN co[i] ELSE 0])
            T == WeightsAt(D, q.ell + q.cb, 0, n)
        IN q @@ [b |-> b, coeffs |-> co, evals |-> [i \in 1..n |-> FDot(full, T[i])]]
    [] q.k = "fold" ->
        LET b == BasisOf(q)  D == SubBasis(b, q.len)
            w == Vals(q.seed, 2^(q.len + q.batch), Top(q))  cs == Vals(q.seed + 1, q.n, 65536)
        IN q @@ [b |-> b, word |-> w, cs |-> cs, out |-> FoldWordMany(D, Collapse(w, SubSeq(cs, 1, q.batch)), 0, SubSeq(cs, q.batch + 1, q.n))]
    [] q.k = "tw" ->
        LET b == BasisOf(q)  h == HTable(b)
        IN q @@ [b |-> b, tw |-> [i \in 1..q.L |-> [p \in 1..2^(q.L - i) |-> Linear(h[i], (p - 1) * 2^i)]],
                 doms |-> [d \in 1..q.L |-> SubBasis(b, d)]]
    [] q.k = "shape" -> q @@ [ok |-> Admissible(q)]

Init == /\ j \in 1..Len(Jobs)
        /\ st = [k |-> "start"]
Next == /\ st.k = "start"
        /\ LET c == TLCEval(Case(Jobs[j])) IN
             /\ st' = c
             /\ PrintT(ToJson(c))
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

\* what the code is for, on the values generated
Small(c) == Len(c.out) <= 64 /\ c.y + c.cb <= 5
Holds ==
  CASE st.k = "ntt" -> (Small(st) /\ st.skip = 0 /\ st.x = 0 /\ st.z = 0) =>
        \* the values are those of the polynomial by its definition
        LET D == SubBasis(st.b, st.y + st.cb)
        IN \A i \in 1..Len(st.out) : st.out[i] = NovelEval(D, st.in, st.y, SpanPoint(D, st.c * 2^st.y + i - 1))
    [] st.k = "rs" -> \* folding a codeword commutes with folding the message
        (st.batch = 0 /\ st.dim >= 1 /\ st.dim + st.rate <= 5) =>
          LET D == SubBasis(st.b, st.dim + st.rate)
              D1 == SubBasis(st.b, st.dim + st.rate - 1)
              f == FoldWord(D, st.code, 0, 77)
              m == [i \in 1..2^(st.dim - 1) |-> FAdd(st.msg[2*i - 1], FMul(77, FAdd(st.msg[2*i - 1], st.msg[2*i])))]
          IN st.dim + st.rate >= 2 => \A i \in 1..Len(f) : f[i] = NovelEval(D1, m, st.dim - 1, SpanPoint(D1, i - 1))
    [] st.k = "tw" -> st.L <= 6 => \A i \in 1..st.L : \A p \in 1..2^(st.L - i) :
          st.tw[i][p] = WHat(st.b, i - 1, SpanPoint(st.b, (p - 1) * 2^i))
    [] OTHER -> TRUE
============================================================================
