---------------------------- MODULE Multilinear ----------------------------
(***************************************************************************)
(* Multilinear polynomials given by their values on the hypercube, univariate *)
(* polynomials given by their values on a domain (which may include           *)
(* "infinity", the leading coefficient), and the small linear algebra they    *)
(* need, each by its definition: sums over the hypercube of products of       *)
(* (x_i or 1 - x_i), Lagrange's formula, cofactors.  No folding, tensor       *)
(* doubling, Horner scheme or elimination is used to define a result;  those  *)
(* appear only in Holds, as consequences to be checked.                       *)
(***************************************************************************)
EXTENDS Subspace, TLC, Json, FiniteSets
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>

Lcg(x) == (x * 75 + 74) % 65537
RECURSIVE LcgN(_, _)
LcgN(x, k) == IF k = 0 THEN x ELSE LcgN(Lcg(x), k - 1)
RandVal(seed, i, m) == (LcgN((seed * 91 + i * 7 + 13) % 65537, 5) \div 3) % m
Vals(seed, n, m) == TLCEval([i \in 1..n |-> RandVal(seed, i, m)])
\* as many different values of a field with m elements
RECURSIVE Distinct(_, _, _, _)
Distinct(seed, n, m, acc) == IF Len(acc) = n THEN acc
  ELSE LET v == RandVal(seed, 31 * Len(acc) + 1, m)
           w == CHOOSE w \in 0..(m - 1) : (\A i \in 1..Len(acc) : acc[i] # w) /\ (\A u \in 0..(w - 1) : \E i \in 1..Len(acc) : acc[i] = u)
       IN Distinct(seed + 1, n, m, Append(acc, IF \E i \in 1..Len(acc) : acc[i] = v THEN w ELSE v))
Card(lv) == 2^(2^lv)
Sum(s) == FoldLeft(LAMBDA a, x : FAdd(a, x), 0, s)
Prod(s) == FoldLeft(LAMBDA a, x : FMul(a, x), 1, s)

\* the weight of hypercube vertex v at the point
Chi(pt, v) == Prod([b \in 1..Len(pt) |-> IF Bit(v, b - 1) = 1 THEN pt[b] ELSE FAdd(1, pt[b])])
Chis(pt) == TLCEval([v \in 1..2^Len(pt) |-> Chi(pt, v - 1)])
\* the values with variables s .. s+q-1 contracted with a vector of 2^q weights
Contract(ev, n, w, q, s) ==
  TLCEval([o \in 1..2^(n - q) |->
    LET lo == (o - 1) % 2^s  hi == (o - 1) \div 2^s
    IN Sum([t \in 1..2^q |-> FMul(ev[hi * 2^(s + q) + (t - 1) * 2^s + lo + 1], w[t])])])
\* variables s .. s+p-1 are new; the values sit where the new variables spell z
Pad(ev, n, p, s, z) ==
  TLCEval([o \in 1..2^(n + p) |-> LET lo == (o - 1) % 2^s  mid == ((o - 1) \div 2^s) % 2^p  hi == (o - 1) \div 2^(s + p)
                                   IN IF mid = z THEN ev[hi * 2^s + lo + 1] ELSE 0])
\* values followed by a constant up to 2^n
Suffixed(ev, n, c) == TLCEval([i \in 1..2^n |-> IF i <= Len(ev) THEN ev[i] ELSE c])

PolyAt(co, x) == Sum([i \in 1..Len(co) |-> FMul(co[i], FPow(x, i - 1))])
Lagrange(pts, i, x) == Prod([k \in 1..Len(pts) |-> IF k = i THEN 1 ELSE FMul(FAdd(x, pts[k]), FInv(FAdd(pts[i], pts[k])))])

RECURSIVE Det(_)
Minor(m, r, c) == LET n == Len(m) IN [i \in 1..(n - 1) |-> [k \in 1..(n - 1) |-> m[IF i < r THEN i ELSE i + 1][IF k < c THEN k ELSE k + 1]]]
Det(m) == IF Len(m) = 0 THEN 1 ELSE Sum([k \in 1..Len(m) |-> IF m[1][k] = 0 THEN 0 ELSE FMul(m[1][k], Det(Minor(m, 1, k)))])
MMul(a, b) == [i \in 1..Len(a) |-> [k \in 1..Len(b[1]) |-> Sum([l \in 1..Len(b) |-> FMul(a[i][l], b[l][k])])]]
Ident(n) == [i \in 1..n |-> [k \in 1..n |-> IF i = k THEN 1 ELSE 0]]
Rows(v, n, m) == TLCEval([i \in 1..n |-> TLCEval([k \in 1..m |-> v[(i - 1) * m + k]])])

\* pieces: numbers of variables, descending; their values are one after another
Starts(p) == [i \in 1..(Len(p) + 1) |-> FoldLeft(LAMBDA a, k : a + 2^p[k], 0, [k \in 1..(i - 1) |-> k])]

Case(q) ==
  CASE q.k = "mle" ->
        LET ev == Vals(q.seed, 2^q.n, Card(q.lv))  pt == Vals(q.seed + 1, q.q, Card(q.ql))
        IN q @@ [ev |-> ev, pt |-> pt, out |-> Contract(ev, q.n, Chis(pt), q.q, q.s)]
    [] q.k = "fold" ->
        LET ev == Vals(q.seed, 2^q.n, Card(q.lv))  w == Vals(q.seed + 1, 2^q.q, Card(q.ql))
        IN q @@ [ev |-> ev, w |-> w, out |-> Contract(ev, q.n, w, q.q, q.s)]
    [] q.k = "pad" ->
        LET ev == Vals(q.seed, 2^q.n, Card(q.lv))
            ok == q.s <= q.n /\ q.z < 2^q.p
        IN q @@ [ev |-> ev, ok |-> ok, out |-> IF ok THEN Pad(ev, q.n, q.p, q.s, q.z) ELSE <<>>]
    [] q.k = "lerp" -> \* the first `len` values, the others all equal
        LET ev == Vals(q.seed, q.len, Card(q.lv))  c == RandVal(q.seed, 999, Card(q.lv)) * q.c  x == RandVal(q.seed, 998, Card(q.ql))
            full == Suffixed(ev, q.n, c)
        IN q @@ [ev |-> ev, suffix |-> c, x |-> x,
                 low |-> Contract(full, q.n, <<FAdd(1, x), x>>, 1, 0), high |-> Contract(full, q.n, <<FAdd(1, x), x>>, 1, q.n - 1)]
    [] q.k = "eq" ->
        LET v == Vals(q.seed, 2^q.n, Card(q.lv))  pt == Vals(q.seed + 1, q.q, Card(q.lv))  c == Chis(pt)
        IN q @@ [v |-> v, pt |-> pt, eq |-> c, out |-> [i \in 1..2^(q.n + q.q) |-> FMul(v[((i - 1) % 2^q.n) + 1], c[((i - 1) \div 2^q.n) + 1])]]
    [] q.k = "piece" ->
        LET s == Starts(q.pieces)  total == s[Len(s)]
            pt == Vals(q.seed, q.n, Card(q.lv))
            vs == [i \in 1..Len(q.pieces) |-> Vals(q.seed + 10 + i, 2^q.pieces[i], Card(q.lv))]
            ok == total <= 2^q.n
            ev == [i \in 1..Len(q.pieces) |-> Contract(vs[i], q.pieces[i], Chis(SubSeq(pt, 1, q.pieces[i])), q.pieces[i], 0)[1]]
        IN IF ~ok THEN q @@ [ok |-> FALSE, pt |-> pt]
           ELSE q @@ [ok |-> TRUE, pt |-> pt, evals |-> TLCEval(ev),
                      out |-> LET all == Suffixed(FoldLeft(LAMBDA a, x : a \o x, <<>>, vs), q.n, 0) IN Contract(all, q.n, Chis(pt), q.n, 0)[1]]
    [] q.k = "uni" ->
        LET n == q.n  m == n + q.inf
            pts == TLCEval(IF q.dup = 1 /\ n >= 2 THEN [Distinct(q.seed, n, Card(q.lv), <<>>) EXCEPT ![n] = RandVal(q.seed, 1, Card(q.lv))] ELSE IF q.canon = 1 THEN Range0(n) ELSE Distinct(q.seed, n, Card(q.lv), <<>>))
            distinct == Cardinality({pts[i] : i \in 1..n}) = n
            co == Vals(q.seed + 5, m, Card(q.ql))
            x == IF q.at = 0 \/ n = 0 THEN RandVal(q.seed, 997, Card(q.ql)) ELSE pts[((q.at - 1) % n) + 1]
        IN IF ~distinct THEN q @@ [ok |-> FALSE, pts |-> pts]
           ELSE q @@ [ok |-> TRUE, pts |-> pts, co |-> co, x |-> x, y |-> PolyAt(co, x),
                      vals |-> TLCEval([i \in 1..m |-> IF i <= n THEN PolyAt(co, pts[i]) ELSE co[m]]),
                      lag |-> TLCEval([i \in 1..n |-> Lagrange(pts, i, x)])]
    [] q.k = "mat" ->
        LET a == Rows(Vals(q.seed, q.n * q.n, Card(q.lv)), q.n, q.n)
            d == Det(a)
            b == Rows(Vals(q.seed + 1, q.n * q.m, Card(q.lv)), q.n, q.m)
            v == Vals(q.seed + 2, q.n, 65536)
        IN q @@ [a |-> a, b |-> b, v |-> v, ok |-> d # 0, ab |-> IF q.n = 0 THEN <<>> ELSE MMul(a, b),
                 av |-> [i \in 1..q.n |-> Sum([l \in 1..q.n |-> FMul(a[i][l], v[l])])],
                 inv |-> IF d = 0 THEN <<>> ELSE TLCEval([i \in 1..q.n |-> TLCEval([k \in 1..q.n |-> FMul(FInv(d), Det(Minor(a, k, i)))])])]
    [] q.k = "span" ->
        LET b == IF q.canon = 1 THEN CanonBasis(q.n) ELSE TLCEval([i \in 1..q.n |-> 2^(i - 1) + RandVal(q.seed, i, 2^(i - 1))])
        IN q @@ [b |-> b, pts |-> [i \in 1..2^q.n |-> SpanPoint(b, i - 1)]]
    [] q.k = "rows" ->
        LET cells == [r \in 1..q.rows |-> [c \in 1..q.cols |-> 100 * r + c]]
            Sub(rs, a, b) == [r \in 1..Len(rs) |-> SubSeq(rs[r], a + 1, b)]
            one == Sub(cells, q.a, q.b)
            pick == [i \in 1..Len(q.pick) |-> one[q.pick[i] + 1]]
        IN q @@ [cells |-> cells, one |-> one, two |-> Sub(one, q.c, q.d), picked |-> pick, pickedsub |-> Sub(pick, q.c, q.d)]
    [] q.k = "embed" -> \* groups of 2^deg values become coordinates, at a stride
        LET ev == Vals(q.seed, 2^q.n, Card(q.lv))
            sub == SubSeq(ev, q.i * 2^q.sub + 1, (q.i + 1) * 2^q.sub)
            g == 2^(IF q.deg < q.sub THEN q.deg ELSE q.sub)
        IN q @@ [ev |-> ev, groups |-> [o \in 1..(2^q.sub \div g) |-> SubSeq(sub, (o - 1) * g + 1, o * g)]]

Init == /\ j \in 1..Len(Jobs)
        /\ st = [k |-> "start"]
Next == /\ st.k = "start"
        /\ LET c == TLCEval(Case(Jobs[j])) IN
             /\ st' = c
             /\ PrintT(ToJson(c))
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

Lerp(a, b, x) == FAdd(a, FMul(x, FAdd(a, b)))
FoldLow(ev, x) == TLCEval([i \in 1..(Len(ev) \div 2) |-> Lerp(ev[2*i - 1], ev[2*i], x)])
Holds ==
  CASE st.k = "mle" -> \* one variable at a time, and on vertices the value itself
        /\ (st.s = 0 /\ st.n <= 8) => FoldLeft(LAMBDA e, x : FoldLow(e, x), st.ev, st.pt) = st.out
        /\ st.n <= 6 => \A v \in 1..2^st.n : MleEval(st.ev, [b \in 1..st.n |-> Bit(v - 1, b - 1)]) = st.ev[v]
    [] st.k = "eq" -> st.eq = EqWeights(st.pt) /\ Sum(st.eq) = 1
    [] st.k = "uni" -> st.ok =>
         LET n == st.n  lead == IF st.inf = 1 THEN st.vals[n + 1] ELSE 0
         IN st.y = FAdd(FMul(lead, FPow(st.x, n)), Sum([i \in 1..n |-> FMul(FAdd(st.vals[i], FMul(lead, FPow(st.pts[i], n))), st.lag[i])]))
    [] st.k = "mat" -> (st.ok /\ st.n > 0) => MMul(st.a, st.inv) = Ident(st.n) /\ MMul(st.inv, st.a) = Ident(st.n)
    [] st.k = "lerp" -> st.low = FoldLow(Suffixed(st.ev, st.n, st.suffix), st.x)
    [] OTHER -> TRUE
============================================================================
