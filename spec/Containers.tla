----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* The containers everything else is stored in: two-dimensional arrays and    *)
(* their column strides, sub-ranges of sequences, packed slices seen as scalars, *)
(* sparse maps, stable sorting and its inverse, connected components, and checked *)
(* integer arithmetic.  Each is a function from indices to values; an access reads *)
(* or changes the cell it names, and one that names no cell is refused.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>
Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
Range1(n) == [i \in 1..n |-> i]
Lt(a, b) == IF a < b THEN a ELSE b

\* ---- two-dimensional arrays, row by row ----
Grid(q) ==
  LET R == q.rows C == q.cols
      draw(k) == LET r == H(q.seed, k) IN [o |-> IF r % 3 = 0 THEN "get" ELSE "set", i |-> (r \div 3) % (R + 1), j |-> H(q.seed, k + 100) % (C + 2), x |-> 1000 + k]
      start == [c \in 1..(R * C) |-> c]
      step(acc, k) == LET d == draw(k) ok == d.i < R /\ d.j < C at == d.i * C + d.j + 1
                      IN [m |-> IF ok /\ d.o = "set" THEN [acc.m EXCEPT ![at] = d.x] ELSE acc.m,
                          ops |-> Append(acc.ops, d @@ [ok |-> ok, was |-> IF ok THEN acc.m[at] ELSE 0])]
      end == FoldLeft(step, [m |-> start, ops |-> <<>>], Range1(q.n))
      row(m, i) == [c \in 1..C |-> m[(i - 1) * C + c]]
  IN [ops |-> end.ops, cells |-> [i \in 1..R |-> row(end.m, i)], sums |-> [c \in 1..C |-> FoldLeft(LAMBDA a, i : a + end.m[(i - 1) * C + c], 0, Range1(R))],
      shapes |-> [k \in 1..4 |-> LET r == IF k = 1 THEN C ELSE H(q.seed, k + 500) % (R + 2) c == IF k = 1 THEN R ELSE IF k = 2 THEN R * C ELSE H(q.seed, k + 600) % (C + 2)
                                 IN [r |-> r, c |-> c, ok |-> r * c = R * C, at |-> IF r * c = R * C /\ r * c > 0 THEN [i \in 1..r |-> [jj \in 1..c |-> end.m[(i - 1) * c + jj]]] ELSE <<>>]]]

\* ---- column strides of a two-dimensional array, and strides of strides ----
Cuts(a, b, s) == [k \in 1..((b - a + s - 1) \div s) |-> [a |-> a + (k - 1) * s, b |-> Lt(a + k * s, b)]]
Strides(q) ==
  LET R == q.rows C == q.cols
      outer == Cuts(0, C, q.s1)
      parts == FoldLeft(LAMBDA acc, o : acc \o (IF q.s2 = 0 THEN <<o>> ELSE Cuts(o.a, o.b, q.s2)), <<>>, outer)
      draw(k) == LET p == (H(q.seed, k) % Len(parts)) + 1 IN [p |-> p - 1, i |-> H(q.seed, k + 100) % (R + 1), j |-> H(q.seed, k + 200) % (parts[p].b - parts[p].a + 1), x |-> 1000 + k]
      step(acc, k) == LET d == draw(k) P == parts[d.p + 1] ok == d.i < R /\ d.j < P.b - P.a at == d.i * C + P.a + d.j + 1
                      IN [m |-> IF ok THEN [acc.m EXCEPT ![at] = d.x] ELSE acc.m, ops |-> Append(acc.ops, d @@ [ok |-> ok, was |-> IF ok THEN acc.m[at] ELSE 0])]
      end == FoldLeft(step, [m |-> [c \in 1..(R * C) |-> c], ops |-> <<>>], IF parts = <<>> THEN <<>> ELSE Range1(q.n))
  IN [ops |-> end.ops, widths |-> [k \in 1..Len(parts) |-> parts[k].b - parts[k].a], cells |-> end.m,
      columns |-> [k \in 1..Len(parts) |-> [c \in 1..(parts[k].b - parts[k].a) |-> [i \in 1..R |-> end.m[(i - 1) * C + parts[k].a + c]]]]]

\* ---- nested sub-ranges of a sequence ----
Ranges(q) ==
  LET n == q.w * q.blocks
      o1 == H(q.seed, 1) % (n + 1)  l1 == H(q.seed, 2) % (n - o1 + 1)
      o2 == H(q.seed, 3) % (l1 + 1) l2 == H(q.seed, 4) % (l1 - o2 + 1)
      len == H(q.seed, 5) % (n + 1)
      draw(k) == [o |-> IF H(q.seed, k) % 3 = 0 THEN "get" ELSE "set", i |-> H(q.seed, k + 100) % (l2 + 2), x |-> n + k]
      step(acc, k) == LET d == draw(k) ok == d.i < l2 at == o1 + o2 + d.i + 1
                      IN [m |-> IF ok /\ d.o = "set" THEN [acc.m EXCEPT ![at] = d.x] ELSE acc.m, ops |-> Append(acc.ops, d @@ [ok |-> ok, was |-> IF ok THEN acc.m[at] ELSE 0])]
      end == FoldLeft(step, [m |-> Range1(n), ops |-> <<>>], [k \in 1..q.n |-> k + 10])
  IN [o1 |-> o1, l1 |-> l1, o2 |-> o2, l2 |-> l2, ops |-> end.ops, cells |-> end.m, len |-> len]

\* ---- packed elements as a sequence of scalars ----
Packed(q) ==
  LET n == q.w * q.blocks
      draw(k) == [o |-> IF H(q.seed, k) % 3 = 0 THEN "get" ELSE "set", i |-> H(q.seed, k + 100) % (n + q.w + 1), x |-> n + k]
      step(acc, k) == LET d == draw(k) ok == d.i < n
                      IN [m |-> IF ok /\ d.o = "set" THEN [acc.m EXCEPT ![d.i + 1] = d.x] ELSE acc.m, ops |-> Append(acc.ops, d @@ [ok |-> ok, was |-> IF ok THEN acc.m[d.i + 1] ELSE 0])]
      end == FoldLeft(step, [m |-> Range1(n), ops |-> <<>>], [k \in 1..q.n |-> k + 10])
      off == H(q.seed, 3) % (n + 2)
      src == [i \in 1..(IF H(q.seed, 6) % 4 = 0 THEN n + q.w ELSE H(q.seed, 4) % (n + q.w + 1)) |-> 200 - i]
      up == ((Len(src) + q.w - 1) \div q.w) * q.w
  IN [ops |-> end.ops, cells |-> end.m, off |-> off, tail |-> IF off >= n THEN <<>> ELSE SubSeq(end.m, off + 1, n), src |-> src,
      packed |-> [i \in 1..up |-> IF i <= Len(src) THEN src[i] ELSE 0],
      copied |-> [i \in 1..n |-> IF i <= Len(src) THEN src[i] ELSE end.m[i]], fits |-> Len(src) <= n]

\* ---- sparse maps ----
Sparse(q) ==
  LET draw(k) == [o |-> <<"set", "entry", "with", "get", "mut", "index">>[(H(q.seed, k) % 6) + 1], i |-> H(q.seed, k + 100) % q.keys, x |-> 1000 + k]
      Has(m, i) == m[i + 1] # 0
      step(acc, k) == LET d == draw(k) has == Has(acc.m, d.i)
                          m == CASE d.o = "set" -> [acc.m EXCEPT ![d.i + 1] = d.x]
                                 [] d.o \in {"entry", "with"} -> IF has THEN acc.m ELSE [acc.m EXCEPT ![d.i + 1] = d.x]
                                 [] d.o \in {"mut"} -> IF has THEN [acc.m EXCEPT ![d.i + 1] = d.x] ELSE acc.m
                                 [] OTHER -> acc.m
                      IN [m |-> m, ops |-> Append(acc.ops, d @@ [has |-> has, was |-> acc.m[d.i + 1], now |-> m[d.i + 1], len |-> Cardinality({i \in 1..q.keys : m[i] # 0})])]
      end == FoldLeft(step, [m |-> [i \in 1..q.keys |-> 0], ops |-> <<>>], Range1(q.n))
      ks == SelectSeq(Range1(q.keys), LAMBDA i : end.m[i] # 0)
  IN [ops |-> end.ops, items |-> [k \in 1..Len(ks) |-> <<ks[k] - 1, end.m[ks[k]]>>]]

\* ---- stable sorting ----
Sorting(q) ==
  LET keys == [i \in 1..q.n |-> H(q.seed, i) % q.keys]
      Before(a, b, d) == IF keys[a] = keys[b] THEN a < b ELSE IF d THEN keys[a] > keys[b] ELSE keys[a] < keys[b]
      Place(a, d) == Cardinality({b \in 1..q.n : Before(b, a, d)}) + 1
      Order(d) == [p \in 1..q.n |-> (CHOOSE a \in 1..q.n : Place(a, d) = p) - 1]
  IN [vals |-> keys, up |-> Order(FALSE), down |-> Order(TRUE), sorted |-> \A i \in 1..(q.n - 1) : keys[i] <= keys[i + 1]]

\* ---- connected components ----
Components(q) ==
  LET sets == [k \in 1..q.n |-> [i \in 1..(H(q.seed, k) % 5) |-> H(q.seed, 10 * k + i) % q.keys]]
      Members(k) == {sets[k][i] : i \in 1..Len(sets[k])}
      all == UNION {Members(k) : k \in 1..q.n}
      top == IF all = {} THEN 0 ELSE CHOOSE x \in all : \A y \in all : y <= x
      grow(S) == S \cup UNION {Members(k) : k \in {m \in 1..q.n : Members(m) \cap S # {}}}
      comp(x) == FoldLeft(LAMBDA S, i : grow(S), {x}, Range1(q.n))
      least(S) == CHOOSE x \in S : \A y \in S : x <= y
  IN [sets |-> sets, comps |-> IF q.n = 0 THEN <<>> ELSE [x \in 1..(top + 1) |-> least(comp(x - 1))]]

\* ---- integers ----
Log2(n) == CHOOSE e \in 0..31 : 2 ^ e <= n /\ (e = 30 \/ n < 2 ^ (e + 1))
IsPow(n) == n > 0 /\ n = 2 ^ Log2(n)
NBits(n) == IF n = 0 THEN 0 ELSE Log2(n) + 1
Numbers(q) ==
  LET nn == [i \in 1..q.n |-> LET r == H(q.seed, i) IN CASE i % 3 = 0 -> 2 ^ (r % 30) [] i % 3 = 1 -> (2 ^ (r % 30) + (r % 2)) - ((r \div 2) % 2) [] OTHER -> r % 500]
      dd == [i \in 1..q.n |-> LET b == (H(q.seed, i + 50) % 40) + 1 a == IF i % 2 = 0 THEN b * (H(q.seed, i + 80) % 50) ELSE H(q.seed, i + 90) % 2000 IN <<a, b>>]
  IN [nums |-> [i \in 1..q.n |-> [n |-> nn[i], pow |-> IsPow(nn[i]), log |-> IF nn[i] = 0 THEN 0 ELSE Log2(nn[i]), bits |-> NBits(nn[i]), ceil |-> IF nn[i] = 0 THEN 0 ELSE NBits(nn[i] - 1)]],
      divs |-> [i \in 1..q.n |-> [a |-> dd[i][1], b |-> dd[i][2], ok |-> dd[i][1] % dd[i][2] = 0, q |-> dd[i][1] \div dd[i][2]]]]

\* ---- a map whose skipped values are not computed ----
Skips(q) ==
  LET len == H(q.seed, 1) % 12
      draw(k) == LET r == H(q.seed, k + 5) IN IF r % 3 = 0 THEN 0 ELSE r % 5       \* how many to skip before the next
      step(acc, k) == LET d == draw(k) at == acc.at + d hit == at < len
                      IN [at |-> IF hit THEN at + 1 ELSE len, ops |-> Append(acc.ops, [skip |-> d, hit |-> hit, val |-> IF hit THEN 7 * at + 3 ELSE 0, left |-> IF hit THEN len - at - 1 ELSE 0])]
      end == FoldLeft(step, [at |-> 0, ops |-> <<>>], Range1(q.n))
  IN [len |-> len, ops |-> end.ops, rest |-> [i \in 1..(len - end.at) |-> 7 * (end.at + i - 1) + 3]]

Case(q) == CASE q.kind = "grid" -> Grid(q) [] q.kind = "strides" -> Strides(q) [] q.kind = "ranges" -> Ranges(q) [] q.kind = "packed" -> Packed(q) [] q.kind = "sparse" -> Sparse(q)
             [] q.kind = "sorting" -> Sorting(q) [] q.kind = "components" -> Components(q) [] q.kind = "numbers" -> Numbers(q) [] OTHER -> Skips(q)
Init ==
  /\ j \in 1..Len(Jobs)
  /\ st = [case |-> <<>>]
Next ==
  /\ st.case = <<>>
  /\ LET c == TLCEval(Case(Jobs[j])) IN
       /\ PrintT(ToJson(Jobs[j] @@ c))
       /\ st' = [case |-> c]
  /\ j' = j
Spec == Init /\ [][Next]_vars
(* Sorting is a permutation, and a component's name belongs to the component. *)
Holds == st.case # <<>> =>
  /\ (Jobs[j].kind = "sorting" => {st.case.up[i] : i \in 1..Len(st.case.up)} = 0..(Jobs[j].n - 1))
  /\ (Jobs[j].kind = "components" => \A x \in 1..Len(st.case.comps) : st.case.comps[x] <= x - 1 /\ st.case.comps[st.case.comps[x] + 1] = st.case.comps[x])
=============================================================================
