------------------------------ MODULE Circuits ------------------------------
(***************************************************************************)
(* Arithmetic circuits over the 16-bit tower field.  A circuit is a sequence *)
(* of steps, each a constant, a variable or an operation on earlier steps;   *)
(* it denotes the polynomial of its last step.  The module draws circuits    *)
(* (with much sharing, constants 0 and 1, powers of any 64-bit exponent, dead *)
(* steps), and says what each denotes: its values at assignments, its formal  *)
(* degree, its restriction to lines through the origin (whose coefficients are *)
(* those of the homogeneous parts), the subfield its constants lie in, the      *)
(* variables it reads, what it costs, and what renaming variables or fixing      *)
(* one of them turns it into.                                                    *)
(***************************************************************************)
EXTENDS Tower, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>

Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
MaxDeg == 12
Cap == 100000

\* ---- drawing ----
SmallExp(r) == CASE r % 8 = 0 -> <<>> [] r % 8 = 1 -> <<1>> [] r % 8 = 2 -> <<0, 1>> [] r % 8 = 3 -> <<1, 1>>
                 [] r % 8 = 4 -> <<0, 0, 1>> [] r % 8 = 5 -> <<1, 0, 1>> [] r % 8 = 6 -> <<0, 1, 1>> [] OTHER -> <<1, 1, 1>>
BigExp(s) == LET n == (H(s, 1) % 63) + 1 IN [i \in 1..n |-> IF i = n THEN 1 ELSE (H(s, i + 1) \div 7) % 2]
Konst(s, w) == LET r == H(s, 3) IN IF r % 3 = 0 THEN 0 ELSE IF r % 3 = 1 THEN 1 ELSE (H(s, 4) * 5 + H(s, 5)) % w
Leaf(q, s) == IF H(s, 1) % (IF q.profile = "consts" THEN 2 ELSE 4) = 0 THEN [o |-> "const", v |-> Konst(s, q.w)]
                                                                      ELSE [o |-> "var", v |-> H(s, 2) % q.nv]
Step(q, i) == \* the i-th step (counted from 0)
  LET s == (q.seed * 37 + i * 101) % 65537
      r == H(s, 11) % 12
      near == i - 1 - (H(s, 12) % (IF i < 3 THEN i ELSE 3))
      far == H(s, 13) % i
      x == IF H(s, 14) % 2 = 0 THEN near ELSE far
      y == IF H(s, 15) % 3 = 0 THEN near ELSE far
  IN IF i < 2 THEN Leaf(q, s)
     ELSE CASE q.profile = "addmul" -> IF r < 2 THEN Leaf(q, s) ELSE [o |-> IF r < 7 THEN "add" ELSE "mul", a |-> x, b |-> y]
            [] q.profile = "pow" -> IF r < 2 THEN Leaf(q, s) ELSE IF r < 5 THEN [o |-> "add", a |-> x, b |-> y] ELSE IF r < 7 THEN [o |-> "mul", a |-> x, b |-> y]
                                    ELSE [o |-> "pow", a |-> near, e |-> IF H(s, 16) % 3 = 0 THEN BigExp(s) ELSE SmallExp(H(s, 17))]
            [] q.profile = "linear" -> IF r < 4 THEN Leaf(q, s) ELSE IF r < 10 THEN [o |-> "add", a |-> x, b |-> y]
                                       ELSE IF r = 10 THEN [o |-> "pow", a |-> x, e |-> IF H(s, 16) % 2 = 0 THEN <<1>> ELSE <<>>] ELSE [o |-> "mul", a |-> x, b |-> y]
            [] OTHER -> IF r < 3 THEN Leaf(q, s) ELSE IF r < 7 THEN [o |-> "add", a |-> x, b |-> y] ELSE IF r < 11 THEN [o |-> "mul", a |-> x, b |-> y]
                        ELSE [o |-> "pow", a |-> near, e |-> SmallExp(H(s, 17))]
Circuit(q) == IF q.steps # <<>> THEN q.steps ELSE [i \in 1..q.n |-> Step(q, i - 1)]

\* ---- meaning ----
Raise(b, e) == FoldLeft(LAMBDA acc, bit : [p |-> IF bit = 1 THEN FMul(acc.p, acc.s) ELSE acc.p, s |-> FMul(acc.s, acc.s)], [p |-> 1, s |-> b], e).p
EvStep(vs, c, x) == CASE c.o = "add" -> FAdd(vs[c.a + 1], vs[c.b + 1]) [] c.o = "mul" -> FMul(vs[c.a + 1], vs[c.b + 1])
                      [] c.o = "pow" -> Raise(vs[c.a + 1], c.e) [] c.o = "const" -> c.v [] OTHER -> x[c.v + 1]
Ev(cs, x) == LET all == FoldLeft(LAMBDA vs, c : Append(vs, EvStep(vs, c, x)), <<>>, cs) IN all[Len(all)]

Clip(n) == IF n > Cap THEN Cap ELSE n
ExpVal(e) == FoldLeft(LAMBDA acc, i : Clip(2 * acc + e[Len(e) - i + 1]), 0, [i \in 1..Len(e) |-> i])
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > 300 \/ b > 300 THEN Cap ELSE Clip(a * b)
DegStep(ds, c) == CASE c.o = "add" -> (IF ds[c.a + 1] > ds[c.b + 1] THEN ds[c.a + 1] ELSE ds[c.b + 1]) [] c.o = "mul" -> Clip(ds[c.a + 1] + ds[c.b + 1])
                    [] c.o = "pow" -> Times(ds[c.a + 1], ExpVal(c.e)) [] c.o = "const" -> 0 [] OTHER -> 1
Degs(cs) == FoldLeft(LAMBDA ds, c : Append(ds, DegStep(ds, c)), <<>>, cs)

\* restriction to the line t |-> t x, as coefficients of t
PolyAdd(a, b) == [i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> FAdd(IF i <= Len(a) THEN a[i] ELSE 0, IF i <= Len(b) THEN b[i] ELSE 0)]
PolyMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
                 ELSE [i \in 1..(Len(a) + Len(b) - 1) |-> FoldLeft(LAMBDA acc, k : IF k > i \/ i - k + 1 > Len(b) THEN acc ELSE FAdd(acc, FMul(a[k], b[i - k + 1])), 0, [k \in 1..Len(a) |-> k])]
PolyPow(a, n) == FoldLeft(LAMBDA acc, k : PolyMul(acc, a), <<1>>, [k \in 1..n |-> k])
LineStep(ps, d, c, x) == CASE d > MaxDeg -> <<>> [] c.o = "add" -> PolyAdd(ps[c.a + 1], ps[c.b + 1]) [] c.o = "mul" -> PolyMul(ps[c.a + 1], ps[c.b + 1])
                           [] c.o = "pow" -> (IF Len(c.e) = 0 THEN <<1>> ELSE IF Len(ps[c.a + 1]) = 1 THEN <<Raise(ps[c.a + 1][1], c.e)>> ELSE PolyPow(ps[c.a + 1], ExpVal(c.e)))
                           [] c.o = "const" -> <<c.v>> [] OTHER -> <<0, x[c.v + 1]>>
Line(cs, ds, x) == LET all == FoldLeft(LAMBDA ps, i : Append(ps, LineStep(ps, ds[i], cs[i], x)), <<>>, [i \in 1..Len(cs) |-> i]) IN all[Len(all)]

Level(v) == IF v < 2 THEN 0 ELSE IF v < 4 THEN 1 ELSE IF v < 16 THEN 2 ELSE IF v < 256 THEN 3 ELSE 4
Ones(e) == FoldLeft(LAMBDA a, b : a + b, 0, e)
Cost(cs) == [adds |-> Cardinality({i \in 1..Len(cs) : cs[i].o = "add"}),
             muls |-> FoldLeft(LAMBDA a, c : a + (IF c.o = "mul" THEN 1 ELSE IF c.o = "pow" /\ Len(c.e) > 0 THEN Ones(c.e) - 1 ELSE 0), 0, cs),
             squares |-> FoldLeft(LAMBDA a, c : a + (IF c.o = "pow" /\ Len(c.e) > 0 THEN Len(c.e) - 1 ELSE 0), 0, cs)]
TopOf(p) == LET nz == {i \in 1..Len(p) : p[i] # 0} IN IF nz = {} THEN 0 ELSE Max(nz) - 1

\* ---- a case ----
Point(s, k, nv) == [i \in 1..nv |-> CASE k = 1 -> 0 [] k = 2 -> H(s, i) % 2 [] k = 3 -> (i + s) % 2 [] k = 4 -> H(s, i + 40) % 256 [] OTHER -> (H(s + k, i) * 5 + k) % 65536]
Case(q) ==
  LET cs == TLCEval(Circuit(q))
      ds == TLCEval(Degs(cs))
      deg == ds[Len(ds)]
      pts == TLCEval([k \in 1..8 |-> Point(q.seed, k, q.nv)])
      vals == [k \in 1..8 |-> Ev(cs, pts[k])]
      lines == TLCEval(IF deg > MaxDeg THEN <<>> ELSE [k \in 1..8 |-> Line(cs, ds, pts[k])])
      sv == H(q.seed, 70) % q.nv
      sc == Konst(q.seed + 5, 65536)
      m == q.nv + 2
      ren == [i \in 1..q.nv |-> H(q.seed, 80 + i) % m]
      wide == [k \in 1..8 |-> Point(q.seed + 11, k, m)]
  IN [steps |-> cs, nv |-> q.nv, pts |-> pts, vals |-> vals, deg |-> deg, lines |-> lines,
      low |-> IF lines = <<>> THEN 0 ELSE Max({TopOf(lines[k]) : k \in 1..8}),
      level |-> Max({0} \cup {Level(cs[i].v) : i \in {k \in 1..Len(cs) : cs[k].o = "const"}}),
      need |-> Max({Level(vals[k]) : k \in 1..3}),
      used |-> {cs[i].v : i \in {k \in 1..Len(cs) : cs[k].o = "var"}}, cost |-> Cost(cs),
      sub |-> [v |-> sv, c |-> sc, vals |-> [k \in 1..8 |-> Ev(cs, [i \in 1..q.nv |-> IF i = sv + 1 THEN sc ELSE pts[k][i]])]],
      ren |-> [ix |-> ren, m |-> m, pts |-> wide, vals |-> [k \in 1..8 |-> Ev(cs, [i \in 1..q.nv |-> wide[k][ren[i] + 1]])]]]
----------------------------------------------------------------------------
Init == /\ j \in 1..Len(Jobs)
        /\ st = [k |-> "start"]
Next == /\ st.k = "start"
        /\ LET c == Case(Jobs[j]) IN
             /\ PrintT(ToJson(c))
             /\ st' = [k |-> "case", c |-> c]
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars
\* the line coefficients add up to the value (t = 1), the degree bounds the lines, and the constant coefficient is the value at the origin
Holds == st.k = "case" =>
           LET c == st.c IN
           /\ Len(c.lines) > 0 => \A k \in 1..8 : /\ FoldLeft(FAdd, 0, c.lines[k]) = c.vals[k]
                                                   /\ Len(c.lines[k]) <= c.deg + 1
                                                   /\ (Len(c.lines[k]) = 0 \/ c.lines[k][1] = c.vals[1])
           /\ c.need <= c.level
           /\ c.low <= c.deg
=============================================================================
