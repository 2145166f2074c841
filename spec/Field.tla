---- MODULE Field ----
(* Arithmetic of every field family, by definition: the binary tower (Tower.tla), the tower over the AES field, and the field of POLYVAL in  *)
(* its Montgomery form; positions of the values a vector of lanes holds when it is interleaved, unzipped, spread or transposed; maps that   *)
(* are linear over GF(2). A value is a sequence of 16-bit limbs, one limb for levels up to 4.                                                *)
EXTENDS Tower, FiniteSets, Json, TLC
CONSTANTS Jobs

VARIABLES j, st
vars == <<j, st>>

Limbs(lv) == IF lv <= 4 THEN 1 ELSE 2^(lv - 4)
MaxOf(lv) == IF lv >= 4 THEN 65535 ELSE 2^(2^lv) - 1
Pad(x) == [i \in 1..8 |-> IF i <= Len(x) THEN x[i] ELSE 0]
Cut(x, lv) == SubSeq(x, 1, Limbs(lv))
Bit(x, b) == (x[1 + (b \div 16)] \div 2^(b % 16)) % 2
Unit(b, n) == [i \in 1..n |-> IF i = 1 + (b \div 16) THEN 2^(b % 16) ELSE 0]
XorL(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] ^^ y[i]])
None(x) == \A i \in 1..Len(x) : x[i] = 0

---- (* the tower *)
TMul(lv, x, y) == IF lv <= 4 THEN <<FMul(x[1], y[1])>> ELSE Cut(BMul(Pad(x), Pad(y)), lv)
TInv(lv, x) == IF None(x) THEN x ELSE IF lv <= 4 THEN <<FInv(x[1])>> ELSE Cut(BInv(Pad(x)), lv)
(* the generator of level k over level k - 1 *)
Gen(k, lv) == IF k = 0 THEN Unit(0, Limbs(lv)) ELSE Unit(2^(k - 1), Limbs(lv))

---- (* GF(2)[x] / (x^8 + x^4 + x^3 + x + 1), and the tower over it *)
XTimes(a) == IF a >= 128 THEN ((2 * a) % 256) ^^ 27 ELSE 2 * a
AesMul(a, b) == FoldLeft(LAMBDA s, i : <<XTimes(s[1]), IF (b \div 2^i) % 2 = 1 THEN s[2] ^^ s[1] ELSE s[2]>>, <<a, 0>>, Range0(8))[2]
ToAesBits == <<1, 188, 176, 236, 211, 141, 46, 88>>
FromAesBits == <<1, 60, 140, 138, 89, 122, 83, 39>>
Image(bits, a) == FoldLeft(LAMBDA s, i : IF (a \div 2^i) % 2 = 1 THEN s ^^ bits[i + 1] ELSE s, 0, Range0(8))
ToAes8 == TLCEval([a \in 0..255 |-> Image(ToAesBits, a)])
FromAes8 == TLCEval([a \in 0..255 |-> Image(FromAesBits, a)])
ToAes(x) == [i \in 1..Len(x) |-> ToAes8[x[i] % 256] + 256 * ToAes8[x[i] \div 256]]
FromAes(x) == [i \in 1..Len(x) |-> FromAes8[x[i] % 256] + 256 * FromAes8[x[i] \div 256]]

---- (* x^128 + x^127 + x^126 + x^121 + 1; the product of representations is the product times x^-128 *)
HalfP == [i \in 1..8 |-> IF i = 8 THEN 57600 ELSE 0]       \* x^127 + x^126 + x^125 + x^120
Halve(x) == \* x times X^-1
    LET s == [i \in 1..8 |-> (x[i] \div 2) + (IF i < 8 THEN 32768 * (x[i + 1] % 2) ELSE 0)]
    IN TLCEval(IF x[1] % 2 = 1 THEN XorL(s, HalfP) ELSE s)
PMont(x, y) == FoldLeft(LAMBDA s, b : Halve(IF Bit(y, b) = 1 THEN XorL(s, x) ELSE s), [i \in 1..8 |-> 0], Range0(128))
Twice(x) == \* times X
    LET s == [i \in 1..8 |-> ((2 * x[i]) % 65536) + (IF i > 1 THEN x[i - 1] \div 32768 ELSE 0)]
    IN TLCEval(IF x[8] >= 32768 THEN XorL(s, [i \in 1..8 |-> IF i = 8 THEN 49664 ELSE IF i = 1 THEN 1 ELSE 0]) ELSE s)
POne == TLCEval(FoldLeft(LAMBDA s, i : Twice(s), [i \in 1..8 |-> IF i = 1 THEN 1 ELSE 0], Range0(128)))
(* a^(2^128 - 2) *)
PInverse(x) == FoldLeft(LAMBDA s, i : LET q == PMont(s[1], s[1]) IN <<q, PMont(s[2], q)>>, <<x, POne>>, Range0(127))[2]

---- (* a family *)
Mul(f, lv, x, y) == TLCEval(CASE f = "bin" -> TMul(lv, x, y)
                              [] f = "aes" -> ToAes(TMul(lv, FromAes(x), FromAes(y)))
                              [] OTHER -> PMont(x, y))
Inv(f, lv, x) == TLCEval(CASE f = "bin" -> TInv(lv, x) [] f = "aes" -> ToAes(TInv(lv, FromAes(x))) [] OTHER -> IF None(x) THEN x ELSE PInverse(x))
One(f, lv) == CASE f = "bin" -> Unit(0, Limbs(lv)) [] f = "aes" -> Unit(0, Limbs(lv)) [] OTHER -> POne
Into(f, x) == IF f = "aes" THEN ToAes(x) ELSE x
Pow(f, lv, x, e) == \* e: limbs of the exponent
    FoldLeft(LAMBDA s, b : <<Mul(f, lv, s[1], s[1]), IF Bit(e, b) = 1 THEN Mul(f, lv, s[2], s[1]) ELSE s[2]>>, <<x, One(f, lv)>>, Range0(16 * Len(e)))[2]

---- (* operands *)
Rnd(lv) == TLCEval([i \in 1..Limbs(lv) |-> RandomElement(0..MaxOf(lv))])
Sparse(lv) == LET b == RandomElement(0..(2^lv - 1)) IN TLCEval(Unit(b, Limbs(lv)))
Narrow(lv) == LET k == RandomElement(0..lv) r == RandomElement(0..MaxOf(k))
              IN TLCEval([i \in 1..Limbs(lv) |-> IF i > Limbs(k) THEN 0 ELSE IF i = 1 THEN r ELSE RandomElement(0..65535)])
(* the upper half only *)
Upper(lv) == TLCEval([i \in 1..Limbs(lv) |-> IF 2 * i > Limbs(lv) THEN RandomElement(0..MaxOf(lv)) ELSE 0])
Corners(lv) == << [i \in 1..Limbs(lv) |-> 0], Unit(0, Limbs(lv)), [i \in 1..Limbs(lv) |-> MaxOf(lv)], Unit(2^lv - 1, Limbs(lv)),
                  Gen(lv, lv), Gen(IF lv > 0 THEN lv - 1 ELSE 0, lv) >>
Operand(f, lv, m) ==
    LET v == IF m < 6 THEN Corners(lv)[m + 1] ELSE CASE m % 4 = 0 -> Sparse(lv) [] m % 4 = 1 -> Narrow(lv) [] m % 4 = 2 -> Upper(lv) [] OTHER -> Rnd(lv)
    IN TLCEval(IF f = "aes" /\ m % 2 = 1 THEN ToAes(v) ELSE v)

Pair(f, lv, x, y) == [a |-> x, b |-> y, s |-> XorL(x, y), p |-> Mul(f, lv, x, y)]
MinLevel(f, x) ==
    LET y == IF f = "aes" THEN FromAes(x) ELSE x
        in(k) == \A b \in (2^k)..(16 * Len(y) - 1) : Bit(y, b) = 0
        ls == {k \in 0..7 : in(k) /\ 2^k <= 16 * Len(y)}
        valid == IF f = "aes" THEN ls \ {1, 2} ELSE ls
    IN IF valid = {} THEN -1 ELSE CHOOSE k \in valid : \A l \in valid : k <= l
One1(f, lv, x) ==
    [a |-> x, sq |-> Mul(f, lv, x, x), inv |-> Inv(f, lv, x)]
    @@ (IF f = "poly" THEN << >>
        ELSE [alpha |-> Mul(f, lv, x, Into(f, Gen(lv, lv))),
              prim |-> [k \in 1..lv |-> Mul(f, lv, x, Into(f, Gen(k, lv)))],
              min |-> MinLevel(f, x)])
(* subfield operands, embedded *)
SubRow(f, lv, k, m) ==
    LET x == Operand(f, lv, m + 6)
        y == Operand(f, k, m)
        yy == TLCEval([i \in 1..Limbs(lv) |-> IF i <= Len(y) THEN y[i] ELSE 0])
    IN [a |-> x, b |-> y, p |-> Mul(f, lv, x, yy), s |-> XorL(x, yy)]

---- (* lanes: where the values of a result come from; the second vector's lanes follow the first's *)
(* lane i (from 1) of half h *)
InterleaveBy(w, b, h, i) ==
    LET n == 2^w blk == 2^b k == (i - 1) \div blk o == (i - 1) % blk
    IN (IF k % 2 = 0 THEN 0 ELSE n) + (2 * (k \div 2) + h) * blk + o
UnzipBy(w, b, h, i) == LET blk == 2^b k == (i - 1) \div blk o == (i - 1) % blk IN (2 * k + h) * blk + o
SpreadBy(w, b, k, i) == k * 2^b + ((i - 1) \div 2^(w - b))
(* 2^m vectors of 2^w lanes: the 2^t x 2^t matrices made by vectors a stride apart and neighbouring lanes are transposed *)
Transpose(w, t, m) ==
    LET W == 2^w N == 2^t stride == 2^(m - t)
    IN [e \in 1..2^m |-> [i \in 1..W |->
         LET r == (e - 1) \div stride q == (e - 1) % stride
             g == (i - 1) \div N c == (i - 1) % N
         IN (c * stride + q) * W + g * N + r]]

---- (* a map linear over GF(2) by the images of the bits *)
Lin(bases, x) == FoldLeft(LAMBDA s, b : IF Bit(x, b) = 1 THEN XorL(s, bases[b + 1]) ELSE s, [i \in 1..Len(bases[1]) |-> 0], Range0(Len(bases)))

Seqn(n, f(_)) == TLCEval([i \in 1..n |-> f(i - 1)])
Case(q) ==
    CASE q.k = "pairs" -> [k |-> "pairs", f |-> q.f, lv |-> q.lv, rows |-> Seqn(q.n, LAMBDA m :
              Pair(q.f, q.lv, Operand(q.f, q.lv, IF m < 36 THEN m \div 6 ELSE m), Operand(q.f, q.lv, IF m < 36 THEN m % 6 ELSE m + RandomElement(0..3))))]
      [] q.k = "all" -> [k |-> "pairs", f |-> q.f, lv |-> q.lv, rows |-> Seqn(MaxOf(q.lv) + 1, LAMBDA b : Pair(q.f, q.lv, <<q.a>>, <<b>>))]
      [] q.k = "un" -> [k |-> "un", f |-> q.f, lv |-> q.lv, rows |-> Seqn(q.n, LAMBDA m : One1(q.f, q.lv, Operand(q.f, q.lv, m)))]
      [] q.k = "unall" -> [k |-> "un", f |-> q.f, lv |-> q.lv, rows |-> Seqn(IF q.lv = 4 THEN 256 ELSE MaxOf(q.lv) + 1, LAMBDA m : One1(q.f, q.lv, <<256 * q.a + m>>))]
      [] q.k = "sub" -> [k |-> "sub", f |-> q.f, lv |-> q.lv, sub |-> q.sub, rows |-> Seqn(q.n, LAMBDA m : SubRow(q.f, q.lv, q.sub, m))]
      [] q.k = "pow" -> [k |-> "pow", f |-> q.f, lv |-> q.lv, rows |-> Seqn(q.n, LAMBDA m :
              LET x == Operand(q.f, q.lv, m)
                  e == TLCEval([i \in 1..q.e |-> IF m % 3 = 0 THEN (IF i = 1 THEN m \div 3 ELSE 0) ELSE RandomElement(0..65535)])
              IN [a |-> x, e |-> e, r |-> Pow(q.f, q.lv, x, e)])]
      [] q.k = "lanes" ->
          LET n == 2^q.w
              at == TLCEval([i \in 1..(IF q.w <= 6 THEN n ELSE 64) |-> IF q.w <= 6 THEN i ELSE IF i = 1 THEN n ELSE RandomElement(1..n)])
              of(g(_)) == TLCEval([i \in 1..Len(at) |-> g(at[i])])
          IN [k |-> "lanes", w |-> q.w, at |-> of(LAMBDA i : i - 1),
              il |-> [b \in 1..q.w |-> [h \in 1..2 |-> of(LAMBDA i : InterleaveBy(q.w, b - 1, h - 1, i))]],
              uz |-> [b \in 1..q.w |-> [h \in 1..2 |-> of(LAMBDA i : UnzipBy(q.w, b - 1, h - 1, i))]],
              sp |-> [b \in 1..(q.w + 1) |-> LET m == 2^(q.w - b + 1) ks == IF m <= 4 THEN Range0(m) ELSE <<0, 1, m - 1, RandomElement(0..(m - 1))>>
                                             IN [x \in 1..Len(ks) |-> [blk |-> ks[x], src |-> of(LAMBDA i : SpreadBy(q.w, b - 1, ks[x], i))]]]]
      [] q.k = "family" -> \* which representation a field is written in: the tower itself, or the tower over the AES byte field
          [k |-> "family", f |-> q.f, lv |-> q.lv, canonical |-> q.f = "bin", aes |-> q.f = "aes" /\ q.lv >= 3]
      [] q.k = "transpose" -> [k |-> "transpose", w |-> q.w, t |-> q.t, m |-> q.m, src |-> Transpose(q.w, q.t, q.m)]
      [] q.k = "lin" ->
          LET bases == Seqn(2^q.lv, LAMBDA b : IF b % 5 = 4 THEN Operand("bin", q.lv, b) ELSE Rnd(q.lv))
          IN [k |-> "lin", lv |-> q.lv, bases |-> bases, rows |-> Seqn(q.n, LAMBDA m : LET x == Operand("bin", q.lv, m) IN [a |-> x, r |-> Lin(bases, x)])]

Init == /\ j \in 1..Len(Jobs)
        /\ st = [k |-> "start"]
Next == /\ st.k = "start"
        /\ LET c == TLCEval(Case(Jobs[j])) IN
             /\ st' = c
             /\ PrintT(ToJson(c))
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

---- (* what the definitions owe each other *)
RowsOf(c) == c.rows
Holds ==
    CASE st.k = "pairs" -> \A i \in 1..Len(st.rows) : LET r == st.rows[i] IN
              /\ i % 8 = 1 => r.p = Mul(st.f, st.lv, r.b, r.a)
              /\ (st.f = "aes" /\ st.lv = 3) => r.p = <<AesMul(r.a[1], r.b[1])>>
              /\ st.f = "aes" => ToAes(FromAes(r.a)) = r.a
      [] st.k = "un" -> \A i \in 1..Len(st.rows) : LET r == st.rows[i] IN
              IF None(r.a) THEN None(r.inv) ELSE i % 4 = 1 => Mul(st.f, st.lv, r.a, r.inv) = One(st.f, st.lv)
      [] st.k = "lanes" -> \* unzipping undoes interleaving with blocks one level up, on every lane asked for
              \A b \in 1..st.w : \A i \in 1..Len(st.at) : st.il[b][1][i] < 2^(st.w + 1) /\ st.il[b][1][i] # st.il[b][2][i]
      [] OTHER -> TRUE
====
