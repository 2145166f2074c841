---- MODULE Gadget ----
(* What the gadgets of the constraint builder compute, on words of the real widths: little-endian sequences of bytes. A case is a  *)
(* gadget with its options and a few rows of operands and results.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

CONSTANTS Gadgets,   (* sequence of [g, fl] *)
          Batches,   (* batches of operands per gadget *)
          Rows,      (* rows of a case *)
          Sim        (* operands beyond the fixed ones at random *)

VARIABLES gi, bi, st
vars == <<gi, bi, st>>

---- (* words *)
Zero(n) == [i \in 1..n |-> 0]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Fold(f(_, _), n) == TLCEval(FoldLeft(f, <<<<>>, 0>>, [i \in 1..n |-> i]))
(* <<word, carry>> *)
AddC(a, b, c) == FoldLeft(LAMBDA s, i : LET t == a[i] + b[i] + s[2] IN <<Append(s[1], t % 256), t \div 256>>, <<<<>>, c>>, [i \in 1..Len(a) |-> i])
SubC(a, b, c) == FoldLeft(LAMBDA s, i : LET t == a[i] - b[i] - s[2] IN <<Append(s[1], t % 256), IF t < 0 THEN 1 ELSE 0>>, <<<<>>, c>>, [i \in 1..Len(a) |-> i])
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Neg(a) == AddC(Not(a), Zero(Len(a)), 1)[1]
Sign(a) == a[Len(a)] \div 128
SExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 255 * Sign(a)]
ZExt(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
Low(a, n) == SubSeq(a, 1, n)
High(a, n) == SubSeq(a, n + 1, Len(a))
Sum(s) == FoldLeft(LAMBDA p, q : p + q, 0, s)
(* the first n bytes of a product *)
MulN(a, b, n) ==
    FoldLeft(LAMBDA s, k :
        LET t == s[2] + Sum([i \in 1..k |-> IF i <= Len(a) /\ k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0])
        IN <<Append(s[1], t % 256), t \div 256>>, <<<<>>, 0>>, [k \in 1..n |-> k])[1]
Less(a, b) == SubC(a, b, 0)[2] = 1
Bits(a) == [i \in 1..8 * Len(a) |-> (a[1 + ((i - 1) \div 8)] \div 2^((i - 1) % 8)) % 2]
Bytes(b) == [i \in 1..Len(b) \div 8 |-> Sum([j \in 1..8 |-> b[8 * (i - 1) + j] * 2^(j - 1)])]
Shift(a, d, var) ==
    LET b == Bits(a) n == Len(b) IN
    Bytes([i \in 1..n |->
        CASE var = "left" -> IF i > d THEN b[i - d] ELSE 0
          [] var = "right" -> IF i + d <= n THEN b[i + d] ELSE 0
          [] OTHER -> b[1 + ((i - 1 + n - d) % n)]])
Amount(s) == s[1] % 32
Abs(a) == IF Sign(a) = 1 THEN Neg(a) ELSE a
And(p, q) == Bytes([i \in 1..8 |-> Bits(<<p>>)[i] * Bits(<<q>>)[i]])[1]

---- (* operands *)
Fixed(n) == <<
    Zero(n), One(n), [i \in 1..n |-> 255], [i \in 1..n |-> IF i = n THEN 128 ELSE 0], [i \in 1..n |-> IF i = n THEN 127 ELSE 255],
    [i \in 1..n |-> IF i = 1 THEN 2 ELSE 0], [i \in 1..n |-> IF i = 1 THEN 254 ELSE 255], [i \in 1..n |-> IF i = 1 THEN 3 ELSE 0],
    [i \in 1..n |-> IF 2 * i > n THEN 0 ELSE 255], [i \in 1..n |-> IF 2 * i > n THEN 255 ELSE 0], [i \in 1..n |-> 85], [i \in 1..n |-> 170],
    [i \in 1..n |-> IF i = 1 THEN 6 ELSE 0], [i \in 1..n |-> IF 2 * i = n + 2 THEN 1 ELSE 0], [i \in 1..n |-> 17 * i], [i \in 1..n |-> (93 * i + 41) % 256]>>
NF == 16
Rnd(n) == [i \in 1..n |-> RandomElement(0..255)]
(* mostly zero, or mostly ones: long carries *)
Rnd2(n) == LET m == RandomElement(0..3) p == RandomElement(1..n) e == RandomElement(0..255)
           IN TLCEval([i \in 1..n |-> IF i = p THEN e ELSE CASE m = 0 -> 0 [] m = 1 -> 255 [] m = 2 -> IF i < p THEN 255 ELSE 0 [] OTHER -> IF i < p THEN 0 ELSE 255])
(* operand j of row number m (from 0): all pairs of fixed words, then random ones *)
Word(n, m, j) ==
    IF m < NF * NF
    THEN Fixed(n)[1 + (IF j = 1 THEN m \div NF ELSE (m + (m \div NF)) % NF)]
    ELSE TLCEval(IF m % 2 = 0 THEN Rnd(n) ELSE Rnd2(n))
Carry(m) == IF m < NF * NF THEN (m \div 3) % 2 ELSE RandomElement(0..1)
Has(fl, s) == \E i \in 1..Len(fl) : fl[i] = s

(* division: a quotient and a remainder give the dividend *)
DivRow(m) ==
    LET q0 == Word(4, m, 1)
        d0 == Word(4, m, 2)
        q == IF q0 = Zero(4) THEN One(4) ELSE q0
        fit == High(MulN(q, d0, 8), 4) = Zero(4)
        d == IF fit THEN d0 ELSE <<d0[1], 0, 0, 0>>
        d2 == IF High(MulN(q, d, 8), 4) = Zero(4) THEN d ELSE Zero(4)
        p0 == Low(MulN(q, d2, 8), 4)
        r0 == IF m % 4 = 0 THEN Zero(4) ELSE IF m % 4 = 1 THEN SubC(q, One(4), 0)[1] ELSE IF m % 4 = 2 THEN One(4) ELSE <<d0[3], d0[1], 0, 0>>
        r == IF Less(r0, q) /\ AddC(p0, r0, 0)[2] = 0 THEN r0 ELSE Zero(4)
    IN TLCEval([p |-> AddC(p0, r, 0)[1], q |-> q, d |-> d2, r |-> r])
(* signed: magnitudes below 2^31 (the dividend's may reach it), signs apart; never -2^31 / -1 *)
SDivRow(m) ==
    LET t == DivRow(m)
        big(v) == Sign(v) = 1
        ok == ~big(t.p) /\ ~big(t.q)
        u == IF ok THEN t ELSE [p |-> Low(AddC(MulN(<<t.q[1], t.q[2] % 64, 0, 0>>, <<t.d[1], 0, 0, 0>>, 4), Zero(4), 0)[1], 4),
                                q |-> <<t.q[1], t.q[2] % 64, 0, 0>>, d |-> <<t.d[1], 0, 0, 0>>, r |-> Zero(4)]
        v == IF u.q = Zero(4) THEN [p |-> <<7, 0, 0, 0>>, q |-> <<2, 0, 0, 0>>, d |-> <<3, 0, 0, 0>>, r |-> <<1, 0, 0, 0>>] ELSE u
        sp == (m \div 2) % 2
        sq == (m \div 5) % 2
    IN TLCEval([p |-> IF sp = 1 THEN Neg(v.p) ELSE v.p, q |-> IF sq = 1 THEN Neg(v.q) ELSE v.q,
                d |-> IF sp # sq THEN Neg(v.d) ELSE v.d, r |-> IF sp = 1 THEN Neg(v.r) ELSE v.r])
(* extremes of signed division *)
Min4 == <<0, 0, 0, 128>>
SDivFixed == <<
    [p |-> Min4, q |-> One(4), d |-> Min4, r |-> Zero(4)], [p |-> Min4, q |-> Min4, d |-> One(4), r |-> Zero(4)],
    [p |-> One(4), q |-> Min4, d |-> Zero(4), r |-> One(4)], [p |-> Neg(One(4)), q |-> Min4, d |-> Zero(4), r |-> Neg(One(4))],
    [p |-> Min4, q |-> Not(Min4), d |-> Neg(One(4)), r |-> Neg(One(4))], [p |-> Not(Min4), q |-> Min4, d |-> Zero(4), r |-> Not(Min4)],
    [p |-> Zero(4), q |-> Neg(One(4)), d |-> Zero(4), r |-> Zero(4)], [p |-> Neg(<<4, 0, 0, 0>>), q |-> <<2, 0, 0, 0>>, d |-> Neg(<<2, 0, 0, 0>>), r |-> Zero(4)]>>

Lanes(v, f(_)) == FoldLeft(LAMBDA s, i : s \o f(i), <<>>, [i \in 1..Len(v) \div 4 |-> i])
Lane(v, i) == SubSeq(v, 4 * i - 3, 4 * i)

Row(g, fl, m) ==
    LET W == IF Has(fl, "64") THEN 8 ELSE 4
        cin == IF Has(fl, "c") THEN Carry(m) ELSE 0
        ci == IF Has(fl, "c") THEN <<<<cin, 0, 0, 0>>>> ELSE <<>>
    IN
    CASE g = "u32add" ->
            LET a == Word(4, m, 1) b == Word(4, m, 2) s == AddC(a, b, cin)
            IN [in |-> <<a, b>> \o ci, out |-> <<s[1]>> \o (IF Has(fl, "f") THEN <<<<s[2]>>>> ELSE <<>>)]
      [] g = "u32sub" ->
            LET a == Word(4, m, 1) b == Word(4, m, 2) s == SubC(a, b, cin)
            IN [in |-> <<a, b>> \o ci, out |-> <<s[1]>> \o (IF Has(fl, "f") THEN <<<<s[2]>>>> ELSE <<>>)]
      [] g = "stack" ->
            LET n == IF Has(fl, "128") THEN 16 ELSE IF Has(fl, "64") THEN 8 ELSE 4
                a == Word(n, m, 1) b == Word(n, m, 2)
                cs == [i \in 1..n \div 4 |-> IF Has(fl, "c") THEN (m + i) % 2 ELSE 0]
            IN [in |-> <<a, b>> \o (IF Has(fl, "c") THEN <<Lanes(a, LAMBDA i : <<cs[i], 0, 0, 0>>)>> ELSE <<>>),
                out |-> <<Lanes(a, LAMBDA i : AddC(Lane(a, i), Lane(b, i), cs[i])[1])>>]
      [] g = "wadd" ->
            LET a == Word(W, m, 1) b == Word(W, m, 2) s == AddC(a, b, cin)
            IN [in |-> <<a, b>> \o ci, out |-> <<s[1], <<s[2]>>>>]
      [] g = "wsub" ->
            LET a == Word(W, m, 1) b == Word(W, m, 2) s == SubC(a, b, cin)
            IN [in |-> <<a, b>> \o ci, out |-> <<s[1]>> \o (IF Has(fl, "f") THEN <<<<s[2]>>>> ELSE <<>>)]
      [] g = "incr" -> LET a == Word(W, m, 2) s == AddC(a, Zero(W), 1) IN [in |-> <<a>>, out |-> <<s[1], <<s[2]>>>>]
      [] g = "twos" -> LET a == Word(W, m, 2) IN [in |-> <<a>>, out |-> <<Neg(a)>>]
      [] g = "sconv" -> LET a == Word(W, m, 2) k == Carry(m) IN [in |-> <<a, <<k>>>>, out |-> <<IF k = 1 THEN Neg(a) ELSE a>>]
      [] g = "barrel" ->
            LET a == Word(4, m, 1)
                s == IF m < NF * NF THEN <<(m * 7 + (m \div 32)) % 256, (m * 3) % 256>> ELSE TLCEval(Rnd(2))
            IN [in |-> <<a, s>>, out |-> <<Shift(a, Amount(s), fl[1])>>]
      [] g \in {"mul", "mulw"} ->
            LET a == Word(W, m, 1) b == Word(W, m, 2) p == MulN(a, b, 2 * W) IN [in |-> <<a, b>>, out |-> <<Low(p, W), High(p, W)>>]
      [] g = "mulss" ->
            LET a == Word(4, m, 1) b == Word(4, m, 2) p == MulN(SExt(a, 8), SExt(b, 8), 8) IN [in |-> <<a, b>>, out |-> <<Low(p, 4), High(p, 4)>>]
      [] g = "mulsu" ->
            LET a == Word(4, m, 1) b == Word(4, m, 2) p == MulN(SExt(a, 8), ZExt(b, 8), 8) IN [in |-> <<a, b>>, out |-> <<Low(p, 4), High(p, 4)>>]
      [] g = "div" -> LET t == DivRow(m) IN [in |-> <<t.p, t.q>>, out |-> <<t.d, t.r>>]
      [] g = "sdiv" ->
            LET t == IF m < Len(SDivFixed) THEN SDivFixed[m + 1] ELSE SDivRow(m) IN [in |-> <<t.p, t.q>>, out |-> <<t.d, t.r>>]
      [] g = "and" ->
            LET n == IF Has(fl, "4") THEN 4 ELSE 1
                a == Word(n, m, 1) b == Word(n, m, 2)
            IN [in |-> <<a, b>>, out |-> <<[i \in 1..n |-> And(a[i], b[i])]>>]
      [] g = "incrlk" ->
            LET a == Word(1, m, 1) k == Carry(m) s == AddC(a, <<k>>, 0) IN [in |-> <<a, <<k>>>>, out |-> <<s[1], <<s[2]>>>>]

---- (* the relations the rows must be in, said a second way *)
Holds(g, fl, r) ==
    CASE g \in {"u32sub", "wsub"} /\ ~Has(fl, "c") -> AddC(r.out[1], r.in[2], 0)[1] = r.in[1]
      [] g = "div" -> r.in[2] # Zero(4) /\ Less(r.out[2], r.in[2]) /\ AddC(MulN(r.in[2], r.out[1], 8), ZExt(r.out[2], 8), 0) = <<ZExt(r.in[1], 8), 0>>
      [] g = "sdiv" ->
            /\ r.in[2] # Zero(4) /\ ~(r.in[1] = Min4 /\ r.in[2] = Neg(One(4)))
            /\ Less(Abs(r.out[2]), Abs(r.in[2]))
            /\ AddC(MulN(SExt(r.in[2], 8), SExt(r.out[1], 8), 8), SExt(r.out[2], 8), 0)[1] = SExt(r.in[1], 8)
            /\ r.out[2] = Zero(4) \/ Sign(r.out[2]) = Sign(r.in[1])
      [] g \in {"twos"} -> AddC(r.in[1], r.out[1], 0)[1] = Zero(Len(r.in[1]))
      [] g = "mulss" -> MulN(SExt(r.in[2], 8), SExt(r.in[1], 8), 8) = r.out[1] \o r.out[2]
      [] OTHER -> TRUE

Init ==
    /\ gi \in 1..Len(Gadgets)
    /\ bi \in 0..Batches - 1
    /\ st = [ph |-> "new"]
(* fixed operands are spread over the batches: batch b takes numbers b*Step.. so that a few batches already meet many kinds *)
Number(b, i) == IF Sim THEN NF * NF + b * Rows + i ELSE (b * Rows + i) % (NF * NF)
Take ==
    /\ st.ph = "new"
    /\ LET d == Gadgets[gi]
           rows == TLCEval([i \in 1..Rows |-> Row(d.g, d.fl, Number(bi, i - 1))])
       IN
       /\ st' = [ph |-> "done", g |-> d.g, fl |-> d.fl, rows |-> rows]
       /\ PrintT(ToJson([g |-> d.g, fl |-> d.fl, rows |-> rows]))
    /\ UNCHANGED <<gi, bi>>
Next == Take
Spec == Init /\ [][Next]_vars
RowsHold == st.ph = "done" => \A i \in 1..Len(st.rows) : Holds(st.g, st.fl, st.rows[i])
====
