------------------------------- MODULE Tower -------------------------------
(***************************************************************************)
(* The binary tower field B1 < B2 < B4 < B8 < B16 (< ... < B128) that all of *)
(* binius computes in, given by its recursive definition                    *)
(*     B(k+1) = B(k)[X] / (X^2 + X*alpha(k) + 1),                            *)
(* where alpha(k) is the generator of B(k) over B(k-1) and alpha(0) = 1.     *)
(* An element of B16 (and so of every subfield) is an integer 0..65535; an   *)
(* element of B128 is a tuple of eight 16-bit limbs, least significant       *)
(* first.  A subfield is embedded in the larger field by zero extension.     *)
(*                                                                           *)
(* java/Tower.java overrides FAdd, FMul, FInv, BAdd, BMul, BInv for speed;   *)
(* MCTower.tla checks the overrides against the definitions below, and TLC   *)
(* falls back to the definitions when the class is not on its class path.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Range0(n) == [i \in 1..n |-> i - 1]        \* <<0, 1, ..., n-1>>

(* ---- recursive definition, on integers of 2^k bits, k <= 4 ------------- *)
RECURSIVE AlphaR(_, _), MulR(_, _, _)
AlphaR(k, a) ==                              \* multiplication by alpha(k)
  IF k = 0 THEN a
  ELSE LET h == 2^(2^(k-1))  a0 == a % h  a1 == a \div h
       IN  a1 + h * (a0 ^^ AlphaR(k-1, a1))
MulR(k, a, b) ==
  IF a = 0 \/ b = 0 THEN 0 ELSE IF k = 0 THEN 1
  ELSE LET h == 2^(2^(k-1))
           a0 == a % h  a1 == a \div h  b0 == b % h  b1 == b \div h
           z0 == MulR(k-1, a0, b0)  z2 == MulR(k-1, a1, b1)
           z1 == MulR(k-1, a0 ^^ a1, b0 ^^ b1) ^^ (z0 ^^ z2)
       IN  (z0 ^^ z2) + h * (z1 ^^ AlphaR(k-1, z2))

PAdd(a, b) == a ^^ b
PMul(a, b) == MulR(4, a, b)
PInv(a) == \* a^(2^16-2), and 0 for 0
  LET Step(st, i) == LET s == PMul(st[1], st[1]) IN <<s, PMul(st[2], s)>>
  IN  FoldLeft(Step, <<a, 1>>, Range0(15))[2]

(* ---- the same on tuples of limbs --------------------------------------- *)
Lo(s) == SubSeq(s, 1, Len(s) \div 2)
Hi(s) == SubSeq(s, Len(s) \div 2 + 1, Len(s))
VXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
RECURSIVE AlphaV(_), MulV(_, _)
AlphaV(a) == IF Len(a) = 1 THEN <<AlphaR(4, a[1])>>
             ELSE Hi(a) \o VXor(Lo(a), AlphaV(Hi(a)))
MulV(a, b) ==
  IF Len(a) = 1 THEN <<PMul(a[1], b[1])>>
  ELSE LET z0 == MulV(Lo(a), Lo(b))  z2 == MulV(Hi(a), Hi(b))
           z1 == VXor(MulV(VXor(Lo(a), Hi(a)), VXor(Lo(b), Hi(b))), VXor(z0, z2))
       IN  VXor(z0, z2) \o VXor(z1, AlphaV(z2))
QAdd(a, b) == VXor(a, b)
QMul(a, b) == MulV(a, b)
QInv(a) == \* a^(2^128-2)
  LET one == <<1, 0, 0, 0, 0, 0, 0, 0>>
      Step(st, i) == LET s == QMul(st[1], st[1]) IN <<s, QMul(st[2], s)>>
  IN  FoldLeft(Step, <<a, one>>, Range0(127))[2]

(* ---- the operators the rest of the specification uses ------------------ *)
FAdd(a, b) == PAdd(a, b)
FMul(a, b) == PMul(a, b)
FInv(a)    == PInv(a)
BAdd(a, b) == QAdd(a, b)
BMul(a, b) == QMul(a, b)
BInv(a)    == QInv(a)

F0 == 0
F1 == 1
B0 == <<0, 0, 0, 0, 0, 0, 0, 0>>
B1 == <<1, 0, 0, 0, 0, 0, 0, 0>>
FDiv(a, b) == FMul(a, FInv(b))
FSum(s)  == FoldLeft(FAdd, 0, s)
FProd(s) == FoldLeft(FMul, 1, s)
FDot(a, b) == FoldLeft(LAMBDA acc, i : FAdd(acc, FMul(a[i+1], b[i+1])), 0, Range0(Len(a)))
FPow(a, n) == \* square and multiply, n < 2^24
  LET Step(st, i) == <<FMul(st[1], st[1]),
                       IF (n \div 2^i) % 2 = 1 THEN FMul(st[2], st[1]) ELSE st[2]>>
  IN  FoldLeft(Step, <<a, 1>>, Range0(24))[2]
FPowers(a, n) == \* <<1, a, ..., a^(n-1)>>
  FoldLeft(LAMBDA s, i : Append(s, IF i = 0 THEN 1 ELSE FMul(s[i], a)), <<>>, Range0(n))
============================================================================
