---- MODULE GadgetRules ----
(* The constraints of the arithmetic gadgets, over words of W bits. A prover that does not follow the populating code picks every  *)
(* committed bit as it likes, one after the other, as long as each constraint of the gadget that is already complete holds. The    *)
(* invariants say what the finished row then computes: with the inputs fixed, the outputs are the intended ones, and a row exists  *)
(* (Complete). Exponentiation gadgets are seen through the exponents, modulo the order of the generator.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W,      (* bits of a word *)
          Drop    (* constraints left out: {} in the real gadgets; used to see that each is needed *)

VARIABLES op, x, y, k, c, z, done

vars == <<op, x, y, k, c, z, done>>

N == 2^W
Bit(v, i) == (v \div 2^i) % 2
Xor(a, b) == (a + b) % 2
Ops == {"add", "sub", "incr", "twos", "left", "right", "rot", "mul", "div", "sdiv"}

(* z: the bits of the word built so far, as an integer; c: the carries, oldest first *)
Init ==
    /\ op \in Ops
    /\ x \in 0..N - 1
    /\ y \in 0..N - 1
    /\ k = 0
    /\ c = IF op \in {"incr", "twos"} THEN <<1>> ELSE <<0>>
    /\ z = 0
    /\ done = FALSE

Cur == c[Len(c)]
Xi == IF op = "twos" THEN 1 - Bit(x, k) ELSE Bit(x, k)
Yi == IF op \in {"incr", "twos"} THEN 0 ELSE Bit(y, k)
Mul(a, b) == a * b
CarryOk(co) ==
    CASE op = "add" -> Xor(Xor(Mul(Xor(Xi, Cur), Xor(Yi, Cur)), Cur), co) = 0
      [] op = "sub" -> Xor(Xor(Mul(Xor(Cur, Xor(Xi, 1)), Xor(Cur, Yi)), Cur), co) = 0
      [] OTHER -> Xor(Mul(Xi, Cur), co) = 0
Chain ==
    /\ op \in {"add", "sub", "incr", "twos"} /\ ~done
    /\ \E zi \in 0..1, co \in 0..1 :
        /\ ("sum" \in Drop) \/ Xor(Xor(Xor(Xi, Yi), Cur), zi) = 0
        /\ ("carry" \in Drop) \/ CarryOk(co)
        /\ z' = z + zi * 2^k
        /\ c' = Append(c, co)
    /\ k' = k + 1
    /\ done' = (k + 1 = W)
    /\ UNCHANGED <<op, x, y>>

(* barrel shifter: k-th stage shifts by 2^k if bit k of the amount is set; z holds the stage's word *)
LW == CHOOSE m \in 0..W : 2^m = W
Sh(v, d) ==
    CASE op = "left" -> (v * 2^d) % N
      [] op = "right" -> v \div 2^d
      [] OTHER -> ((v * 2^d) % N) + (v \div 2^(W - d))
Stage ==
    /\ op \in {"left", "right", "rot"} /\ ~done
    /\ LET cur == IF k = 0 THEN x ELSE z IN
       \E v \in 0..N - 1 :
        /\ ("stage" \in Drop) \/ v = IF Bit(y, k) = 1 THEN Sh(cur, 2^k) ELSE cur
        /\ z' = v
    /\ k' = k + 1
    /\ done' = (k + 1 = LW)
    /\ UNCHANGED <<op, x, y, c>>

(* products and quotients; c is the committed result, picked in one go *)
Ord == N * N - 1
MulOk(a, b, v) ==
    /\ ("exp" \in Drop) \/ (a * b) % Ord = v % Ord
    /\ ("order" \in Drop) \/ Bit(a, 0) * Bit(b, 0) = Bit(v, 0)
Product ==
    /\ op = "mul" /\ ~done
    /\ \E v \in 0..N * N - 1 : MulOk(x, y, v) /\ z' = v
    /\ done' = TRUE
    /\ UNCHANGED <<op, x, y, k, c>>
Quotient ==
    /\ op = "div" /\ ~done /\ y # 0
    /\ \E q \in 0..N - 1, r \in 0..N - 1 :
        /\ \E v \in 0..N * N - 1 : MulOk(y, q, v) /\ (v + r) % (N * N) = x
        /\ ("less" \in Drop) \/ r < y
        /\ z' = q /\ c' = <<r>>
    /\ done' = TRUE
    /\ UNCHANGED <<op, x, y, k>>
(* signed words *)
S(v) == IF v < N \div 2 THEN v ELSE v - N
U(v) == (v + N) % N
Abs(v) == IF v < 0 THEN -v ELSE v
SDivable == y # 0 /\ ~(S(x) = -(N \div 2) /\ S(y) = -1)
SQuotient ==
    /\ op = "sdiv" /\ ~done /\ SDivable
    /\ \E q \in 0..N - 1, r \in 0..N - 1 :
        /\ (S(y) * S(q) + S(r) - S(x)) % (N * N) = 0
        /\ ("sign" \in Drop) \/ (IF "eqsign" \in Drop THEN Bit(r, W - 1) = Bit(x, W - 1) ELSE r = 0 \/ Bit(r, W - 1) = Bit(x, W - 1))
        /\ ("less" \in Drop) \/ Abs(S(r)) < Abs(S(y))
        /\ z' = q /\ c' = <<r>>
    /\ done' = TRUE
    /\ UNCHANGED <<op, x, y, k>>

Next == Chain \/ Stage \/ Product \/ Quotient \/ SQuotient
Spec == Init /\ [][Next]_vars

TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Sound == done =>
    CASE op = "add" -> z = (x + y) % N /\ Cur = (x + y) \div N
      [] op = "sub" -> z = (x - y + N) % N /\ Cur = (IF x < y THEN 1 ELSE 0)
      [] op = "incr" -> z = (x + 1) % N /\ Cur = (IF x = N - 1 THEN 1 ELSE 0)
      [] op = "twos" -> z = (N - x) % N
      [] op \in {"left", "right"} -> z = Sh(x, y % W)
      [] op = "rot" -> z = (IF y % W = 0 THEN x ELSE Sh(x, y % W))
      [] op = "mul" -> z = x * y
      [] op = "div" -> z = x \div y /\ c = <<x % y>>
      [] op = "sdiv" -> S(z) = TruncDiv(S(x), S(y)) /\ S(c[1]) = S(x) - S(y) * S(z)
(* a row exists: from every unfinished state whose bits follow the constraints a step is possible *)
Complete == (~done /\ (op = "div" => y # 0) /\ (op = "sdiv" => SDivable)) => ENABLED Next
====
