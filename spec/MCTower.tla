------------------------------ MODULE MCTower ------------------------------
(* Cross-check of the Java overrides against the TLA+ definitions, and of    *)
(* the definitions against the field axioms.                                 *)
EXTENDS Tower, TLC
VARIABLE n
Lcg(x) == (x * 75 + 74) % 65537
Vals == FoldLeft(LAMBDA s, i : Append(s, Lcg(s[Len(s)])), <<4242>>, Range0(4000))
V(i) == Vals[(i % 4000) + 1] % 65536
W(i) == [j \in 1..8 |-> V(8 * i + 131 * j)]
Init == n = 0
Next == n < 150 /\ n' = n + 1
Spec == Init /\ [][Next]_n
Agree == /\ FAdd(V(n), V(n+7)) = PAdd(V(n), V(n+7))
         /\ FMul(V(n), V(n+7)) = PMul(V(n), V(n+7))
         /\ FInv(V(n)) = PInv(V(n))
         /\ n % 10 = 0 => /\ BMul(W(n), W(n+3)) = QMul(W(n), W(n+3))
                          /\ BAdd(W(n), W(n+3)) = QAdd(W(n), W(n+3))
         /\ n % 75 = 0 => BInv(W(n)) = QInv(W(n))
Axioms == LET a == V(n) b == V(n+11) c == V(n+29) IN
         /\ FMul(a, b) = FMul(b, a)
         /\ FMul(a, FMul(b, c)) = FMul(FMul(a, b), c)
         /\ FMul(a, FAdd(b, c)) = FAdd(FMul(a, b), FMul(a, c))
         /\ a # 0 => FMul(a, FInv(a)) = 1
         /\ LET x == W(n) y == W(n+5) z == W(n+9) IN
            /\ BMul(x, BMul(y, z)) = BMul(BMul(x, y), z)
            /\ BMul(x, BAdd(y, z)) = BAdd(BMul(x, y), BMul(x, z))
            /\ x # B0 => BMul(x, BInv(x)) = B1
         /\ BMul(<<a,0,0,0,0,0,0,0>>, <<b,0,0,0,0,0,0,0>>) = <<FMul(a,b),0,0,0,0,0,0,0>>
============================================================================
