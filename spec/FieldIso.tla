---- MODULE FieldIso ----
(* The conversions between the 128-bit fields, recorded from the code as the images of single bits: linear maps, so field isomorphisms as   *)
(* soon as they take the generators to elements with the same relations and products of generators to products of their images.              *)
EXTENDS Field
CONSTANT TraceFile
Rec == ndJsonDeserialize(TraceFile)[1]
VARIABLE i
ivars == <<i, j, st>>
IsoInit == i = 0 /\ j = 0 /\ st = [k |-> "iso"]
IsoNext == i < 128 /\ i' = i + 1 /\ UNCHANGED <<j, st>>
IsoSpec == IsoInit /\ [][IsoNext]_ivars
E0(b) == Unit(b, 8)
F(b) == Rec.bin2poly[b + 1]
G(k) == IF k = 0 THEN POne ELSE F(2^(k - 1))
Apply(m, x) == Lin(m, x)
(* the bit products: bit b is the product of the generators of its binary digits *)
Product(b) == FoldLeft(LAMBDA s, k : IF (b \div 2^k) % 2 = 1 THEN PMont(s, G(k + 1)) ELSE s, POne, Range0(7))
Isomorphic ==
    /\ i < 128 =>
        /\ F(i) = Product(i)
        /\ Apply(Rec.poly2bin, F(i)) = E0(i)
        /\ Apply(Rec.aes2poly, ToAes(E0(i))) = F(i)
        /\ Apply(Rec.poly2aes, F(i)) = ToAes(E0(i))
        /\ Apply(Rec.bin2aes, E0(i)) = ToAes(E0(i))
        /\ Apply(Rec.aes2bin, ToAes(E0(i))) = E0(i)
    /\ i \in 1..7 => XorL(XorL(PMont(G(i), G(i)), PMont(G(i), G(i - 1))), POne) = [x \in 1..8 |-> 0]
====
