------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Serialization as a prefix code: types are trees, Enc gives the bytes of a *)
(* value, Dec reads a value back from a position.  Multi-byte numbers are    *)
(* sequences of bytes, least significant first.  A field element's value is   *)
(* its canonical (tower) bytes; a representation may write others in native    *)
(* mode.  Dec is "ok", "bad" (has to be refused) or "any" (a value no           *)
(* constructor makes: refusing it is allowed, as is accepting it).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Json
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>

Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
\* ---- types ----
Bytes(n) == [t |-> "int", n |-> n]
Size(lo, hi) == [t |-> "usize", lo |-> lo, hi |-> hi]
Usize == Size(0, 0)
Bool == [t |-> "bool"]
Small(m) == [t |-> "small", m |-> m]
Fld(rep, n) == [t |-> "fld", rep |-> rep, n |-> n]
Str == [t |-> "str"]
Raw(n) == [t |-> "raw", n |-> n]
Vec(e) == [t |-> "vec", e |-> e]
Opt(e) == [t |-> "opt", e |-> e]
Tup(es) == [t |-> "tup", es |-> es, chk |-> "none"]
Chk(es, c) == [t |-> "tup", es |-> es, chk |-> c]
Enum(vs) == [t |-> "enum", vs |-> vs]
Circ(f) == [t |-> "circ", f |-> f]
Pow2(e) == [t |-> "pow2", e |-> e]
Dyn(ns) == [t |-> "dyn", ns |-> ns]
Nothing == [t |-> "none"]

B1 == Small(2)
B128 == Fld("bin", 16)
Step(f) == Enum(<< <<Usize, Usize>>, <<Usize, Usize>>, <<Usize, Bytes(8)>>, <<f>>, <<Usize>> >>)
C128 == Circ(B128)
Oid == Usize
Text(s) == s
\* names as bytes
NTowerBasis == <<84, 111, 119, 101, 114, 66, 97, 115, 105, 115>>
NPowers == <<80, 111, 119, 101, 114, 115>>
NStepDown == <<83, 116, 101, 112, 68, 111, 119, 110>>
NStepUp == <<83, 116, 101, 112, 85, 112>>
NConstant == <<67, 111, 110, 115, 116, 97, 110, 116>>
NSelectRow == <<83, 101, 108, 101, 99, 116, 82, 111, 119>>
NMle == <<77, 117, 108, 116, 105, 108, 105, 110, 101, 97, 114, 69, 120, 116, 101, 110, 115, 105, 111, 110, 84, 114, 97, 110, 115, 112, 97, 114, 101, 110, 116>>
NCircuit == <<65, 114, 105, 116, 104, 67, 105, 114, 99, 117, 105, 116>>
Poly == Dyn(<< [n |-> NTowerBasis, e |-> Chk(<<Size(0, 4), Size(0, 4)>>, "basis")],
               [n |-> NPowers, e |-> Tup(<<Size(0, 6), B128>>)],
               [n |-> NStepDown, e |-> Chk(<<Size(3, 6), Size(0, 9)>>, "step")],
               [n |-> NStepUp, e |-> Chk(<<Size(3, 6), Size(0, 9)>>, "step")],
               [n |-> NConstant, e |-> Chk(<<Size(0, 6), B128, Size(7, 8)>>, "const")],
               [n |-> NSelectRow, e |-> Chk(<<Size(3, 6), Size(0, 8)>>, "row")],
               [n |-> NMle, e |-> Pow2(B128)],
               [n |-> NCircuit, e |-> C128] >>)
Dir == Enum(<< <<>>, <<>> >>)
OrConst == Enum(<< <<Oid>>, <<B128, Usize>> >>)
Flush == Tup(<<Usize, Usize, Vec(OrConst), Usize, Dir, Vec(Oid), Bytes(8)>>)
Boundary == Tup(<<Vec(B128), Usize, Dir, Bytes(8)>>)
Pred == Enum(<< <<B128>>, <<>> >>)
Constraint == Tup(<<Str, C128, Pred>>)
CSet == Tup(<<Usize, Usize, Vec(Oid), Vec(Constraint)>>)
Sized == Tup(<<Usize, Vec(Oid), Vec(Constraint)>>)
Exp == Tup(<<Vec(Oid), OrConst, Oid>>)
SizeSpec == Enum(<< <<>>, <<>>, <<Usize>> >>)
Shift == Enum(<< <<>>, <<>>, <<>> >>)
Proj == Enum(<< <<Usize>>, <<>> >>)
SymVariant == Enum(<< <<>>, <<Poly>>, <<C128>>, <<Oid>>, <<Oid, Vec(B128), Proj>>, <<Oid, Usize, Usize, Shift>>, <<Oid, Usize>>,
                      <<B128, Vec(Tup(<<Oid, B128>>))>>, <<Oid, Usize, Usize, Usize>>, <<Vec(Oid), C128>> >>)
SymOracle == Tup(<<Oid, Opt(Str), Usize, Usize, Usize, SymVariant>>)
System == Tup(<<Vec(SymOracle), Vec(CSet), Vec(Oid), Vec(Flush), Vec(Exp), Usize, Vec(SizeSpec)>>)
\* the circuit of a composite is kept simplified, so only circuits that are simple already are made
CPoly == [t |-> "cpoly"]
PolyVariant == Enum(<< <<>>, <<Poly>>, <<C128>>, <<Oid, Usize>>, <<Oid, Vec(B128), Usize>>, <<Oid, Usize, Usize, Shift>>, <<Oid, Usize>>,
                       <<Usize, B128, Vec(Tup(<<Oid, B128>>))>>, <<Oid, Usize, Usize, Usize>>, <<Usize, Vec(Oid), CPoly>> >>)
PolyOracle == Tup(<<Oid, Opt(Str), Usize, Usize, PolyVariant>>)
OracleSet == Tup(<<Vec(Opt(PolyOracle)), Usize>>)

TypeOf(n) == CASE n = "u8" -> Bytes(1) [] n = "u16" -> Bytes(2) [] n = "u32" -> Bytes(4) [] n = "u64" -> Bytes(8) [] n = "u128" -> Bytes(16)
  [] n = "usize" -> Usize [] n = "usizebig" -> Size(-1, -1) [] n = "bool" -> Bool [] n = "str" -> Str [] n = "b1" -> B1 [] n = "b2" -> Small(4) [] n = "b4" -> Small(16)
  [] n = "b8" -> Fld("bin", 1) [] n = "b16" -> Fld("bin", 2) [] n = "b32" -> Fld("bin", 4) [] n = "b64" -> Fld("bin", 8) [] n = "b128" -> B128
  [] n = "a8" -> Fld("aes", 1) [] n = "a16" -> Fld("aes", 2) [] n = "a32" -> Fld("aes", 4) [] n = "a64" -> Fld("aes", 8) [] n = "a128" -> Fld("aes", 16)
  [] n = "pv" -> Fld("poly", 16)
  [] n = "arr32" -> Raw(32) [] n = "arr1" -> Raw(1)
  [] n = "p8" -> Raw(1) [] n = "p16" -> Raw(2) [] n = "p32" -> Raw(4) [] n = "p64" -> Raw(8) [] n = "p128" -> Raw(16) [] n = "p256" -> Raw(32) [] n = "p512" -> Raw(64)
  [] n = "v_b8" -> Vec(Fld("bin", 1)) [] n = "v_a16" -> Vec(Fld("aes", 2)) [] n = "v_v_u16" -> Vec(Vec(Bytes(2))) [] n = "v_b1" -> Vec(B1)
  [] n = "o_b32" -> Opt(Fld("bin", 4)) [] n = "o_str" -> Opt(Str) [] n = "o_v_bool" -> Opt(Vec(Bool)) [] n = "o_o_u8" -> Opt(Opt(Bytes(1)))
  [] n = "t_u8_str" -> Tup(<<Bytes(1), Str>>) [] n = "v_t" -> Vec(Tup(<<Usize, B128>>)) [] n = "v_str" -> Vec(Str) [] n = "t_nested" -> Tup(<<Tup(<<Bool, Opt(Bytes(4))>>), Vec(Opt(Bytes(2)))>>)
  [] n = "phantom" -> Nothing
  [] n = "oid" -> Oid [] n = "oidbig" -> Size(-1, -1) [] n = "step_b8" -> Step(Fld("bin", 1)) [] n = "circ_b128" -> C128 [] n = "circ_b8" -> Circ(Fld("bin", 1)) [] n = "circ_a128" -> Circ(Fld("aes", 16))
  [] n = "cpoly" -> CPoly
  [] n = "dir" -> Dir [] n = "orconst" -> OrConst [] n = "flush" -> Flush [] n = "boundary" -> Boundary [] n = "pred" -> Pred [] n = "constraint" -> Constraint
  [] n = "cset" -> CSet [] n = "sized" -> Sized [] n = "exp" -> Exp [] n = "sizespec" -> SizeSpec [] n = "shift" -> Shift [] n = "proj" -> Proj
  [] n = "poly" -> Poly [] n = "symvariant" -> SymVariant [] n = "symoracle" -> SymOracle [] n = "system" -> System
  [] n = "polyvariant" -> PolyVariant [] n = "polyoracle" -> PolyOracle [] n = "oracleset" -> OracleSet

\* ---- field representations ----
Bit(x, i) == (x \div 2^i) % 2
Image(cols, x) == FoldLeft(LAMBDA a, i : IF Bit(x, i - 1) = 1 THEN a ^^ cols[i] ELSE a, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
ToAes8 == TLCEval([a \in 0..255 |-> Image(<<1, 188, 176, 236, 211, 141, 46, 88>>, a)])
FromAes8 == TLCEval([a \in 0..255 |-> Image(<<1, 60, 140, 138, 89, 122, 83, 39>>, a)])
Out(rep, mode, v) == IF rep = "aes" /\ mode = "native" THEN [i \in 1..Len(v) |-> ToAes8[v[i]]] ELSE v
In(rep, mode, v) == IF rep = "aes" /\ mode = "native" THEN [i \in 1..Len(v) |-> FromAes8[v[i]]] ELSE v

\* ---- values ----
Le4(x) == <<x % 256, (x \div 256) % 256, 0, 0>>
Le8(x) == Le4(x) \o <<0, 0, 0, 0>>
Texts == << <<>>, <<97>>, <<120, 48, 95>>, <<195, 169>>, <<226, 130, 172, 33>>, <<240, 159, 166, 128>>, <<0>>, <<32, 10, 127>>, <<206, 178, 49, 206, 179>> >>
RandBytes(n, s) == LET k == H(s, 99) % 6 IN [i \in 1..n |-> IF k = 0 THEN 0 ELSE IF k = 1 THEN 255 ELSE IF k = 2 /\ i > 1 THEN 0 ELSE H(s, i) % 256]
SimpleCircuits == << << [v |-> 4, a |-> <<Le8(0)>>] >>,
                     << [v |-> 4, a |-> <<Le8(0)>>], [v |-> 4, a |-> <<Le8(1)>>], [v |-> 1, a |-> <<Le8(0), Le8(1)>>] >>,
                     << [v |-> 4, a |-> <<Le8(1)>>], [v |-> 4, a |-> <<Le8(0)>>], [v |-> 0, a |-> <<Le8(0), Le8(1)>>], [v |-> 4, a |-> <<Le8(2)>>], [v |-> 1, a |-> <<Le8(2), Le8(3)>>] >> >>
RECURSIVE Gen(_, _)
Gen(T, s) ==
  CASE T.t \in {"int", "fld", "raw"} -> RandBytes(T.n, s)
    [] T.t = "usize" -> IF T.lo = -1 THEN (LET b == RandBytes(8, s) IN IF H(s, 3) % 2 = 0 THEN [b EXCEPT ![5 + (s % 4)] = 1 + (s % 255)] ELSE <<255, 255, 255, 255, 0, 0, 0, 0>>)
                        ELSE IF T.hi > T.lo THEN Le8(T.lo + (H(s, 1) % (T.hi - T.lo)))
                        ELSE IF H(s, 2) % 4 = 0 THEN RandBytes(4, s) \o <<0, 0, 0, 0>> ELSE Le8(H(s, 4) % 40)
    [] T.t = "bool" -> H(s, 1) % 2
    [] T.t = "small" -> H(s, 1) % T.m
    [] T.t = "str" -> Texts[1 + (H(s, 1) % Len(Texts))]
    [] T.t = "vec" -> LET n == <<0, 1, 1, 2, 3, 5>>[1 + (H(s, 1) % 6)] IN [i \in 1..n |-> Gen(T.e, H(s, 10 + i))]
    [] T.t = "pow2" -> LET n == 2^(H(s, 1) % 6)  w == <<1, 0, 1, 2, 4, 8, 16, 0>>[1 + (H(s, 2) % 8)]
                       IN [i \in 1..n |-> LET r == [x \in 1..16 |-> H(s, 20 * i + x) % 256]
                                          IN [x \in 1..16 |-> IF w = 0 THEN (IF x = 1 THEN r[1] % <<2, 4, 16>>[1 + (H(s, 5) % 3)] ELSE 0) ELSE IF x <= w THEN r[x] ELSE 0]]
    [] T.t = "opt" -> IF H(s, 1) % 3 = 0 THEN <<>> ELSE <<Gen(T.e, H(s, 2))>>
    [] T.t = "tup" -> [i \in 1..Len(T.es) |-> Gen(T.es[i], H(s, i))]
    [] T.t = "enum" -> LET k == 1 + (H(s, 1) % Len(T.vs)) IN [v |-> k - 1, a |-> [i \in 1..Len(T.vs[k]) |-> Gen(T.vs[k][i], H(s, 5 + i))]]
    [] T.t = "circ" -> LET n == 1 + (H(s, 1) % 6) IN
         [i \in 1..n |-> LET k == IF i = 1 THEN 3 + (H(s, 2) % 2) ELSE H(s, 10 + i) % 5
                             r(x) == Le8(H(s, 50 + 3 * i + x) % (i - 1))
                         IN [v |-> k, a |-> CASE k \in {0, 1} -> <<r(0), r(1)>> [] k = 2 -> <<r(0), RandBytes(8, H(s, 70 + i))>>
                                                [] k = 3 -> <<Gen(T.f, H(s, 80 + i))>> [] OTHER -> <<Le8(H(s, 90 + i) % 7)>>]]
    [] T.t = "dyn" -> LET k == 1 + (H(s, 1) % Len(T.ns)) IN [v |-> k - 1, a |-> Gen(T.ns[k].e, H(s, 2))]
    [] T.t = "cpoly" -> <<SimpleCircuits[1 + (H(s, 1) % 3)], Le8(3 + (H(s, 2) % 3))>>
    [] T.t = "none" -> <<>>

\* ---- encoding; Overlong marks a size that has no encoding ----
Overlong == <<-1>>
Cat(xs) == FoldLeft(LAMBDA a, x : a \o x, <<>>, xs)
RECURSIVE Enc(_, _, _)
Enc(T, v, m) ==
  CASE T.t \in {"int", "raw"} -> v
    [] T.t = "fld" -> Out(T.rep, m, v)
    [] T.t = "usize" -> IF \E i \in 5..8 : v[i] # 0 THEN Overlong ELSE SubSeq(v, 1, 4)
    [] T.t \in {"bool", "small"} -> <<v>>
    [] T.t = "str" -> Le4(Len(v)) \o v
    [] T.t \in {"vec", "pow2"} -> Le4(Len(v)) \o Cat([i \in 1..Len(v) |-> Enc(T.e, v[i], m)])
    [] T.t = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(T.e, v[1], m)
    [] T.t = "tup" -> Cat([i \in 1..Len(T.es) |-> Enc(T.es[i], v[i], m)])
    [] T.t = "enum" -> <<v.v>> \o Cat([i \in 1..Len(v.a) |-> Enc(T.vs[v.v + 1][i], v.a[i], m)])
    [] T.t = "circ" -> Enc(Vec(Step(T.f)), v, m)
    [] T.t = "dyn" -> Enc(Str, T.ns[v.v + 1].n, m) \o Enc(T.ns[v.v + 1].e, v.a, m)
    [] T.t = "cpoly" -> Enc(Tup(<<C128, Usize>>), v, m)
    [] T.t = "none" -> <<>>

\* ---- decoding ----
Utf8(b) == \* 0: between characters; otherwise continuation bytes still to come, and the range of the next
  LET step(s, x) ==
        IF s.n = -1 THEN s
        ELSE IF s.n = 0 THEN
          CASE x < 128 -> s
            [] x \in 194..223 -> [n |-> 1, lo |-> 128, hi |-> 191]
            [] x = 224 -> [n |-> 2, lo |-> 160, hi |-> 191]
            [] x \in (225..236) \cup {238, 239} -> [n |-> 2, lo |-> 128, hi |-> 191]
            [] x = 237 -> [n |-> 2, lo |-> 128, hi |-> 159]
            [] x = 240 -> [n |-> 3, lo |-> 144, hi |-> 191]
            [] x \in 241..243 -> [n |-> 3, lo |-> 128, hi |-> 191]
            [] x = 244 -> [n |-> 3, lo |-> 128, hi |-> 143]
            [] OTHER -> [n |-> -1, lo |-> 0, hi |-> 0]
        ELSE IF x \in s.lo..s.hi THEN [n |-> s.n - 1, lo |-> 128, hi |-> 191] ELSE [n |-> -1, lo |-> 0, hi |-> 0]
  IN FoldLeft(step, [n |-> 0, lo |-> 0, hi |-> 0], b).n = 0
SmallNum(v) == (\A i \in 3..Len(v) : v[i] = 0)      \* below 2^16
Num(v) == v[1] + 256 * v[2]
Below(v, n) == SmallNum(v) /\ Num(v) < n
Bad(p) == [s |-> "bad", v |-> <<>>, p |-> p]
Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
\* combinations only a constructor's check rules out
Odd(c, v) == CASE c = "none" -> FALSE
               [] c = "basis" -> ~(SmallNum(v[1]) /\ SmallNum(v[2]) /\ Num(v[1]) + Num(v[2]) <= 7)
               [] c \in {"step", "row"} -> ~(Below(v[1], 14) /\ Below(v[2], 2^Num(v[1]) + (IF c = "step" THEN 1 ELSE 0)))
               [] c = "const" -> ~(Below(v[3], 8) /\ Num(v[3]) = 7)
RefsEarlier(v) == \A i \in 1..Len(v) : CASE v[i].v \in {0, 1} -> Below(v[i].a[1], i - 1) /\ Below(v[i].a[2], i - 1) [] v[i].v = 2 -> Below(v[i].a[1], i - 1) [] OTHER -> TRUE
NVars(v) == FoldLeft(LAMBDA a, x : IF x.v = 4 THEN (IF SmallNum(x.a[1]) THEN (IF Num(x.a[1]) + 1 > a THEN Num(x.a[1]) + 1 ELSE a) ELSE 65536) ELSE a, 0, v)
RECURSIVE Dec(_, _, _, _), DecAll(_, _, _, _)
DecAll(Ts, b, p, m) == \* one after another
  FoldLeft(LAMBDA a, T : IF a.s = "bad" THEN a ELSE LET d == Dec(T, b, a.p, m) IN [s |-> Worse(a.s, d.s), v |-> IF d.s = "bad" THEN a.v ELSE Append(a.v, d.v), p |-> d.p],
           [s |-> "ok", v |-> <<>>, p |-> p], Ts)
Dec(T, b, p, m) ==
  LET left == Len(b) - p + 1
      take(n) == SubSeq(b, p, p + n - 1)
      good(v, q) == [s |-> "ok", v |-> v, p |-> q]
  IN
  CASE T.t \in {"int", "raw"} -> IF left < T.n THEN Bad(p) ELSE good(take(T.n), p + T.n)
    [] T.t = "fld" -> IF left < T.n THEN Bad(p) ELSE good(In(T.rep, m, take(T.n)), p + T.n)
    [] T.t = "usize" -> IF left < 4 THEN Bad(p) ELSE good(take(4) \o <<0, 0, 0, 0>>, p + 4)
    [] T.t = "bool" -> IF left < 1 \/ (left >= 1 /\ b[p] > 1) THEN Bad(p) ELSE good(b[p], p + 1)
    [] T.t = "small" -> IF left < 1 THEN Bad(p) ELSE [s |-> IF b[p] < T.m THEN "ok" ELSE "any", v |-> b[p] % T.m, p |-> p + 1]
    [] T.t = "str" -> IF left < 4 THEN Bad(p) ELSE IF ~SmallNum(take(4)) \/ Num(take(4)) > left - 4 THEN Bad(p)
                      ELSE LET x == SubSeq(b, p + 4, p + 3 + Num(take(4))) IN IF Utf8(x) THEN good(x, p + 4 + Len(x)) ELSE Bad(p)
    [] T.t \in {"vec", "pow2"} ->
         IF left < 4 THEN Bad(p) ELSE IF ~SmallNum(take(4)) \/ Num(take(4)) > left - 4 THEN Bad(p)
         ELSE LET n == Num(take(4))  d == DecAll([i \in 1..n |-> T.e], b, p + 4, m)
              IN IF T.t = "pow2" /\ ~\E k \in 0..16 : 2^k = n THEN Bad(p) ELSE d
    [] T.t = "opt" -> IF left < 1 THEN Bad(p) ELSE IF b[p] > 1 THEN Bad(p) ELSE IF b[p] = 0 THEN good(<<>>, p + 1)
                      ELSE LET d == Dec(T.e, b, p + 1, m) IN IF d.s = "bad" THEN d ELSE [d EXCEPT !.v = <<d.v>>]
    [] T.t = "tup" -> LET d == DecAll(T.es, b, p, m) IN IF d.s = "bad" THEN d ELSE IF Odd(T.chk, d.v) THEN [d EXCEPT !.s = "any"] ELSE d
    [] T.t = "enum" -> IF left < 1 THEN Bad(p) ELSE IF b[p] >= Len(T.vs) THEN Bad(p)
                       ELSE LET d == DecAll(T.vs[b[p] + 1], b, p + 1, m) IN IF d.s = "bad" THEN d ELSE [d EXCEPT !.v = [v |-> b[p], a |-> d.v]]
    [] T.t = "circ" -> LET d == Dec(Vec(Step(T.f)), b, p, m) IN IF d.s = "bad" THEN d ELSE IF d.v # <<>> /\ RefsEarlier(d.v) THEN d ELSE Bad(p)
    [] T.t = "dyn" -> LET d == Dec(Str, b, p, m) IN IF d.s = "bad" THEN d
                      ELSE LET ks == {k \in 1..Len(T.ns) : T.ns[k].n = d.v} IN IF ks = {} THEN Bad(p)
                           ELSE LET k == CHOOSE k \in ks : TRUE  e == Dec(T.ns[k].e, b, d.p, m) IN IF e.s = "bad" THEN e ELSE [e EXCEPT !.v = [v |-> k - 1, a |-> e.v]]
    [] T.t = "cpoly" -> LET d == DecAll(<<C128, Usize>>, b, p, m) IN IF d.s = "bad" THEN d
                        ELSE IF ~\E i \in 1..3 : SimpleCircuits[i] = d.v[1] THEN [d EXCEPT !.s = "any"] ELSE IF SmallNum(d.v[2]) /\ Num(d.v[2]) < NVars(d.v[1]) THEN Bad(p) ELSE d
    [] T.t = "none" -> good(<<>>, p)

\* ---- cases ----
Whole(T, b, m) == Dec(T, b, 1, m)
Mutated(b, s, i) == LET p == 1 + (H(s, 3 * i) % Len(b))  k == H(s, 3 * i + 1)
                    IN IF k % 5 = 0 THEN SubSeq(b, 1, p) \o SubSeq(b, p, Len(b))                  \* a byte doubled
                       ELSE IF k % 5 = 1 THEN SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))      \* a byte lost
                       ELSE [b EXCEPT ![p] = <<0, 1, 2, 3, 4, 5, 9, 10, 127, 128, 192, 237, 245, 255, (b[p] + 1) % 256, (b[p] + 255) % 256>>[1 + (k % 16)]]
Case(q) ==
  LET T == TypeOf(q.ty)
      v == TLCEval(Gen(T, q.seed))
      b == TLCEval(Enc(T, v, q.mode))
      fail == b = Overlong
      muts == IF fail \/ b = <<>> THEN <<>>
              ELSE [i \in 1..q.muts |->
                     LET x == TLCEval(Mutated(b, q.seed, i))  d == TLCEval(Whole(T, x, q.mode))
                     IN [b |-> x, s |-> d.s, used |-> IF d.s = "bad" THEN 0 ELSE d.p - 1, re |-> IF d.s = "ok" THEN Enc(T, d.v, q.mode) ELSE <<>>]]
  IN q @@ [v |-> v, b |-> IF fail THEN <<>> ELSE b, fail |-> fail, m |-> muts]

Init == /\ j \in 1..Len(Jobs)
        /\ st = [k |-> "start"]
Next == /\ st.k = "start"
        /\ LET c == TLCEval(Case(Jobs[j])) IN
             /\ st' = [k |-> "case", c |-> c]
             /\ PrintT(ToJson(c))
        /\ UNCHANGED j
Spec == Init /\ [][Next]_vars

\* the encoding is lossless, self-delimiting, and no proper prefix of one is accepted
Holds == (st.k = "case" /\ ~st.c.fail) =>
  LET c == st.c  T == TypeOf(c.ty)  d == Whole(T, c.b, c.mode)  e == Whole(T, c.b \o <<1, 0, 255>>, c.mode)
  IN /\ d.s = "ok" /\ d.v = c.v /\ d.p = Len(c.b) + 1
     /\ e = d
     /\ \A k \in 0..(Len(c.b) - 1) : Whole(T, SubSeq(c.b, 1, k), c.mode).s = "bad"
     /\ \A i \in 1..Len(c.m) : c.m[i].s = "ok" => c.m[i].re = SubSeq(c.m[i].b, 1, c.m[i].used)
=============================================================================
