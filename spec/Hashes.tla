------------------------------ MODULE Hashes ------------------------------
(***************************************************************************)
(* The hash functions: Groestl-256, Vision Mark-32 and SHA-256 as functions  *)
(* of a sequence of bytes, the two-to-one compressions built from them, and  *)
(* the state machine of a hasher: bytes are absorbed in pieces of any size,  *)
(* the hasher is copied, reset and finalised, and a digest is the function's *)
(* value at the bytes absorbed since the last reset.  A batch of hashers is  *)
(* that machine once per message, whatever the grouping of the messages.     *)
(***************************************************************************)
EXTENDS Tower, HashConsts, TLC, Json
CONSTANTS Jobs
VARIABLES j, st
vars == <<j, st>>

Lcg(x) == (x * 75 + 74) % 65537
H(s, i) == (Lcg(Lcg(Lcg(Lcg((s * 131 + i * 2749 + 7) % 65537)))) \div 5)
Slice(s, a, n) == SubSeq(s, a + 1, a + n)
ZeroBytes(n) == [i \in 1..n |-> 0]
XorAll(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

---- (* GF(2)[x] / (x^8 + x^4 + x^3 + x + 1) and the substitution built on it *)
XTimes(a) == IF a >= 128 THEN ((2 * a) % 256) ^^ 27 ELSE 2 * a
AMul(a, b) == FoldLeft(LAMBDA s, i : <<XTimes(s[1]), IF (b \div 2^i) % 2 = 1 THEN s[2] ^^ s[1] ELSE s[2]>>, <<a, 0>>, Range0(8))[2]
AInv(a) == FoldLeft(LAMBDA s, i : LET q == AMul(s[1], s[1]) IN <<q, AMul(s[2], q)>>, <<a, 1>>, Range0(7))[2]
BitOf(x, i) == (x \div 2^(i % 8)) % 2
SBox == TLCEval([a \in 0..255 |-> LET x == TLCEval(AInv(a)) IN
  FoldLeft(LAMBDA s, i : s + 2^i * ((BitOf(x, i) + BitOf(x, i + 4) + BitOf(x, i + 5) + BitOf(x, i + 6) + BitOf(x, i + 7) + BitOf(99, i)) % 2), 0, Range0(8))])

---- (* Groestl-256 *)
Circ == <<2, 2, 3, 4, 5, 3, 5, 7>>
MulSBox == TLCEval([k \in 2..7 |-> TLCEval([a \in 0..255 |-> AMul(SBox[a], k)])])
ShiftP == <<0, 1, 2, 3, 4, 5, 6, 7>>
ShiftQ == <<1, 3, 5, 7, 0, 2, 4, 6>>
\* byte 8 c + r of the state is in row r of column c
GRound(x, q, rnd) ==
  LET y == TLCEval([p \in 1..64 |-> LET r == (p - 1) % 8  c == (p - 1) \div 8 IN
             IF q THEN (IF r = 7 THEN x[p] ^^ (255 - ((16 * c) ^^ rnd)) ELSE 255 - x[p])
             ELSE IF r = 0 THEN x[p] ^^ ((16 * c) ^^ rnd) ELSE x[p]])
      sh == IF q THEN ShiftQ ELSE ShiftP
  IN TLCEval([p \in 1..64 |-> LET i == (p - 1) % 8  c == (p - 1) \div 8 IN
        FoldLeft(LAMBDA a, k : a ^^ MulSBox[Circ[((k + 8 - i) % 8) + 1]][y[8 * ((c + sh[k + 1]) % 8) + k + 1]], 0, Range0(8))])
GPerm(x, q) == FoldLeft(LAMBDA s, rnd : GRound(s, q, rnd), x, Range0(10))
GCompress(h, m) == XorAll(XorAll(GPerm(XorAll(h, m), FALSE), GPerm(m, TRUE)), h)
GIv == [i \in 1..64 |-> IF i = 63 THEN 1 ELSE 0]
BigEndian(n, x) == [i \in 1..n |-> IF n - i >= 4 THEN 0 ELSE (x \div 256^(n - i)) % 256]
GPad(n) == \* what follows n bytes
  LET z == ((119 - (n % 64)) % 64) IN <<128>> \o ZeroBytes(z) \o BigEndian(8, (n + 9 + z) \div 64)
Blocks(b) == [i \in 1..(Len(b) \div 64) |-> Slice(b, 64 * (i - 1), 64)]
GOut(h) == Slice(XorAll(GPerm(h, FALSE), h), 32, 32)
Groestl(b) == GOut(FoldLeft(LAMBDA h, m : GCompress(h, m), GIv, Blocks(b \o GPad(Len(b)))))
GPair(a, b) == GOut(a \o b)

---- (* SHA-256: a word is its two halves, the most significant first *)
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div 65536) % 65536, l % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
WRot(a, n) == LET h == IF n < 16 THEN a[1] ELSE a[2]  l == IF n < 16 THEN a[2] ELSE a[1]  m == n % 16  t == 2^(16 - m) IN
  <<(h \div 2^m) + (l % 2^m) * t, (l \div 2^m) + (h % 2^m) * t>>
WShr(a, n) == <<a[1] \div 2^n, (a[2] \div 2^n) + (a[1] % 2^n) * 2^(16 - n)>>
S0(x) == WXor(WXor(WRot(x, 2), WRot(x, 13)), WRot(x, 22))
S1(x) == WXor(WXor(WRot(x, 6), WRot(x, 11)), WRot(x, 25))
T0(x) == WXor(WXor(WRot(x, 7), WRot(x, 18)), WShr(x, 3))
T1(x) == WXor(WXor(WRot(x, 17), WRot(x, 19)), WShr(x, 10))
Sched(m) == FoldLeft(LAMBDA w, i : Append(w, TLCEval(WAdd(WAdd(T1(w[i - 2]), w[i - 7]), WAdd(T0(w[i - 15]), w[i - 16])))),
              [i \in 1..16 |-> <<256 * m[4 * i - 3] + m[4 * i - 2], 256 * m[4 * i - 1] + m[4 * i]>>], [i \in 1..48 |-> 16 + i])
SCompress(h, m) ==
  LET w == TLCEval(Sched(m))
      R(s, i) == LET t1 == TLCEval(WAdd(WAdd(s[8], S1(s[5])), WAdd(WXor(WAnd(s[5], s[6]), WAnd(WNot(s[5]), s[7])), WAdd(K256[i], w[i]))))
                     t2 == WAdd(S0(s[1]), WXor(WXor(WAnd(s[1], s[2]), WAnd(s[1], s[3])), WAnd(s[2], s[3])))
                 IN <<TLCEval(WAdd(t1, t2)), s[1], s[2], s[3], TLCEval(WAdd(s[4], t1)), s[5], s[6], s[7]>>
      o == FoldLeft(R, h, [i \in 1..64 |-> i])
  IN TLCEval([i \in 1..8 |-> WAdd(h[i], o[i])])
SPad(n) == LET z == ((119 - (n % 64)) % 64) IN <<128>> \o ZeroBytes(z) \o BigEndian(8, 8 * n)
WordsBe(h) == [i \in 1..32 |-> LET w == h[((i - 1) \div 4) + 1]  k == (i - 1) % 4  x == w[(k \div 2) + 1] IN IF k % 2 = 0 THEN x \div 256 ELSE x % 256]
Sha(b) == WordsBe(FoldLeft(LAMBDA h, m : SCompress(h, m), H256, Blocks(b \o SPad(Len(b)))))
\* the compression of two digests: its initial state is a digest read in little-endian order, as its result is written
WordsLe(b) == [i \in 1..8 |-> <<b[4 * i - 1] + 256 * b[4 * i], b[4 * i - 3] + 256 * b[4 * i - 2]>>]
LeWords(h) == [i \in 1..32 |-> LET w == h[((i - 1) \div 4) + 1]  k == (i - 1) % 4  x == w[2 - (k \div 2)] IN IF k % 2 = 0 THEN x % 256 ELSE x \div 256]
Label == <<66, 73, 78, 73, 85, 83, 32, 83, 72, 65, 45, 50, 53, 54, 32, 67, 79, 77, 80, 82, 69, 83, 83>>   \* "BINIUS SHA-256 COMPRESS"
SPairIv == TLCEval(WordsLe(Sha(Label)))
SPair(a, b) == LeWords(SCompress(SPairIv, a \o b))

---- (* Vision Mark-32: 24 elements of the 32-bit tower field, each as two 16-bit halves, the least significant first *)
Image(bits, a) == FoldLeft(LAMBDA s, i : IF (a \div 2^i) % 2 = 1 THEN s ^^ bits[i + 1] ELSE s, 0, Range0(8))
ToAes8 == TLCEval([a \in 0..255 |-> Image(<<1, 188, 176, 236, 211, 141, 46, 88>>, a)])
FromAes8 == TLCEval([a \in 0..255 |-> Image(<<1, 60, 140, 138, 89, 122, 83, 39>>, a)])
ToAes(x) == [i \in 1..Len(x) |-> ToAes8[x[i] % 256] + 256 * ToAes8[x[i] \div 256]]
FromAes(x) == [i \in 1..Len(x) |-> FromAes8[x[i] % 256] + 256 * FromAes8[x[i] \div 256]]
\* an element is a0 + a1 X with X^2 = alpha X + 1 and alpha = 256
InvPair(a) == IF a = <<0, 0>> THEN a
  ELSE LET n == FInv(FAdd(FAdd(FMul(a[1], a[1]), FMul(a[2], a[2])), FMul(256, FMul(a[1], a[2]))))
       IN <<FMul(n, FAdd(a[1], FMul(256, a[2]))), FMul(n, a[2])>>
MulPair(a, b) == LET h == FMul(a[2], b[2]) IN
  <<FAdd(FMul(a[1], b[1]), h), FAdd(FAdd(FMul(a[1], b[2]), FMul(a[2], b[1])), FMul(256, h))>>
\* a map that is linear over the bits of the AES representation, by the bytes of the tower representation
Columns(cols, x) == FoldLeft(LAMBDA s, i : IF (x[(i \div 16) + 1] \div 2^(i % 16)) % 2 = 1 THEN XorAll(s, cols[i + 1]) ELSE s, <<0, 0>>, Range0(32))
ByteAt(k, v) == [i \in 1..2 |-> IF (i - 1) = k \div 2 THEN v * (IF k % 2 = 1 THEN 256 ELSE 1) ELSE 0]
TableOf(cols) == TLCEval([k \in 0..3 |-> TLCEval([v \in 0..255 |-> TLCEval(FromAes(Columns(cols, ToAes(ByteAt(k, v)))))])])
FwdTable == TableOf(VFwd)
InvTable == TableOf(VInv)
FwdConst == TLCEval(FromAes(VFwdC))
InvConst == TLCEval(FromAes(VInvC))
ByTable(t, x) == TLCEval([i \in 1..2 |-> (t[0][x[1] % 256][i] ^^ t[1][x[1] \div 256][i]) ^^ (t[2][x[2] % 256][i] ^^ t[3][x[2] \div 256][i])])
VSub(x, t, c) == TLCEval([i \in 1..24 |-> TLCEval(XorAll(ByTable(t, TLCEval(InvPair(x[i]))), c))])
\* the values at 24 .. 47 of the polynomial of degree below 24 with the given values at 0 .. 23
Mds == TLCEval([r \in 1..24 |-> TLCEval([c \in 1..24 |->
         FoldLeft(LAMBDA a, k : IF k = c - 1 THEN a ELSE FMul(a, FMul(FAdd(23 + r, k), FInv(FAdd(c - 1, k)))), 1, Range0(24))])])
VMix(x) == TLCEval([r \in 1..24 |-> LET m == Mds[r] IN
             <<FoldLeft(LAMBDA a, c : FAdd(a, FMul(m[c + 1], x[c + 1][1])), 0, Range0(24)),
               FoldLeft(LAMBDA a, c : FAdd(a, FMul(m[c + 1], x[c + 1][2])), 0, Range0(24))>>])
VKey(x, k) == TLCEval([i \in 1..24 |-> XorAll(x[i], VKeys[k + 1][i])])
VPerm(x) == FoldLeft(LAMBDA s, r :
    VKey(VMix(VSub(VKey(VMix(VSub(s, InvTable, InvConst)), 1 + 2 * r), FwdTable, FwdConst)), 2 + 2 * r), VKey(x, 0), Range0(8))
VWords(b) == [i \in 1..(Len(b) \div 4) |-> <<b[4 * i - 3] + 256 * b[4 * i - 2], b[4 * i - 1] + 256 * b[4 * i]>>]
VBytes(x) == [i \in 1..(4 * Len(x)) |-> LET w == x[((i - 1) \div 4) + 1]  k == (i - 1) % 4  y == w[(k \div 2) + 1] IN IF k % 2 = 0 THEN y % 256 ELSE y \div 256]
VAbsorb(s, m) == VPerm(VWords(m) \o SubSeq(s, 17, 24))
VPad(n) == LET z == 64 - (n % 64) IN IF z = 1 THEN <<129>> ELSE <<128>> \o ZeroBytes(z - 2) \o <<1>>
Vision(b) == SubSeq(VBytes(FoldLeft(LAMBDA s, m : VAbsorb(s, m), [i \in 1..24 |-> <<0, 0>>], Blocks(b \o VPad(Len(b))))), 1, 32)
VPair(a, b) == Vision(a \o b)

---- (* messages *)
Msg(mode, seed, n) == TLCEval([i \in 1..n |->
  CASE mode = 0 -> H(seed + ((i * i) % 251), i) % 256
    [] mode = 1 -> 0
    [] mode = 2 -> 255
    [] OTHER -> LET w == VKeys[1][(((i - 1) \div 4) % 24) + 1]  k == (i - 1) % 4  y == w[(k \div 2) + 1] IN   \* makes the words zero before the first inversion
                  IF H(seed, i \div 4) % 3 = 0 THEN H(seed, i) % 256 ELSE IF k % 2 = 0 THEN y % 256 ELSE y \div 256])
All(b) == [g |-> TLCEval(Groestl(b)), v |-> TLCEval(Vision(b)), s |-> TLCEval(Sha(b))]

---- (* the machine of a hasher, for scripts of operations.  Besides the bytes it absorbed, it keeps what an implementation does: the
        state after the whole blocks and the bytes that are left *)
Fresh == [h |-> GIv, buf |-> <<>>, n |-> 0]
Absorb(c, b) == LET all == c.buf \o b  k == Len(all) \div 64 IN
  [h |-> TLCEval(FoldLeft(LAMBDA h, m : GCompress(h, m), c.h, Blocks(SubSeq(all, 1, 64 * k)))), buf |-> SubSeq(all, 64 * k + 1, Len(all)), n |-> c.n + Len(b)]
Finish(c) == GOut(FoldLeft(LAMBDA h, m : GCompress(h, m), c.h, Blocks(c.buf \o GPad(c.n))))

Start(q) == CASE q.k = "sched" -> [i |-> 1, at |-> 0, a |-> <<>>, b |-> <<>>, c |-> Fresh, d |-> Fresh, outs |-> <<>>]
              [] OTHER -> [i |-> 1]
Op(q, s) ==
  LET o == q.ops[s.i]  m == Slice(Msg(q.mode, q.seed, q.len), s.at, o.n) IN
  CASE o.o = "up" -> [s EXCEPT !.i = @ + 1, !.at = @ + o.n, !.a = @ \o m, !.c = Absorb(@, m)]
    [] o.o = "clone" -> [s EXCEPT !.i = @ + 1, !.b = s.a, !.d = s.c]
    [] o.o = "swap" -> [s EXCEPT !.i = @ + 1, !.a = s.b, !.b = s.a, !.c = s.d, !.d = s.c]
    [] o.o = "reset" -> [s EXCEPT !.i = @ + 1, !.a = <<>>, !.c = Fresh]
    [] o.o = "fin" -> [s EXCEPT !.i = @ + 1, !.a = <<>>, !.c = Fresh, !.outs = Append(@, All(s.a))]
Case(q, s) ==
  CASE q.k = "sched" -> q @@ [msg |-> Msg(q.mode, q.seed, q.len), outs |-> s.outs]
    [] q.k = "par" -> LET pre == Msg(0, q.seed + 1, q.pre)  ms == TLCEval([i \in 1..q.pool |-> Msg(IF i = 2 THEN q.mode ELSE 0, q.seed + 7 * i, q.len)]) IN
         q @@ [prefix |-> pre, msgs |-> ms, outs |-> [i \in 1..q.pool |-> All(pre \o ms[i])], lanes |-> [i \in 1..q.m |-> H(q.seed, i) % q.pool]]
    [] q.k = "pair" -> LET a == Msg(q.mode, q.seed, 32)  b == Msg(0, q.seed + 5, 32) IN
         q @@ [a |-> a, b |-> b, ab |-> [g |-> GPair(a, b), v |-> VPair(a, b), s |-> SPair(a, b)], ba |-> [g |-> GPair(b, a), v |-> VPair(b, a), s |-> SPair(b, a)]]
    [] q.k = "perm" -> LET m == Msg(q.mode, q.seed, 96)  g == SubSeq(m, 1, 64)  h == Msg(0, q.seed + 3, 64) IN
         q @@ [x |-> m, v |-> VBytes(VPerm(VWords(m))), mds |-> VBytes(VMix(VWords(m))), h |-> h, gp |-> GPerm(g, FALSE), gq |-> GPerm(g, TRUE), gc |-> GCompress(h, g)]
Done(q, s) == IF q.k = "sched" THEN s.i > Len(q.ops) ELSE s.i > 1

Init == j \in 1..Len(Jobs) /\ st = Start(Jobs[j])
Next == LET q == Jobs[j] IN
  /\ j' = j
  /\ IF Done(q, st) THEN st.i < 1000 /\ st' = [st EXCEPT !.i = 1000] /\ PrintT(ToJson(Case(q, st)))
     ELSE IF q.k = "sched" THEN st' = Op(q, st) ELSE st' = [st EXCEPT !.i = 2]
Spec == Init /\ [][Next]_vars

\* the digest is the function of the bytes, however they were absorbed
Chunking == (Jobs[j].k = "sched" /\ st.i <= Len(Jobs[j].ops)) => (Jobs[j].ops[st.i].o = "fin" => Finish(st.c) = Groestl(st.a))
\* published values, and the algebra the constants have to satisfy
Published ==
  /\ Groestl(<<>>) = <<26, 82, 209, 29, 85, 0, 57, 190, 22, 16, 127, 156, 88, 219, 158, 188, 196, 23, 241, 111, 115, 106, 219, 37, 2, 86, 113, 25, 240, 8, 52, 103>>
  /\ Sha(<<97, 98, 99>>) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35, 176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
  /\ Vision(<<222, 173, 190, 239>>) = <<142, 211, 137, 128, 159, 171, 233, 28, 234, 212, 120, 110, 176, 142, 45, 50, 100, 122, 154, 198, 145, 67, 4, 13, 229, 0, 228, 70, 92, 114, 241, 115>>
  /\ SBox[0] = 99 /\ SBox[83] = 237
Algebra ==
  /\ \A a \in 1..255 : LET x == <<a * 17, 65535 - a * 91>> IN MulPair(x, InvPair(x)) = <<1, 0>>
  /\ \A k \in 0..3, v \in 0..255 : ByTable(FwdTable, ByTable(InvTable, ByteAt(k, v))) = ByteAt(k, v)      \* the two affine maps undo each other
  /\ \A r, c \in 1..24 : Mds[r][c] # 0
Constants == (j = 1 /\ st.i = 1) => (Published /\ Algebra)
============================================================================
