------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A constraint system, a statement and a witness: tables of columns over    *)
(* the hypercube, zero constraints, non-zero columns, exponentiations and    *)
(* flushes to channels, with boundary values.  A behaviour chooses a system, *)
(* the sizes of its tables and a witness that satisfies it, lets somebody    *)
(* deviate in one place, and then the three judges speak: the witness check, *)
(* the verifier (about a proof made from the witness) and the definition.    *)
(*                                                                           *)
(* System sy: [tabs |-> seq of size rules, nodes |-> columns, cons, nz,      *)
(* exps, fl, nch].  A column has a table (tab) and log values per row (lv).  *)
(***************************************************************************)
EXTENDS Virtual, Json, TLC
CONSTANTS Systems,     \* sequence of [sy |-> system, sizes |-> set of size vectors]
          Kinds,       \* kinds of deviation explored
          Seeds, MaxCells
VARIABLES st, sy, sizes, seed, wit, bounds, dev
vars == <<st, sy, sizes, seed, wit, bounds, dev>>

CLog2(n) == CHOOSE k \in 0..20 : 2^k >= n /\ \A j \in 0..20 : 2^j >= n => k <= j
Nodes == sy.nodes
NV(S, z, i) == IF S.nodes[i].t = "tr" THEN S.nodes[i].p.n ELSE CLog2(z[S.nodes[i].tab]) + S.nodes[i].lv
Empty(S, z, i) == z[S.nodes[i].tab] = 0
\* the column as a node of Virtual, with its number of variables
Inst(S, z) == [i \in 1..Len(S.nodes) |-> LET nd == S.nodes[i] IN
   IF Empty(S, z, i) THEN [t |-> "none"]
   ELSE LET n == NV(S, z, i) IN
     CASE nd.t = "com" -> [t |-> "com", n |-> n, kind |-> nd.kind]
       [] nd.t = "rep" -> [t |-> "rep", id |-> nd.id, d |-> n - NV(S, z, nd.id)]
       [] nd.t = "projl" -> [t |-> "proj", id |-> nd.id, d |-> nd.d, s |-> NV(S, z, nd.id) - nd.d, seed |-> nd.seed]
       [] nd.t \in {"lc", "comp", "st"} -> [nd EXCEPT !.n = n]
       [] OTHER -> nd]

\* ---- an honest witness
Used(S, z, i) == z[S.nodes[i].tab] * 2^S.nodes[i].lv
Bits2Int(bs) == SumSeq([k \in 1..Len(bs) |-> bs[k] * 2^(k - 1)])
ExpVal(e, tabs, x) == FPow(IF "id" \in DOMAIN e.base THEN tabs[e.base.id][x] ELSE e.base.c,
                           Bits2Int([k \in 1..Len(e.bits) |-> tabs[e.bits[k]][x]]))
Gen(S, z, i, tabs, sd) == LET nd == S.nodes[i]  n == NV(S, z, i)  r(x) == FieldVal(nd.kind, RandVal(sd * 37 + i, x)) IN
  CASE nd.g.k = "rand" -> [x \in 1..2^n |-> r(x)]
    [] nd.g.k = "nz" -> [x \in 1..2^n |-> IF r(x) = 0 THEN 1 ELSE r(x)]
    [] nd.g.k = "const" -> [x \in 1..2^n |-> nd.g.v]
    [] nd.g.k = "row" -> [x \in 1..2^n |-> FieldVal(nd.kind, (x - 1) \div nd.g.d)]
    [] nd.g.k = "comp" -> [x \in 1..2^n |-> CompEval(nd.g.c, [k \in 1..Len(nd.g.in) |-> tabs[nd.g.in[k]][x]])]
    [] nd.g.k = "perm" -> LET m == Used(S, z, i)  in == tabs[nd.g.id] IN \* the used values of another column, in another order
         [x \in 1..2^n |-> IF x <= m THEN in[((x - 1 + nd.g.r) % m) + 1] ELSE r(x)]
    [] nd.g.k = "exp" -> [x \in 1..2^n |-> ExpVal(S.exps[nd.g.e], tabs, x)]
Honest(S, z, sd) == LET g == Inst(S, z) IN
  FoldLeft(LAMBDA acc, j : LET i == j + 1 IN
             Append(acc, IF Empty(S, z, i) THEN <<>> ELSE IF S.nodes[i].t = "com" THEN Gen(S, z, i, acc, sd)
                         ELSE NodeTable(g, i, acc, sd)), <<>>, Range0(Len(S.nodes)))
\* virtual columns recomputed from the committed ones (and, with fix, exponentiation results from bases and exponents)
Rebuilt(S, z, w, fix) == LET g == Inst(S, z)
    E(i) == {e \in 1..Len(S.exps) : S.exps[e].res = i}
  IN FoldLeft(LAMBDA acc, j : LET i == j + 1 IN
             Append(acc, IF Empty(S, z, i) THEN <<>>
                         ELSE IF fix /\ E(i) # {} THEN [x \in 1..Len(w[i]) |-> ExpVal(S.exps[CHOOSE e \in E(i) : TRUE], acc, x)]
                         ELSE IF S.nodes[i].t = "com" THEN w[i] ELSE NodeTable(g, i, acc, 0)), <<>>, Range0(Len(S.nodes)))

\* ---- channels: the multiset of flushed tuples, as a sequence of [v |-> tuple, m |-> signed multiplicity]
Sgn(dir) == IF dir = "push" THEN 1 ELSE -1
Tuple(f, w, x) == [k \in 1..Len(f.cols) |-> IF "id" \in DOMAIN f.cols[k] THEN w[f.cols[k].id][x] ELSE f.cols[k].c]
FlushRows(f, z, w) == LET m == z[f.tab] * 2^f.lv IN
  SelectSeq([x \in 1..m |-> [x |-> x, on |-> \A k \in 1..Len(f.sel) : w[f.sel[k]][x] # 0]], LAMBDA r : r.on)
Flushed(S, z, w, ch) == FoldLeft(LAMBDA acc, f : IF f.ch # ch THEN acc ELSE
     LET rows == FlushRows(f, z, w) IN acc \o [k \in 1..Len(rows) |-> [v |-> Tuple(f, w, rows[k].x), m |-> Sgn(f.dir) * f.mult]], <<>>, S.fl)
BoundEntries(bs, ch) == LET own == SelectSeq(bs, LAMBDA b : b.ch = ch) IN [k \in 1..Len(own) |-> [v |-> own[k].v, m |-> Sgn(own[k].dir) * own[k].mult]]
Entries(S, z, w, bs, ch) == BoundEntries(bs, ch) \o Flushed(S, z, w, ch)
Net(es, v) == FoldLeft(LAMBDA a, e : a + IF e.v = v THEN e.m ELSE 0, 0, es)
Values(es) == {es[k].v : k \in 1..Len(es)}
Balanced(es) == \A v \in Values(es) : Net(es, v) = 0
Widths(S, z, bs, ch) == {Len(f.cols) : f \in {S.fl[k] : k \in {j \in 1..Len(S.fl) : S.fl[j].ch = ch /\ z[S.fl[j].tab] > 0}}}
                        \cup {Len(bs[k].v) : k \in {j \in 1..Len(bs) : bs[j].ch = ch}}
LiveWidths(es) == {Len(es[k].v) : k \in 1..Len(es)}
ChannelOK(S, z, w, bs, ch) == LET es == Entries(S, z, w, bs, ch) IN Cardinality(LiveWidths(es)) <= 1 /\ Balanced(es)
InRange(S, bs) == \A k \in 1..Len(bs) : bs[k].ch \in 1..S.nch
Balance(S, z, w, bs) == InRange(S, bs) /\ \A ch \in 1..S.nch : ChannelOK(S, z, w, bs, ch)
\* boundaries that balance every channel
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET v == CHOOSE v \in s : TRUE IN <<v>> \o SetSeq(s \ {v})
AutoBounds(S, z, w) == FoldLeft(LAMBDA acc, c : LET ch == c + 1  es == Flushed(S, z, w, ch)
                                                  un == SetSeq({v \in Values(es) : Net(es, v) # 0}) IN
     acc \o [k \in 1..Len(un) |-> LET n == Net(es, un[k]) IN [ch |-> ch, v |-> un[k], dir |-> IF n > 0 THEN "pull" ELSE "push", mult |-> IF n > 0 THEN n ELSE -n]],
     <<>>, Range0(S.nch))

\* ---- what makes a witness valid
SizeOK(S, z) == Len(z) = Len(S.tabs) /\ \A t \in 1..Len(z) :
  CASE S.tabs[t].k = "arb" -> TRUE [] S.tabs[t].k = "po2" -> z[t] \in {2^k : k \in 0..20} [] S.tabs[t].k = "fix" -> z[t] = 2^S.tabs[t].log
ZeroOK(S, z, w) == \A c \in 1..Len(S.cons) : LET q == S.cons[c] IN z[q.tab] = 0 \/ \A k \in 1..Len(q.comps) :
    \A x \in 1..2^(CLog2(z[q.tab]) + q.lv) : CompEval(q.comps[k], [j \in 1..Len(q.ids) |-> w[q.ids[j]][x]]) = 0
NzOK(S, z, w) == \A k \in 1..Len(S.nz) : \A x \in 1..Len(w[S.nz[k]]) : w[S.nz[k]][x] # 0
ExpOK(S, z, w) == \A e \in 1..Len(S.exps) : \A x \in 1..Len(w[S.exps[e].res]) : w[S.exps[e].res][x] = ExpVal(S.exps[e], w, x)
VirtOK(S, z, w) == LET g == Inst(S, z) IN \A i \in 1..Len(S.nodes) : S.nodes[i].t = "com" \/ Empty(S, z, i) \/ w[i] = NodeTable(g, i, w, 0)
Relation(S, z, w, bs) == ZeroOK(S, z, w) /\ NzOK(S, z, w) /\ ExpOK(S, z, w) /\ Balance(S, z, w, bs)
Valid(S, z, w, bs) == SizeOK(S, z) /\ Relation(S, z, w, bs) /\ VirtOK(S, z, w)

\* ---- the verifier's test of balance: products of fingerprints under challenges (s, r[ch])
Finger(v, s, r) == FoldLeft(LAMBDA acc, k : FAdd(acc, FMul(v[k + 1], FPow(s, k))), r, Range0(Len(v)))
Prod(es, dir, s, r) == FoldLeft(LAMBDA a, e : IF (e.m > 0) # (dir = "push") THEN a
                                              ELSE FMul(a, FPow(Finger(e.v, s, r), IF e.m > 0 THEN e.m ELSE -e.m)), 1, es)
VerifierBalance(S, z, w, bs, sd) == InRange(S, bs) /\ \A ch \in 1..S.nch : Cardinality(Widths(S, z, bs, ch)) <= 1 /\
    LET es == Entries(S, z, w, bs, ch)  s == Chal(sd, 901)  r == Chal(sd, 910 + ch) IN Prod(es, "push", s, r) = Prod(es, "pull", s, r)

\* ---- behaviours
Bump(kind, v) == IF kind = "b1" THEN 1 - v ELSE IF kind = "b8" THEN (v + 29) % 256 ELSE (v + 29) % 65536
Kind(S, i) == LET l == IF S.nodes[i].t = "tr" THEN (IF S.nodes[i].p.k \in {"stepdown", "select"} THEN 0 ELSE 4) ELSE Lvl(S.nodes, i) IN
              CASE l = 0 -> "b1" [] l = 3 -> "b8" [] l \in {1, 2} -> "b1" [] OTHER -> "b16"
SomeCells(n, i) == IF n <= MaxCells THEN 1..n ELSE {1, n, (n \div 2) + 1} \cup {(RandVal(i, k) % n) + 1 : k \in 1..(MaxCells - 3)}
Cells(vt) == UNION {{<<i, x>> : x \in SomeCells(Len(wit[i]), i)} : i \in {j \in 1..Len(Nodes) : Len(wit[j]) > 0 /\ ((Nodes[j].t = "com") # vt)}}
BadSizes == {z \in {[sizes EXCEPT ![t] = v] : t \in 1..Len(sizes), v \in {0, 1, 2, 3, 4, 6}} : ~SizeOK(sy, z)} \cup {sizes \o <<1>>}
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
D0 == [k |-> "none", i |-> 0, x |-> 0]
TypeOK == st \in {"start", "filled", "done"}
Init == /\ st = "start"
        /\ \E i \in 1..Len(Systems) : sy = Systems[i].sy /\ sizes \in Systems[i].sizes
        /\ seed \in Seeds
        /\ wit = <<>> /\ bounds = <<>> /\ dev = D0
Fill == /\ st = "start"
        /\ st' = "filled"
        /\ wit' = Honest(sy, sizes, seed)
        /\ bounds' = AutoBounds(sy, sizes, Honest(sy, sizes, seed)) \o sy.extra
        /\ UNCHANGED <<sy, sizes, seed, dev>>
Do(k) == k \in Kinds /\ st = "filled" /\ st' = "done" /\ UNCHANGED <<sy, seed>>
Nothing == /\ Do("none")
           /\ dev' = D0 /\ UNCHANGED <<wit, bounds, sizes>>
AlterCell == /\ Do("cell")
             /\ \E c \in Cells(FALSE) : wit' = [wit EXCEPT ![c[1]][c[2]] = Bump(Kind(sy, c[1]), @)] /\ dev' = [k |-> "cell", i |-> c[1], x |-> c[2]]
             /\ UNCHANGED <<bounds, sizes>>
\* a committed cell changes and the virtual columns follow
AlterBase == /\ Do("base")
             /\ \E c \in Cells(FALSE) : wit' = Rebuilt(sy, sizes, [wit EXCEPT ![c[1]][c[2]] = Bump(Kind(sy, c[1]), @)], FALSE) /\ dev' = [k |-> "base", i |-> c[1], x |-> c[2]]
             /\ UNCHANGED <<bounds, sizes>>
AlterVirtual == /\ Do("virt")
                /\ \E c \in Cells(TRUE) : wit' = [wit EXCEPT ![c[1]][c[2]] = Bump(Kind(sy, c[1]), @)] /\ dev' = [k |-> "virt", i |-> c[1], x |-> c[2]]
                /\ UNCHANGED <<bounds, sizes>>
SwapCells == /\ Do("swap")
             /\ \E i \in {j \in 1..Len(Nodes) : Nodes[j].t = "com" /\ Len(wit[j]) > 1} :
                  /\ wit' = Rebuilt(sy, sizes, [wit EXCEPT ![i][1] = wit[i][2], ![i][2] = wit[i][1]], FALSE)
                  /\ dev' = [k |-> "swap", i |-> i, x |-> 1]
             /\ UNCHANGED <<bounds, sizes>>
AlterBound == /\ Do("bound")
              /\ UNCHANGED <<wit, sizes>>
              /\ \E j \in 1..Len(bounds) : \E how \in {"drop", "dup", "more", "less", "turn", "value", "wide", "short", "move", "order"} :
                   LET b == bounds[j] IN
                   /\ dev' = [k |-> how, i |-> j, x |-> 0]
                   /\ bounds' = CASE how = "drop" -> Without(bounds, j)
                                  [] how = "dup" -> Append(bounds, b)
                                  [] how = "more" -> [bounds EXCEPT ![j].mult = @ + 1]
                                  [] how = "less" -> [bounds EXCEPT ![j].mult = @ - 1]
                                  [] how = "turn" -> [bounds EXCEPT ![j].dir = IF @ = "push" THEN "pull" ELSE "push"]
                                  [] how = "value" -> [bounds EXCEPT ![j].v[Len(b.v)] = FAdd(@, 1)]
                                  [] how = "wide" -> [bounds EXCEPT ![j].v = Append(@, 0)]
                                  [] how = "short" -> [bounds EXCEPT ![j].v = SubSeq(@, 1, Len(@) - 1)]
                                  [] how = "move" -> [bounds EXCEPT ![j].ch = (@ % (sy.nch + 1)) + 1]
                                  [] how = "order" -> RevSeq(bounds)
AddBound == /\ Do("extra")
            /\ UNCHANGED <<wit, sizes>>
            /\ \E ch \in 1..(sy.nch + 1), n \in 1..2, m \in {1, 1000000}, pair \in {"one", "cancel", "wrap", "zero"} :
                 LET v == [k \in 1..n |-> RandVal(ch, k)]  b(d, q) == [ch |-> ch, v |-> v, dir |-> d, mult |-> q] IN
                 /\ dev' = [k |-> "extra-" \o pair, i |-> ch, x |-> m + n]
                 /\ bounds' = bounds \o (CASE pair = "one" -> <<b("push", m)>>
                                           [] pair = "cancel" -> <<b("push", m), b("pull", m)>>
                                           [] pair = "wrap" -> <<b("push", 1), b("push", m)>>
                                           [] pair = "zero" -> <<b("pull", 0)>>)
AlterSizes == /\ Do("size")
              /\ UNCHANGED <<wit, bounds>>
              /\ \E z \in BadSizes : sizes' = z
              /\ dev' = [k |-> "size", i |-> 0, x |-> 0]
Next == Fill \/ Nothing \/ AlterCell \/ AlterBase \/ AlterVirtual \/ SwapCells \/ AlterBound \/ AddBound \/ AlterSizes
Spec == Init /\ [][Next]_vars

\* ---- judgements
IsValid == dev.k # "size" /\ Valid(sy, sizes, wit, bounds)
Fixed == Rebuilt(sy, sizes, wit, TRUE)
Honored == dev.k # "size" /\ SizeOK(sy, sizes) /\ Relation(sy, sizes, Fixed, bounds)    \* the statement holds of the committed columns
MixedWidth == \E ch \in 1..sy.nch : Cardinality(Widths(sy, sizes, bounds, ch)) > 1 /\ Cardinality(LiveWidths(Entries(sy, sizes, wit, bounds, ch))) <= 1
ZeroMult == \E k \in 1..Len(bounds) : bounds[k].mult = 0 /\ bounds[k].ch \notin 1..sy.nch
\* the witness check leaves exponentiations alone: the prover computes their results
ValidButExp == dev.k # "size" /\ SizeOK(sy, sizes) /\ ZeroOK(sy, sizes, wit) /\ NzOK(sy, sizes, wit) /\ Balance(sy, sizes, wit, bounds) /\ VirtOK(sy, sizes, wit)
CheckVerdict == IF dev.k # "size" /\ MixedWidth THEN "any" ELSE IF IsValid THEN "acc" ELSE IF ValidButExp THEN "any" ELSE "rej"
ProofVerdict == IF dev.k # "size" /\ MixedWidth THEN "any" ELSE IF IsValid THEN "acc" ELSE IF ~Honored THEN "rej" ELSE "any"

HonestIsValid == st = "done" /\ dev.k = "none" => IsValid
\* the verifier's products decide the multisets
ProductsDecide == st = "done" /\ dev.k # "size" /\ ~MixedWidth => (VerifierBalance(sy, sizes, Fixed, bounds, 5) <=> Balance(sy, sizes, Fixed, bounds))
SoundAndComplete == st = "done" => (IsValid => (dev.k = "size" \/ Honored))
OrderIrrelevant == st = "done" /\ dev.k = "order" => IsValid
Emit == st = "done" => PrintT(ToJson([sy |-> sy, sizes |-> sizes, wit |-> wit, lvl |-> [i \in 1..Len(Nodes) |->
            IF Nodes[i].t = "tr" THEN (IF Nodes[i].p.k \in {"stepdown", "select"} THEN 0 ELSE 4) ELSE Lvl(Nodes, i)],
          pts |-> [i \in 1..Len(Nodes) |-> IF Nodes[i].t \in {"proj", "projl"} THEN Pt(Nodes[i].seed, Nodes[i].d) ELSE <<>>],
          bounds |-> bounds, dev |-> dev, check |-> CheckVerdict, proof |-> ProofVerdict]))
============================================================================
