-------------------------------- MODULE Fri --------------------------------
(***************************************************************************)
(* The FRI proximity test on interleaved Reed-Solomon codes in the novel     *)
(* polynomial basis: a prover commits to oracle 0, folds it with the         *)
(* verifier's challenges, committing to an oracle after every fold_arity     *)
(* challenges, and reveals the last oracle; the verifier checks that it is   *)
(* constant after the final challenges and tests consistency at the queried  *)
(* positions.  Commitments are ideal (an oracle is its word; an opening that *)
(* differs from the word is refused).  The prover is honest or deviates at   *)
(* one place; the verdict is computed exactly.                               *)
(***************************************************************************)
EXTENDS Subspace, TLC, Json, FiniteSets

CONSTANTS Params,    \* set of [dim, rate, batch, arities]
          MsgKinds,  \* messages committed to
          ChalSeeds, \* challenge vectors
          NQueries,
          Deviations \* kinds explored

VARIABLES phase, par, mk, cs, dev, oracles, queries, answers, verdict, final
vars == <<phase, par, mk, cs, dev, oracles, queries, answers, verdict, final>>

Lcg(x) == (x * 75 + 74) % 65537
RECURSIVE LcgN(_, _)
LcgN(x, k) == IF k = 0 THEN x ELSE LcgN(Lcg(x), k - 1)
RandVal(seed, i) == LcgN(seed * 91 + i * 7 + 13, 5) % 65536
LogLen(p) == p.dim + p.rate
NRounds(p) == p.dim + p.batch
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NFinal(p) == NRounds(p) - SumSeq(p.arities)
IndexBits(p) == IF p.arities = <<>> THEN 0 ELSE LogLen(p) + p.batch - p.arities[1]
Basis(p) == CanonBasis(LogLen(p))

Msg(p, k) == [i \in 1..2^(p.dim + p.batch) |->
   CASE k = "ramp" -> i [] k = "rand" -> RandVal(3, i) [] k = "zero" -> 0 [] k = "unit" -> IF i = 2^(p.dim + p.batch) THEN 1 ELSE 0]
\* interleaved encoding: symbol j of the codeword, lane l
EncodeTable(p) == [j \in 1..2^LogLen(p) |-> [k \in 1..2^p.dim |->
                     NovelBasis(Basis(p), k - 1, SpanPoint(Basis(p), j - 1), p.dim)]]
Encode(p, m) == LET B == 2^p.batch  T == EncodeTable(p)
  IN [x \in 1..2^(LogLen(p) + p.batch) |->
       LET j == (x - 1) \div B  l == (x - 1) % B
       IN FDot([k \in 1..2^p.dim |-> m[(k - 1) * B + l + 1]], T[j + 1])]

Chal(p, s) == [i \in 1..NRounds(p) |-> CASE s = 0 -> (i % 2) [] OTHER -> RandVal(s, i)]
\* the challenges consumed by oracle k -> k+1 (k from 0)
RoundChal(p, c, k) == LET a == SumSeq(SubSeq(p.arities, 1, k)) IN SubSeq(c, a + 1, a + p.arities[k + 1])
\* number of codeword foldings done before oracle k
FoldsBefore(p, k) == IF k = 0 THEN 0 ELSE SumSeq(SubSeq(p.arities, 1, k)) - p.batch
\* fold oracle k's word with its challenges
NextWord(p, c, k, word) ==
  IF k = 0 THEN LET rc == RoundChal(p, c, 0) IN
       FoldWordMany(Basis(p), Collapse(word, SubSeq(rc, 1, p.batch)), 0, SubSeq(rc, p.batch + 1, Len(rc)))
  ELSE FoldWordMany(Basis(p), word, FoldsBefore(p, k), RoundChal(p, c, k))
NOracles(p) == Len(p.arities)
FinalWord(p, c, word) == \* the last oracle after the final challenges
  IF NOracles(p) = 0
  THEN FoldWordMany(Basis(p), Collapse(word, SubSeq(c, 1, p.batch)), 0, SubSeq(c, p.batch + 1, Len(c)))
  ELSE FoldWordMany(Basis(p), word, FoldsBefore(p, NOracles(p)), SubSeq(c, NRounds(p) - NFinal(p) + 1, NRounds(p)))

Valid(p) == /\ SumSeq(p.arities) < p.dim + p.batch
            /\ p.arities # <<>> => p.arities[1] >= p.batch

Init == /\ phase = "setup" /\ par \in {p \in Params : Valid(p)} /\ mk \in MsgKinds
        /\ cs \in ChalSeeds /\ dev = [k |-> "none", o |-> 0, p |-> 0] /\ oracles = <<>>
        /\ queries = <<>> /\ answers = <<>> /\ verdict = "open" /\ final = 0

\* oracle word lengths are 2^(log_len+batch - sum of arities so far)
OLen(p, k) == 2^(LogLen(p) + p.batch - SumSeq(SubSeq(p.arities, 1, k)))
DevChoices ==
  {[k |-> "none", o |-> 0, p |-> 0]}
  \cup UNION {{[k |-> d, o |-> o, p |-> x] : d \in Deviations \cap {"flip"}, x \in 1..OLen(par, o)} : o \in 0..NOracles(par)}
  \cup {[k |-> d, o |-> o, p |-> 0] : d \in Deviations \cap {"shift", "scramble"}, o \in 0..NOracles(par)}
  \cup {[k |-> d, o |-> 0, p |-> x] : d \in Deviations \cap {"terminal"}, x \in 1..OLen(par, NOracles(par))}
  \cup {[k |-> d, o |-> o, p |-> x] : d \in Deviations \cap {"answer"}, o \in 0..(NOracles(par) - 1), x \in 1..2}
  \cup {[k |-> d, o |-> o, p |-> 0] : d \in Deviations \cap {"othercoset"}, o \in 0..(NOracles(par) - 1)}
  \cup {[k |-> d, o |-> o, p |-> 0] : d \in Deviations \cap {"layer"}, o \in 0..(NOracles(par) - 1)}
  \cup {[k |-> d, o |-> 0, p |-> 0] : d \in Deviations \cap {"truncate"}}
  \cup {[k |-> d, o |-> 0, p |-> x] : d \in Deviations \cap {"highdeg"}, x \in 2^par.dim..(2^LogLen(par) - 1)}

Deviate(o, word) ==
  IF dev.o # o THEN word
  ELSE CASE dev.k = "flip" -> [word EXCEPT ![dev.p] = FAdd(@, 1)]
         [] dev.k = "shift" -> [i \in 1..Len(word) |-> FAdd(word[i], 5)]
         \* a codeword of too high a degree, honestly folded: only the degree of the end result betrays it
         [] dev.k = "highdeg" -> [i \in 1..Len(word) |-> IF (i - 1) % 2^par.batch = 0
              THEN FAdd(word[i], NovelBasis(Basis(par), dev.p, SpanPoint(Basis(par), (i - 1) \div 2^par.batch), LogLen(par)))
              ELSE word[i]]
         [] dev.k = "scramble" -> [i \in 1..Len(word) |-> RandVal(11, i)]
         [] OTHER -> word

ChooseDev == phase = "setup" /\ \E d \in DevChoices : dev' = d
  /\ phase' = "commit" /\ UNCHANGED <<par, mk, cs, oracles, queries, answers, verdict, final>>
Commit == phase = "commit" /\ Len(oracles) <= NOracles(par)
  /\ LET k == Len(oracles) IN
     oracles' = Append(oracles, Deviate(k, IF k = 0 THEN Encode(par, Msg(par, mk))
                                           ELSE NextWord(par, Chal(par, cs), k - 1, oracles[k])))
  /\ UNCHANGED <<phase, par, mk, cs, dev, queries, answers, verdict, final>>
Query == phase = "commit" /\ Len(oracles) = NOracles(par) + 1
  /\ queries' \in (IF NQueries = 1 THEN {<<i>> : i \in 0..(2^IndexBits(par) - 1)}
                   ELSE {[j \in 1..NQueries |-> RandVal(cs + 5 + s, j) % 2^IndexBits(par)] : s \in 1..2})
  /\ phase' = "answer" /\ UNCHANGED <<par, mk, cs, dev, oracles, answers, verdict, final>>

\* the coset of oracle k (k < NOracles) that query index q opens
Shift(k) == SumSeq(SubSeq(par.arities, 2, k + 1))
CosetIdx(q, k) == q \div 2^Shift(k)
Coset(k, ci) == LET a == 2^par.arities[k + 1] IN SubSeq(oracles[k + 1], ci * a + 1, (ci + 1) * a)
Answer == phase = "answer"
  /\ answers' = [j \in 1..Len(queries) |-> [k \in 1..NOracles(par) |->
        LET ci == CosetIdx(queries[j], k - 1)
            other == IF ci % 2 = 0 THEN ci + 1 ELSE ci - 1
            v == Coset(k - 1, ci)
            ncos == OLen(par, k - 1) \div 2^par.arities[k]
        IN IF j = 1 /\ dev.o = k - 1 /\ dev.k = "answer"
           THEN [idx |-> ci, vals |-> [v EXCEPT ![IF dev.p = 1 THEN 1 ELSE Len(v)] = FAdd(@, 1)]]
           ELSE IF j = 1 /\ dev.o = k - 1 /\ dev.k = "othercoset" /\ ncos > 1
           THEN [idx |-> other, vals |-> Coset(k - 1, other)]
           ELSE [idx |-> ci, vals |-> v]]]
  /\ phase' = "verify" /\ UNCHANGED <<par, mk, cs, dev, oracles, queries, verdict, final>>

LastOracle == oracles[Len(oracles)]
TerminalWord == IF dev.k = "terminal" THEN [LastOracle EXCEPT ![dev.p] = FAdd(@, 1)] ELSE LastOracle
IsConst(w) == \A i \in 1..Len(w) : w[i] = w[1]
QueryOk(j) ==
  \A k \in 1..NOracles(par) :
    LET q == queries[j]  a == answers[j][k]  ci == CosetIdx(q, k - 1)
        c == Chal(par, cs)
        \* folding one coset: the pairs of coset ci are pairs ci*2^(m-1).. of the word
        rc == RoundChal(par, c, k - 1)
        folded == LET Step(st, f) == \* st = <<values, index of first pair block>>
                        LET half == Len(st) \div 2  r == FoldsBefore(par, k - 1) + f
                        IN [i \in 1..half |-> FoldPair(st[2*i-1], st[2*i], Twiddle(Basis(par), r, ci * half + i - 1),
                                                       (IF k = 1 THEN SubSeq(rc, par.batch + 1, Len(rc)) ELSE rc)[f + 1])]
                  IN FoldLeft(Step, IF k = 1 THEN Collapse(a.vals, SubSeq(rc, 1, par.batch)) ELSE a.vals,
                              Range0(IF k = 1 THEN Len(rc) - par.batch ELSE Len(rc)))[1]
    IN  /\ a.idx = ci /\ a.vals = Coset(k - 1, ci)              \* the opening verifies
        /\ IF k = NOracles(par) THEN folded = TerminalWord[ci + 1]
           ELSE folded = answers[j][k + 1].vals[(ci % 2^par.arities[k + 1]) + 1]
Accepts ==
  /\ dev.k # "truncate" /\ dev.k # "layer"
  /\ TerminalWord = LastOracle
  /\ IsConst(FinalWord(par, Chal(par, cs), TerminalWord))
  /\ \A j \in 1..Len(queries) : QueryOk(j)
Verify == phase = "verify"
  /\ verdict' = (IF Accepts THEN "accept" ELSE "reject")
  /\ final' = FinalWord(par, Chal(par, cs), TerminalWord)[1]
  /\ phase' = "done" /\ UNCHANGED <<par, mk, cs, dev, oracles, queries, answers>>

Next == ChooseDev \/ Commit \/ Query \/ Answer \/ Verify
Spec == Init /\ [][Next]_vars

Done == phase = "done"
HonestAccepted == Done /\ dev.k = "none" => verdict = "accept" /\ final = MleEval(Msg(par, mk), Chal(par, cs))
\* what acceptance means: along the query every oracle is the folding of the one before
AcceptMeansConsistent == Done /\ verdict = "accept" =>
  \A k \in 1..NOracles(par) : \A j \in 1..Len(queries) :
     NextWord(par, Chal(par, cs), k - 1, oracles[k])[CosetIdx(queries[j], k - 1) + 1]
       = oracles[k + 1][CosetIdx(queries[j], k - 1) + 1]
HighDegreeRejected == Done /\ dev.k = "highdeg" => \/ verdict = "reject"
   \* or the folding challenges happen to kill the extra term
   \/ FinalWord(par, Chal(par, cs), LastOracle) = [i \in 1..2^par.rate |-> final]
Emit == Done => PrintT(ToJson([par |-> par, msg |-> Msg(par, mk), chal |-> Chal(par, cs), dev |-> dev,
    oracles |-> oracles, queries |-> queries, answers |-> answers, terminal |-> TerminalWord,
    verdict |-> verdict, final |-> final]))
============================================================================
