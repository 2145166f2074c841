------------------------------ MODULE Subspace ------------------------------
(***************************************************************************)
(* F2-linear subspaces of the field, their (normalised) vanishing            *)
(* polynomials, the novel polynomial basis built from them and FRI folding   *)
(* over them.  The basis of an n-dimensional domain is a sequence of n field *)
(* elements; point number i of the domain is the sum of the basis elements   *)
(* at the set bits of i.                                                     *)
(***************************************************************************)
EXTENDS Tower

Bit(i, b) == (i \div 2^b) % 2
CanonBasis(d) == [i \in 1..d |-> 2^(i-1)]
SpanPoint(basis, i) ==
  FoldLeft(LAMBDA acc, b : IF Bit(i, b) = 1 THEN FAdd(acc, basis[b+1]) ELSE acc, 0, Range0(Len(basis)))

\* W_k(x): vanishing polynomial of span(basis[1..k]); W_0(x) = x and W_{k+1}(x) = W_k(x)(W_k(x) + W_k(beta_k)).
RECURSIVE W(_, _, _)
W(basis, k, x) == IF k = 0 THEN x
                  ELSE LET y == W(basis, k - 1, x) IN FMul(y, FAdd(y, W(basis, k - 1, basis[k])))
WHat(basis, k, x) == FMul(W(basis, k, x), FInv(W(basis, k, basis[k+1])))

\* basis polynomial number j of the novel basis at x
NovelBasis(basis, j, x, dim) ==
  FoldLeft(LAMBDA acc, k : IF Bit(j, k) = 1 THEN FMul(acc, WHat(basis, k, x)) ELSE acc, 1, Range0(dim))
\* evaluation at x of the polynomial with the given coefficients (2^dim of them)
NovelEval(basis, coeffs, dim, x) ==
  FoldLeft(LAMBDA acc, j : FAdd(acc, FMul(coeffs[j+1], NovelBasis(basis, j, x, dim))), 0, Range0(2^dim))

\* twiddle factor of pair number i when folding for the r-th time
Twiddle(basis, r, i) ==
  WHat(basis, r, FoldLeft(LAMBDA acc, b : IF Bit(i, b) = 1 THEN FAdd(acc, basis[r + 2 + b]) ELSE acc,
                          0, Range0(Len(basis) - r - 1)))
FoldPair(u, v, t, r) == LET b == FAdd(u, v)  a == FAdd(u, FMul(t, b)) IN FAdd(a, FMul(r, FAdd(a, b)))
\* fold a whole word (its r-th folding) with one challenge
FoldWord(basis, word, r, c) ==
  [i \in 1..(Len(word) \div 2) |-> FoldPair(word[2*i-1], word[2*i], Twiddle(basis, r, i - 1), c)]
RECURSIVE FoldWordMany(_, _, _, _)
FoldWordMany(basis, word, r, cs) ==
  IF cs = <<>> THEN word ELSE FoldWordMany(basis, FoldWord(basis, word, r, cs[1]), r + 1, Tail(cs))

\* tensor expansion of a multilinear query: entry i is the product of (r_b or 1+r_b)
EqWeights(rs) == FoldLeft(LAMBDA acc, b :
    [i \in 1..(2 * Len(acc)) |-> IF i <= Len(acc) THEN FMul(acc[i], FAdd(1, rs[b+1]))
                                 ELSE FMul(acc[i - Len(acc)], rs[b+1])], <<1>>, Range0(Len(rs)))
\* collapse an interleaved word: entries of one symbol are adjacent
Collapse(word, rs) ==
  LET w == EqWeights(rs)  n == Len(w)
  IN  [i \in 1..(Len(word) \div n) |-> FDot(SubSeq(word, (i-1)*n + 1, i*n), w)]
MleEval(vals, rs) == FDot(vals, EqWeights(rs))
============================================================================
