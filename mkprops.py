#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("P01", "Fiat-Shamir transcript binds every challenge to all earlier messages",
  "Prover and verifier that perform the same operations on a transcript draw identical challenges, however the bytes were split into calls, and read back exactly the bytes written. A challenge changes whenever any byte of the statement or of a prover message that precedes it changes, and never because of advice (decommitment) bytes. A proof with missing bytes is refused with an error when it is read, and one with unread bytes is refused when the transcript is finalized.",
  ["histories", "inputs", "fault_sequences"], "every sequence of write/observe/decommit/sample operations, every split of the bytes into calls, every single-byte change, truncation or extension of the proof",
  "unit tests replay two fixed operation sequences; the guarantee is over all histories and all alterations",
  ["crates/core/src/transcript/mod.rs", "crates/core/src/fiat_shamir/hasher_challenger.rs", "crates/core/src/fiat_shamir/sampling.rs"],
  [("hash-chained challenger", "crates/core/src/fiat_shamir/hasher_challenger.rs"), ("tape that observes what it reads and writes", "crates/core/src/transcript/mod.rs")],
  ["transcript reader/writer/sample return values"])

p("P02", "Merkle commitments open only to the committed vector",
  "For every committed vector, batch size and layer depth, the opening produced for each index verifies and yields exactly the committed batch, and the full vector and internal layers verify against the root. An opening, layer or vector that differs from the committed one in any leaf value, position, branch digest, layer digest, root or length is rejected. All ways of committing (in memory or streamed) to the same data give the same root, which is the hash tree over the leaves. The announced proof size is the number of bytes that the layer and the openings take.",
  ["inputs", "configurations", "fault_sequences"], "every tree height, batch size, layer depth and index, and every single alteration of an opening",
  "tests open a few fixed-size trees honestly and try two tamperings",
  ["crates/core/src/merkle_tree/binary_merkle_tree.rs", "crates/core/src/merkle_tree/scheme.rs", "crates/core/src/merkle_tree/prover.rs"],
  [("layer-by-layer recomputation of the root", "crates/core/src/merkle_tree/scheme.rs")], ["scheme and prover return values"])

p("P03", "FRI accepts exactly consistent foldings of a committed codeword",
  "For every valid choice of code rate, message length, interleaving and folding arities, an honest prover's proximity proof of an encoded message verifies and the verifier's final value is the message's multilinear evaluation at the folding challenges. A prover that commits to a word that is not a codeword, to an oracle that is not the folding of the previous one, sends a terminal word inconsistent with the last oracle or not constant-degree, or answers a query with values other than the committed ones is rejected whenever a query hits an inconsistency. Queried positions are those determined by the sampled indices in every folding round.",
  ["inputs", "configurations", "fault_sequences"], "every parameter set, message, folding and query challenge, and every deviation by the prover at any round",
  "tests run honest provers on a few parameter sets and never a deviating prover",
  ["crates/core/src/protocols/fri/verify.rs", "crates/core/src/protocols/fri/prove.rs", "crates/core/src/protocols/fri/common.rs", "crates/ntt/src/fri.rs"],
  [("per-query fold consistency checks", "crates/core/src/protocols/fri/verify.rs"), ("fold of interleaved cosets", "crates/ntt/src/fri.rs")], ["verifier verdict and returned final value"])

p("P04", "Sumcheck verification is exact for every batch of claims",
  "For every batch of sum claims over products of multilinears, the reduction performed by the verifier accepts a prover's messages exactly when they satisfy the round and final consistency equations of the batched claim, and then outputs the sampled point and the claimed evaluations for each claim. Consequently a batch with a false sum is accepted only if an emitted evaluation claim is false too, and honest provers are always accepted. Claims of different sizes can be batched; out-of-order or malformed use is refused with an error.",
  ["inputs", "histories", "fault_sequences"], "every batch shape, every claim, every prover message at every round, every challenge",
  "tests run honest provers with random polynomials; a deviating prover at each round is never tried",
  ["crates/core/src/protocols/sumcheck/verify_sumcheck.rs", "crates/core/src/protocols/sumcheck/front_loaded.rs", "crates/core/src/protocols/sumcheck/common.rs", "crates/core/src/protocols/sumcheck/eq_ind.rs", "crates/core/src/protocols/sumcheck/v3"],
  [("round-by-round claim reduction", "crates/core/src/protocols/sumcheck/verify_sumcheck.rs")], ["verifier result and reduced claims"])

p("P05", "Zerocheck accepts only polynomials vanishing on the whole hypercube",
  "For every batch of zero constraints over multilinears of any mix of sizes and every number of skipped variables, an honest prover is accepted and the reduced evaluation claims are true evaluations of the multilinears. If some constraint is non-zero anywhere on its hypercube, or a prover deviates in the univariate round, a multilinear round or the final evaluations, verification fails or yields a false evaluation claim except for a negligible share of challenges.",
  ["inputs", "histories", "fault_sequences"], "every constraint set, witness, number of skipped rounds and prover deviation",
  "tests cover honest witnesses with fixed shapes",
  ["crates/core/src/protocols/sumcheck/verify_zerocheck.rs", "crates/core/src/protocols/sumcheck/zerocheck.rs", "crates/core/src/protocols/sumcheck/prove"],
  [("univariate skip round, reductions to a single multilinear sumcheck", "crates/core/src/protocols/sumcheck/verify_zerocheck.rs")], ["verifier result and reduced claims"])

p("P06", "Grand product argument proves exactly the claimed products",
  "For every batch of multilinears of any mix of sizes, the honest prover of the claimed products over the hypercube is accepted and the verifier ends with true evaluation claims, one per multilinear. A false product claim, or a prover message altered at any layer, is rejected or leads to a false evaluation claim.",
  ["inputs", "histories", "fault_sequences"], "every batch shape, every multilinear, every claimed product and every alteration of a prover message",
  "tests run only honest batches",
  ["crates/core/src/protocols/gkr_gpa/verify.rs", "crates/core/src/protocols/gkr_gpa/prove.rs", "crates/core/src/protocols/gkr_gpa/gkr_gpa.rs", "crates/core/src/protocols/prodcheck"],
  [("layer-wise GKR reduction", "crates/core/src/protocols/gkr_gpa/verify.rs")], ["verifier result and final layer claims"])

p("P07", "Exponentiation argument proves base^exponent for every row",
  "For every static or dynamic base, exponent width and number of rows, claims that a column equals the base raised to the integer given by the exponent bit columns are proved and verified, ending in true evaluation claims. A result column or claimed evaluation that is wrong in any row, or a prover message altered at any layer, is rejected or leads to a false evaluation claim; batches of exponentiations of different sizes behave as each would alone.",
  ["inputs", "histories", "fault_sequences"], "every base, width, row count, batch shape and alteration",
  "tests check fixed widths honestly",
  ["crates/core/src/protocols/gkr_exp", "crates/core/src/constraint_system/exp.rs"],
  [("bit-layer GKR reduction", "crates/core/src/protocols/gkr_exp/batch_verify.rs")], ["verifier result and layer claims"])

p("P08", "Evaluation claims on virtual polynomials reduce to their true sources",
  "Every virtual polynomial (repeated, projected, shifted or rotated, packed, zero-padded, linear combination, composite, transparent and structured) has the evaluations given by its definition over the polynomials it is derived from, for every parameter. Reducing an evaluation claim on one accepts a true claim and emits true claims on committed polynomials, and for a false claim it fails or emits a false claim, including when claims are repeated or share sub-claims.",
  ["inputs", "configurations", "fault_sequences"], "every virtual kind with every parameter and nesting, every point, every claimed value and prover hint",
  "tests evaluate a handful of parameters with true claims",
  ["crates/core/src/protocols/evalcheck", "crates/core/src/protocols/greedy_evalcheck", "crates/core/src/oracle", "crates/core/src/transparent", "crates/core/src/polynomial"],
  [("structural recursion on the oracle definition", "crates/core/src/protocols/evalcheck/verify.rs")], ["emitted committed claims and verdict"])

p("P09", "Committed polynomial openings verify exactly for true evaluations",
  "For every set of committed small-field polynomials of mixed sizes and every set of evaluation claims on them, the ring-switched, batched opening of true claims is accepted, on any compute backend. If any one claimed evaluation, point or transparent polynomial differs from the committed data the opening is rejected.",
  ["inputs", "configurations", "fault_sequences"], "every mix of sizes, tower levels and numbers of claims, every false claim, and every alteration of the proof",
  "tests run honest openings for a few shapes",
  ["crates/core/src/ring_switch", "crates/core/src/piop", "crates/core/src/tensor_algebra.rs", "crates/core/src/reed_solomon"],
  [("tensor-algebra reduction and interleaved FRI", "crates/core/src/piop/verify.rs")], ["verifier verdict"])

p("P10", "A constraint system proof verifies exactly when the witness is valid",
  "For every constraint system, statement and witness, the witness check accepts exactly when all zero constraints, non-zero columns, virtual column definitions, table size rules and channel balances hold (the results of exponentiations, which the prover computes, aside), and when it accepts a witness with right results, proving succeeds and the proof verifies. When the witness violates any of them in any row, no proof produced from it verifies. This includes empty tables, tables of any allowed size and systems without constraints, channels or exponentiations, as long as the committed data of the system fill a packed element of the prover.",
  ["inputs", "programs", "configurations"], "every constraint system, statement, table size and witness",
  "tests prove and verify valid witnesses of fixed example systems",
  ["crates/core/src/constraint_system", "crates/core/src/protocols", "crates/m3/src/builder"],
  [("reduction to zerocheck, grand products, evalcheck and PIOP", "crates/core/src/constraint_system/verify.rs"), ("direct semantic check", "crates/core/src/constraint_system/validate.rs")], ["witness validation result, prover result, verifier verdict"])

p("P11", "Channels balance as multisets of tuples",
  "A statement and witness are accepted only if, for every channel, the multiset of tuples pushed equals the multiset pulled, counting flush multiplicities, row selectors, constants, unused rows and boundary values with their multiplicities; and every balanced configuration is accepted. Channels are independent of each other, order within a channel is irrelevant, and no channel, including one used by boundaries alone, is exempt.",
  ["inputs", "programs", "configurations"], "every set of flushes, selectors, multiplicities, table sizes and boundaries",
  "tests use a few balanced examples",
  ["crates/core/src/constraint_system/channel.rs", "crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/prove.rs", "crates/m3/src/emulate.rs"],
  [("product of fingerprints per flush", "crates/core/src/constraint_system/verify.rs"), ("boundary products", "crates/core/src/constraint_system/verify.rs")], ["validation and verification verdicts"])

p("P12", "A proof is bound to its statement and cannot be altered",
  "A proof verifies only against the constraint system digest, boundary values, table sizes and parameters it was made for. Any change of any byte of an accepted proof, any truncation and any extension makes verification fail. Prover and verifier absorb the same statement and messages in the same order, and nothing the prover sends before the query phase escapes the challenges.",
  ["inputs", "fault_sequences"], "every byte position of a proof, every alteration of the statement",
  "tests only verify unaltered proofs",
  ["crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/prove.rs", "crates/core/src/transcript/mod.rs", "crates/core/src/protocols/fri/verify.rs"],
  [("Fiat-Shamir over statement and messages", "crates/core/src/constraint_system/verify.rs")], ["verifier verdict; challenger observations"])

p("P13", "Table witness columns hold what their definitions say",
  "For every table layout and row count, each derived column (computed, packed, selected, shifted, repeated, projected, constant and structured) of a filled table equals its definition applied to the columns it derives from on every row, row padding included, whether the table is filled sequentially, in parallel or in segments of any size. The compiled constraint system accepts every table filled according to its constraints and rejects a table in which any committed cell makes a constraint fail.",
  ["inputs", "programs", "schedules"], "every column kind and parameter, table size and segment split",
  "tests fill fixed tables",
  ["crates/m3/src/builder", "crates/core/src/witness.rs"],
  [("column definitions compiled to oracles and to witness views", "crates/m3/src/builder/witness.rs")], ["witness index contents; validation verdict"])

p("P14", "Gadgets compute and enforce their arithmetic for all operands",
  "For every operand, the adder, incrementer, subtractor, multiplier, divider, barrel shifter, lookup and hash gadgets produce the mathematically correct outputs (including carries, overflow flags, quotients and remainders), and their constraints accept exactly those outputs. Changing any output or intermediate bit of a filled row makes validation fail.",
  ["inputs"], "every operand value and every single-bit change of the filled witness",
  "tests use random operands and only valid witnesses",
  ["crates/m3/src/gadgets"], [("per-gadget constraints", "crates/m3/src/gadgets")], ["gadget outputs and validation verdict"])

p("P15", "All compute layers implement the same operations",
  "Every operation of a compute layer (inner products, tensor expansion, folds, composite evaluation over the hypercube, sums, FRI folds, pairwise products, extrapolation, copies) returns the mathematically defined result for every admissible size, subfield and slice layout, identically on the reference and the optimised layer, and refuses inadmissible sizes with an error instead of a wrong result.",
  ["inputs", "configurations", "schedules"], "every operation, size, tower level and backend",
  "tests use one or two sizes per operation",
  ["crates/compute/src", "crates/fast_compute/src"], [("layer trait contract", "crates/compute/src/layer.rs")], ["operation results"])

p("P16", "Additive NTT and Reed-Solomon encoding evaluate the novel-basis polynomial",
  "For every field, domain, size, interleaving, coset and number of skipped rounds, the forward transform maps coefficients in the novel polynomial basis to the polynomial's evaluations on the chosen coset, and the inverse transform undoes it. Single-threaded, multi-threaded, precomputed and on-the-fly variants agree, encoding is linear and systematic with respect to them, and inadmissible shapes are refused with an error.",
  ["inputs", "configurations", "schedules"], "every transform shape, coset, packing width and thread split",
  "tests check roundtrips on fixed shapes",
  ["crates/ntt/src", "crates/core/src/reed_solomon"], [("butterflies with subspace-polynomial twiddles", "crates/ntt/src/single_threaded.rs")], ["transform outputs"])

p("P17", "Field arithmetic matches the tower definition in every representation",
  "Addition, multiplication, squaring, inversion, multiplication by the tower generator, powers and subfield operations give the results of the recursive tower definition in every field of every tower family, and every packed width and architecture-specific strategy agrees with the scalar definition lane by lane. Conversions between isomorphic representations, subfield embeddings, basis decompositions, transposes and linear transformations are mutually inverse and preserve the arithmetic.",
  ["inputs", "configurations"], "every operand and every representation",
  "property tests sample random operands per type; agreement with one common definition over all types is not checked",
  ["crates/field/src"], [("tower arithmetic strategies", "crates/field/src/arch")], ["operation results"])

p("P18", "Serialization is lossless, canonical and rejects malformed input",
  "Everything that is serialized (field elements in every representation and mode, packed values, collections, constraint systems, arithmetic circuits, oracles, transparent polynomials) deserializes to an equal value consuming exactly the bytes written, and distinct values have distinct encodings. Any truncated encoding and any invalid tag or length is refused with an error, never accepted and never a crash.",
  ["inputs", "fault_sequences"], "every serializable value, mode and truncation point",
  "tests roundtrip a few values",
  ["crates/utils/src/serialization.rs", "crates/macros/src", "crates/core/src/constraint_system/mod.rs", "crates/math/src/arith_expr.rs", "crates/field/src/macros.rs"],
  [("derive macros and hand-written codecs", "crates/macros/src")], ["encoded bytes and decode results"])

p("P19", "Hashing is independent of chunking, batching and parallelism",
  "A digest depends only on the message bytes (or field elements), not on how they were split into updates, and equals the reference function's value. Digests computed many at a time or in parallel equal those computed one at a time, for every message length, and two-to-one compressions depend on both inputs in order.",
  ["inputs", "schedules"], "every message length and split, every number of parallel messages",
  "tests use a few lengths",
  ["crates/hash/src"], [("block buffering and multi-lane hashing", "crates/hash/src")], ["digests"])

p("P20", "Multilinear and univariate polynomial operations are exact",
  "Multilinear extension evaluation, partial evaluation from either end, folding, tensor expansion of a query, piecewise concatenation, packing adapters, univariate interpolation and extrapolation, matrix inversion and subspace enumeration agree with their mathematical definitions for every size, subfield, packing width and query split. Inadmissible sizes are refused with an error.",
  ["inputs", "configurations"], "every size, packing width, order of variables and point",
  "tests sample a few sizes",
  ["crates/math/src", "crates/core/src/polynomial", "crates/hal/src"], [("fold and tensor kernels", "crates/math/src/fold.rs")], ["returned evaluations"])

p("P21", "Arithmetic expression transformations preserve meaning",
  "Building, simplifying, deduplicating, variable remapping, constant substitution, subcircuit extraction, compilation and batch evaluation of an arithmetic expression all evaluate to the same field element as the original expression at every assignment, and the reported degree, binary tower level and linear normal form are those of the polynomial.",
  ["programs", "inputs"], "every expression tree and assignment",
  "tests use hand-written expressions",
  ["crates/math/src/arith_expr.rs", "crates/core/src/polynomial/arith_circuit.rs", "crates/fast_compute/src/arith_circuit.rs", "crates/m3/src/builder/expr.rs"],
  [("circuit rewriting passes", "crates/math/src/arith_expr.rs")], ["evaluation results, degree"])

p("P22", "Allocators and memory views never alias or lose data",
  "Blocks handed out by an allocator are disjoint, have the requested size and fit the capacity, requests beyond it fail with an error and leave the allocator usable, and a nested scope's memory is reusable after it ends while earlier blocks keep their contents. Splitting, chunking, slicing and narrowing views of memory yield exactly the addressed elements; strided, two-dimensional and random-access views read and write exactly the cells they name.",
  ["histories", "inputs"], "every sequence of allocations, splits, slices, reads and writes",
  "tests try a few fixed sequences",
  ["crates/compute/src/alloc.rs", "crates/compute/src/memory.rs", "crates/fast_compute/src/memory.rs", "crates/utils/src"],
  [("bump allocation by splitting slices", "crates/compute/src/alloc.rs")], ["slice contents"])

with open(__file__.rsplit("/", 1)[0] + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
